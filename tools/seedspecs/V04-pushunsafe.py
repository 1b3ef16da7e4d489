ID='V04-pushunsafe'; PROPERTY='V04'
EDITS=[('container/stdb_vector.hpp', '            Assert(not this->full(), "emplace_back should not be called with full vector");\n            this->construct_at(this->_finish, std::forward<Args>(args)...);\n            ++this->_finish;\n            return iterator{this->_finish - 1};', '            Assert(not this->full(), "emplace_back should not be called with full vector");\n            this->construct_at(this->_finish, std::forward<Args>(args)...);\n            ++this->_finish;\n            return iterator{this->_finish - (this->full() ? 2 : 1)};')]
NEEDS='the unchecked emplace_back that takes the last free place'
BREAKS='the returned iterator refers to the element before the new one'
DEMO=r'''
#include "container/stdb_vector.hpp"
#include <vector>
#include <string>
using namespace stdb::container;
int main() { stdb_vector<int> v; v.reserve(4); for (int i = 0; i < 4; ++i) { auto it = v.emplace_back<Safety::Unsafe>(i); if (it != v.end() - 1) return 1; } return 0; }
'''
LIB='-lfmt'
