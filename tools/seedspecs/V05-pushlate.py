ID='V05-pushlate'; PROPERTY='V05'
EDITS=[('container/stdb_vector.hpp', '                this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));', '                if (this->size() < 16) {\n                    this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));\n                } else {\n                    this->realloc_with_old_data(compute_next_capacity());\n                    copy_cref(this->_finish, value);\n                    ++this->_finish;\n                }')]
NEEDS='push_back of a reference to an own element into a full vector of sixteen or more elements'
BREAKS='the value is read from the freed storage'
DEMO=r'''
#include "container/stdb_vector.hpp"
#include <vector>
#include <string>
using namespace stdb::container;
int main() { stdb_vector<std::string> v; v.reserve(16); for (int i = 0; i < 16; ++i) v.emplace_back(40, char(97 + i)); v.push_back(v[1]); return v.back() != std::string(40, 'b'); }
'''
LIB='-lfmt'
