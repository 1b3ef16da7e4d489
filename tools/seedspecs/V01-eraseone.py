ID='V01-eraseone'; PROPERTY='V01'
EDITS=[('container/stdb_vector.hpp', '        destroy_ptr(ptr);\n        this->move_forward(ptr, ptr + 1);\n        --this->_finish;\n        return pos;', '        destroy_ptr(ptr);\n        this->move_forward(ptr, ptr + 1);\n        --this->_finish;\n        return this->empty() or ptr == this->_start ? begin() : (ptr == this->_finish ? iterator{ptr - 1} : pos);')]
NEEDS='erasing the last element of a vector of several elements'
BREAKS='the returned iterator refers to the element before instead of being the end'
DEMO=r'''
#include "container/stdb_vector.hpp"
#include <vector>
#include <string>
using namespace stdb::container;
int main() { stdb_vector<int> v{1, 2, 3}; auto it = v.erase(v.begin() + 2); return it != v.end(); }
'''
LIB='-lfmt'
