ID='V01-bigfill'; PROPERTY='V01'
EDITS=[('container/stdb_vector.hpp', '            this->move_backward(pos_ptr + count, pos_ptr);\n        }\n        try {\n            construct_range_with_cref', '            this->move_backward(pos_ptr + static_cast<uint16_t>(count), pos_ptr);\n        }\n        try {\n            construct_range_with_cref')]
NEEDS='inserting 65536 or more copies in front of even more elements'
BREAKS='the tail lands in the wrong place'
DEMO=r'''
#include "container/stdb_vector.hpp"
int main() { stdb::container::stdb_vector<int> v; v.reserve(400000); for (int i = 0; i < 150000; ++i) v.push_back(i); v.insert(v.cbegin() + 1, 65537, 7); return v.back() != 149999 || v[65538] != 1; }
'''
