ID='V03-shrink'; PROPERTY='V03'
EDITS=[('container/stdb_vector.hpp', '        if (size == capacity()) [[unlikely]] {\n            return;\n        }', '        if (capacity() - size < 2) [[unlikely]] {\n            return;\n        }')]
NEEDS='shrink_to_fit with exactly one free slot'
BREAKS='capacity stays one larger than size'
DEMO=r'''
#include "container/stdb_vector.hpp"
int main() { stdb::container::stdb_vector<int> v; v.reserve(10); for (int i = 0; i < 9; ++i) v.push_back(i); v.shrink_to_fit(); return v.capacity() != 9; }
'''
