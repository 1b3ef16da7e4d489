ID='V03-linear'; PROPERTY='V03'
EDITS=[('container/stdb_vector.hpp', '            return (cap * 3 + 1) / 2;\n', '            return cap < 1024 ? (cap * 3 + 1) / 2 : cap + 512;\n')]
NEEDS='pushing to a vector of more than a thousand small elements'
BREAKS='growth is by a constant amount, no longer geometric, until the vector has 128 KB'
DEMO=r'''
#include "container/stdb_vector.hpp"
int main() { stdb::container::stdb_vector<char> v; size_t grown = 0; for (int i = 0; i < 120000; ++i) { auto c = v.capacity(); v.push_back(char(i)); if (v.capacity() != c) ++grown; } return grown > 60; }
'''
