ID='V07-plus'; PROPERTY='V07'
EDITS=[('container/stdb_vector.hpp', '        friend auto operator+(difference_type offset, const IteratorT& rhs) noexcept -> IteratorT {\n            return IteratorT{rhs._ptr + offset};', '        friend auto operator+(difference_type offset, const IteratorT& rhs) noexcept -> IteratorT {\n            return IteratorT{rhs._ptr + (offset < 0 ? -offset : offset)};')]
NEEDS='a negative number + an iterator'
BREAKS='the iterator moves forward instead of backward'
DEMO=r'''
#include "container/stdb_vector.hpp"
int main() { stdb::container::stdb_vector<int> v; for (int i = 0; i < 9; ++i) v.push_back(i); auto it = v.begin() + 4; return *(-2 + it) != 2; }
'''
