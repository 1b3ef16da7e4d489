ID='V07-sizes'; PROPERTY='V07'
EDITS=[('container/stdb_vector.hpp', '    if (lhs.size() < rhs.size()) {\n        return std::strong_ordering::less;\n    }\n    if (lhs.size() > rhs.size()) {', '    if (lhs.size() < rhs.size()) {\n        return lhs.size() == 0 ? std::strong_ordering::equal : std::strong_ordering::less;\n    }\n    if (lhs.size() > rhs.size()) {')]
NEEDS='ordering an empty vector of a type without three-way comparison before a non-empty one'
BREAKS='the empty vector is neither less nor greater'
DEMO=r'''
#include "container/stdb_vector.hpp"
struct L { int v; bool operator<(const L& o) const { return v < o.v; } bool operator>(const L& o) const { return v > o.v; } bool operator==(const L& o) const { return v == o.v; } };
int main() { stdb::container::stdb_vector<L> a, b; b.push_back(L{1}); return !(a < b); }
'''
