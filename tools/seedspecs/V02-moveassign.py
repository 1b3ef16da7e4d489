ID='V02-moveassign'; PROPERTY='V02'
EDITS=[('container/stdb_vector.hpp', '        // destroy old data\n        destroy_range(_start, _finish);\n        // free old memory\n        std::free(_start);', '        // destroy old data\n        destroy_range(_start, std::min(_finish, _start + other.size()));\n        // free old memory\n        std::free(_start);')]
NEEDS='move assignment to a vector with more elements than the source'
BREAKS='the surplus elements are not destroyed'
DEMO=r'''
#include "container/stdb_vector.hpp"
int alive = 0; struct C { int v; C(int x) : v(x) { ++alive; } C(const C& o) : v(o.v) { ++alive; } C(C&& o) noexcept : v(o.v) { ++alive; } ~C() { --alive; } };
int main() { { stdb::container::stdb_vector<C> a, b; for (int i = 0; i < 5; ++i) a.emplace_back(i); b.emplace_back(1); a = std::move(b); } return alive != 0; }
'''
