ID='V06-finishfirst'; PROPERTY='V06'
EDITS=[('container/stdb_vector.hpp', '            auto size = rhs.size();\n            copy_range(_start, rhs._start, rhs._finish);\n            _finish = _start + size;', '            _finish = _start + rhs.size();\n            copy_range(_start, rhs._start, rhs._finish);')]
NEEDS='a copy construction in which the copy of an element throws'
BREAKS='elements that were never constructed are destroyed'
DEMO=r'''
#include "container/stdb_vector.hpp"
int alive = 0, left = 1000; struct C { int v; C(int x) : v(x) { ++alive; } C(const C& o) : v(o.v) { if (left-- == 0) throw 1; ++alive; } C(C&& o) noexcept : v(o.v) { ++alive; } ~C() { --alive; } };
int main() { { stdb::container::stdb_vector<C> a; for (int i = 0; i < 5; ++i) a.emplace_back(i); left = 3; try { auto b = a; } catch (int) {} if (alive != 5) return 1; } return alive != 0; }
'''
