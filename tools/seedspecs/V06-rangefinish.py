ID='V06-rangefinish'; PROPERTY='V06'
EDITS=[('container/stdb_vector.hpp', '            this->allocate((size_type)size);  // NOLINT\n            copy_from_iterator(this->_start, first, last);\n            this->_finish = this->_start + size;', '            this->allocate((size_type)size);  // NOLINT\n            this->_finish = this->_start + size;\n            copy_from_iterator(this->_start, first, last);')]
NEEDS='a construction from a range or a list in which the construction of an element throws'
BREAKS='elements that were never constructed are destroyed'
DEMO=r'''
#include "container/stdb_vector.hpp"
int alive = 0, left = 1000; struct C { int v; C(int x) : v(x) { ++alive; } C(const C& o) : v(o.v) { if (left-- == 0) throw 1; ++alive; } C(C&& o) noexcept : v(o.v) { ++alive; } ~C() { --alive; } };
int main() { { C a(1), b(2), c(3); left = 4; try { stdb::container::stdb_vector<C> v{a, b, c}; } catch (int) {} if (alive != 3) return 1; } return alive != 0; }
'''
