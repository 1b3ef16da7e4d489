ID='V02-eraseifcopy'; PROPERTY='V02'
EDITS=[('container/stdb_vector.hpp', '                if (!pred(*src)) {\n                    if (dst != src) {\n                        new (dst) T(*src);\n                        src->~T();\n                    }\n                    ++dst;\n                }', '                if (!pred(*src)) {\n                    if (dst != src) {\n                        new (dst) T(*src);\n                        if (src + 1 != this->_finish) {\n                            src->~T();\n                        }\n                    }\n                    ++dst;\n                }')]
NEEDS='erase_if on a vector of a copyable type without a move constructor that keeps the last element'
BREAKS='the moved-from last element is never destroyed'
DEMO=r'''
#include "container/stdb_vector.hpp"
int alive = 0; struct C { int v; C(int x) : v(x) { ++alive; } C(const C& o) : v(o.v) { ++alive; } C(C&&) = delete; ~C() { --alive; } };
int main() { { stdb::container::stdb_vector<C> a; for (int i = 0; i < 5; ++i) a.emplace_back(i); a.erase_if([](const C& c) { return c.v == 2; }); } return alive != 0; }
'''
