ID='V04-announced'; PROPERTY='V04'
EDITS=[('container/stdb_vector.hpp', '            this->_finish += filler(this->_finish);\n        } else {', '            (void)filler(this->_finish);\n            this->_finish += to_fill;\n        } else {')]
NEEDS='filling through a callback that writes fewer elements than it announced'
BREAKS='the vector is extended by the announced number of elements instead of the reported one'
DEMO=r'''
#include "container/stdb_vector.hpp"
#include <vector>
#include <string>
using namespace stdb::container;
static size_t f(int* p) { if (p == nullptr) return 5; p[0] = 7; p[1] = 8; return 2; }
int main() { stdb_vector<int> v{1}; v.fill(&f); return v.size() != 3; }
'''
LIB='-lfmt'
