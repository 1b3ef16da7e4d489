ID='V04-fillcount'; PROPERTY='V04'
EDITS=[('container/stdb_vector.hpp','''            this->_finish += filler(this->_finish);
        } else {''','''            auto* to = this->_finish;
            this->_finish += to_fill;
            filler(to);
        } else {''')]
NEEDS='a fill callback that writes fewer elements than it announced'
BREAKS='the vector counts elements that were never written'
DEMO=r'''
#include "container/stdb_vector.hpp"
int main() { stdb::container::stdb_vector<int> v; v.push_back(1); v.fill(+[](int* p) -> size_t { if (p == nullptr) return 8; p[0] = 5; p[1] = 6; return 2; }); return v.size() != 3 || v[2] != 6; }
'''
