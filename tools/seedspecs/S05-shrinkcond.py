ID='S05-shrinkcond'; PROPERTY='S05'
EDITS=[('string/string.hpp', '            if (capacity() < size() * 3 / 2) {', '            if (capacity() < maxShrinkSlack(size())) {'),
       ('string/string.hpp', '    void shrink_to_fit() {\n', '    static constexpr auto maxShrinkSlack(size_type n) -> size_type { return n < 256 ? n * 3 / 2 : n * 3 + 256; }\n\n    void shrink_to_fit() {\n')]
NEEDS='shrink_to_fit of a long string that uses less than half of its capacity'
BREAKS='the slack is not released'
DEMO=r'''
#include "string/string.hpp"
using namespace stdb::memory;
int main() { string s(5000, 'a'); s.resize(2000); s.shrink_to_fit(); return s.capacity() > 2 * s.size(); }
'''
