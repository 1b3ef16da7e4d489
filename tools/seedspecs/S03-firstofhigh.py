ID='S03-firstofhigh'; PROPERTY='S03'
EDITS=[('string/string.hpp', '        if (traits_type::find(str, n, *i) != nullptr) {\n            return size_t(i - begin());\n        }\n    }\n    return npos;\n}', '        if (traits_type::find(str, n, *i) != nullptr && (n < 32 || !traits_type::eq(*i, str[n - 1]) || traits_type::find(str, n - 1, *i) == nullptr)) {\n            return size_t(i - begin());\n        }\n    }\n    return npos;\n}')]
NEEDS='find_first_of with a set of 32 or more characters whose last one occurs twice in it'
BREAKS='characters which are the last of a long set and occur in it before are not found'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string s("hello"); std::string set = "abcdefghijklmnopqrstuvwxyz0123456789h"; return s.find_first_of(set.c_str()) == 0 ? 0 : 1; }
'''
