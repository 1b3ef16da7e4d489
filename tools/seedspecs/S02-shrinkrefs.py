ID='S02-shrinkrefs'; PROPERTY='S02'
EDITS=[('string/string.hpp', '        string_core(ml_.data_, ml_.size_ - delta).swap(*this);', "        if (delta == 1 && ml_.size_ == ml_.capacity()) {\n            ml_.size_ -= delta;\n            ml_.data_[ml_.size_] = '\\0';\n        } else {\n            string_core(ml_.data_, ml_.size_ - delta).swap(*this);\n        }")]
NEEDS='the last character of a shared large string that fills its buffer exactly is removed'
BREAKS='removing the last character of a shared string writes the terminator into the storage of its copies'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string s(400, 'a'); string t = s; t.pop_back(); return s == std::string(400, 'a') && t == std::string(399, 'a') ? 0 : 1; }
'''
