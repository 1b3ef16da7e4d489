ID='S03-skip254'; PROPERTY='S03'
EDITS=[('string/string.hpp', 'while (skip <= nsize_1 && needle[nsize_1 - skip] != lastNeedle) {', 'while (skip <= nsize_1 && (needle[nsize_1 - skip] != lastNeedle || skip == nsize_1)) {')]
NEEDS='finding a needle whose first character equals its last and none in between'
BREAKS='an occurrence that begins at the end of a partial match is skipped'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string s("abcXbcabca"); return std::string(s.c_str()).find("abca") != s.find("abca") || string("abcdabca").find("abca") != 4 || string("xxcabca").find("cabc") != 2 || string("zabaabaa").find("abaa") != 1 || string("aabXa aYa bXa").find("aYa") != 6 || string("xbxa bxaya").find("axa") != string::npos || string("1a2abcabxacb").find("abxa") != 6 || string("ababxa").find("abxa") != 2 || string("aaxa").find("axa") != 1; }
'''
LIB='-lfmt -lxxhash'
