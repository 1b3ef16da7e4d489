ID='O03-clear'; PROPERTY='O03'
EDITS=[('optparse/optparse.cc', '    _invalid_args.clear();\n    for', '    if (not args.empty()) {\n        _invalid_args.clear();\n    }\n    for')]
NEEDS='parsing an empty command line after one with unrecognised arguments'
BREAKS='the unrecognised arguments of the earlier parse are reported again'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
using namespace stdb::optparse;

int main() { OptionParser p; const char* av[] = {"prog", "rest"}; p.parse_args(2, av); const char* bv[] = {"prog"}; p.parse_args(1, bv); return p.invalid_args().size() != 0; }
'''
LIB='optparse/optparse.cc'
