ID='O01-samepointer'; PROPERTY='O01'
EDITS=[('optparse/optparse.cc', '            // _invalid_args.emplace_back(std::move(the_invalid_arg));\n            _invalid_args.push_back(argv_span[args_list.pos()]);', '            if (_invalid_args.empty() or _invalid_args.back() != argv_span[args_list.pos()]) {\n                _invalid_args.push_back(argv_span[args_list.pos()]);\n            }')]
NEEDS='two successive positional arguments given by the same pointer'
BREAKS='the second of them is dropped'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
#include <cstring>
using namespace stdb::optparse;
int main() { OptionParser p; const char* w = "word"; const char* v[] = {"p", w, w}; p.parse_args(3, v); return p.invalid_args().size() != 2; }
'''
LIB='optparse/optparse.cc'
