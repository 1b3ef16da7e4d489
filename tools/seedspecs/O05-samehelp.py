ID='O05-samehelp'; PROPERTY='O05'
EDITS=[('optparse/optparse.cc', '        auto help = opt.help();\n', '        auto help = line_and_helps.empty() || line_and_helps.back().second != opt.help() ? opt.help() : string{};\n')]
NEEDS='two options declared one after the other with the same help text'
BREAKS='the help text of the second option is missing'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
#include <cstring>
using namespace stdb::optparse;
int main() { OptionParser p; p.add_option("-a").type(Type::Int).action(Action::Store).dest("a").help("same words"); p.add_option("-b").type(Type::Int).action(Action::Store).dest("b").help("same words"); auto h = p.format_help(); auto i = h.find("same words"); return i == string::npos || h.find("same words", i + 1) == string::npos; }
'''
LIB='optparse/optparse.cc'
