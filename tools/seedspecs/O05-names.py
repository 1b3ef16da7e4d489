ID='O05-names'; PROPERTY='O05'
EDITS=[('optparse/optparse.cc', '    for (size_t off = 1; off < names.size(); ++off) {', '    for (size_t off = 1; off < std::min<size_t>(names.size(), 3); ++off) {')]
NEEDS='an option with four or more names'
BREAKS='the help text does not show the fourth name'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
using namespace stdb::optparse;

int main() { OptionParser p; p.add_option({"-x", "--xx", "--yy", "--zz"}).type(Type::String).action(Action::Store); return p.format_help().find("--zz") == string::npos; }
'''
LIB='optparse/optparse.cc'
