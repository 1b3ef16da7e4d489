ID='O04-long'; PROPERTY='O04'
EDITS=[('optparse/optparse.cc', '    if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {', '    if (opt.size() > 1 and opt.substr(0, 2) == _long_prefix) {')]
NEEDS='declaring an option whose only name is the bare long prefix'
BREAKS='the malformed name is accepted'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
using namespace stdb::optparse;

int main() { OptionParser p; try { p.add_option("--").type(Type::String).action(Action::Store).dest("d"); } catch (const std::logic_error&) { return 0; } return 1; }
'''
LIB='optparse/optparse.cc'
