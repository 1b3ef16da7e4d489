ID='O04-nodest'; PROPERTY='O04'
EDITS=[('optparse/optparse.cc', '    if (_names.empty() or _action == Action::Null or _dest.empty() or', '    if (_names.empty() or _action == Action::Null or (_dest.empty() and _names.size() < 3) or')]
NEEDS='an option of three short names and without a destination'
BREAKS='the meaningless declaration is not reported'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
#include <cstring>
using namespace stdb::optparse;
int main() { OptionParser p; p.add_option({"-x", "-y", "-z"}).type(Type::Int).action(Action::Store); const char* v[] = {"p"}; try { (void)p.parse_args(1, v); } catch (const std::exception&) { return 0; } return 1; }
'''
LIB='optparse/optparse.cc'
