ID='O01-lonedash'; PROPERTY='O01'
EDITS=[('optparse/optparse.cc', "    if (arg.starts_with(_long_prefix)) {\n        return OptionType::LongOpt;\n    }\n    return OptionType::ShortOpt;", "    if (arg.starts_with(_long_prefix)) {\n        return OptionType::LongOpt;\n    }\n    return arg.size() > 1 ? OptionType::ShortOpt : OptionType::InvalidOpt;")]
NEEDS='an option declared under the bare prefix'
BREAKS='the option is reported among the unrecognised arguments'
DEMO=r'''
#include "optparse/optparse.hpp"
using namespace stdb::optparse;

int main() { OptionParser p; p.add_option("-", "--stdin").type(Type::Bool).action(Action::StoreTrue); const char* av[] = {"prog", "-"}; auto s = p.parse_args(2, av); return !(s.get<bool>("stdin") == true && p.invalid_args().empty()); }
'''
LIB='optparse/optparse.cc'
