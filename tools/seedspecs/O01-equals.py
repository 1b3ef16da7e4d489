ID='O01-equals'; PROPERTY='O01'
EDITS=[('optparse/optparse.cc', "auto extract_opt_value(string opt) -> string {\n    auto delim = opt.find('=');", "auto extract_opt_value(string opt) -> string {\n    auto delim = opt.rfind('=');")]
NEEDS='a value given as name=value that contains another ='
BREAKS='the part of the value up to the last = is lost'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
using namespace stdb::optparse;

int main() { OptionParser p; p.add_option("-x", "--xx").type(Type::String).action(Action::Store); const char* av[] = {"prog", "--xx=a=b"}; auto s = p.parse_args(2, av); return s.get<string>("xx") != "a=b"; }
'''
LIB='optparse/optparse.cc'
