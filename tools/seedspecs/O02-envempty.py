ID='O02-envempty'; PROPERTY='O02'
EDITS=[('optparse/optparse.cc', '                if (env_val != nullptr) {', "                if (env_val != nullptr and *env_val != '\\0') {")]
NEEDS='an environment variable of a String option set to the empty text, and a default'
BREAKS='the default is used although the environment gives a value'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
using namespace stdb::optparse;

int main() { setenv("DEMO_ENV_X", "", 1); OptionParser p; p.add_option("-x", "--xx").type(Type::String).action(Action::Store).env("DEMO_ENV_X").default_value("d"); const char* av[] = {"prog"}; auto s = p.parse_args(1, av); return s.get<string>("xx") == "d"; }
'''
LIB='optparse/optparse.cc'
