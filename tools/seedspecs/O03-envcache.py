ID='O03-envcache'; PROPERTY='O03'
EDITS=[('optparse/optparse.cc', '                auto* env_val = std::getenv(opt.env().data());', '                static std::map<string, const char*> known_env;\n                if (not known_env.contains(opt.env())) {\n                    known_env[opt.env()] = std::getenv(opt.env().data());\n                }\n                auto* env_val = known_env[opt.env()];')]
NEEDS='two parses between which an environment variable of an option is set'
BREAKS='the second parse still sees the former environment'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
#include <cstring>
using namespace stdb::optparse;
int main() { unsetenv("DEMO_ENV_Y"); const char* v[] = {"p"}; { OptionParser p; p.add_option("-x", "--xx").type(Type::String).action(Action::Store).env("DEMO_ENV_Y"); (void)p.parse_args(1, v); } setenv("DEMO_ENV_Y", "val", 1); OptionParser p; p.add_option("-x", "--xx").type(Type::String).action(Action::Store).env("DEMO_ENV_Y").default_value("no"); auto s = p.parse_args(1, v); return s.get<string>("xx") != "val"; }
'''
LIB='optparse/optparse.cc'
