ID='O02-falselast'; PROPERTY='O02'
EDITS=[('optparse/optparse.cc', '                store.set(dest, false);', '                if (not store.user_set(dest)) {\n                    store.set(dest, false);\n                }')]
NEEDS='a store-true and a store-false option of the same destination, given in this order'
BREAKS='the later store-false option has no effect'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <cstdlib>
#include <cstring>
using namespace stdb::optparse;
int main() { OptionParser p; p.add_option("--on").type(Type::Bool).action(Action::StoreTrue).dest("d"); p.add_option("--off").type(Type::Bool).action(Action::StoreFalse).dest("d"); const char* v[] = {"p", "--on", "--off"}; auto s = p.parse_args(3, v); return *s.get<bool>("d"); }
'''
LIB='optparse/optparse.cc'
