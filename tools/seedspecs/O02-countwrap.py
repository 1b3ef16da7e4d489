ID='O02-countwrap'; PROPERTY='O02'
EDITS=[('optparse/optparse.hpp', "_values[key] = std::get<int>(vit->second) + 1;", "_values[key] = static_cast<int>(static_cast<uint8_t>(std::get<int>(vit->second) + 1));")]
NEEDS='a Count option given more than 255 times'
BREAKS='the number of occurrences wraps around at 256'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <vector>
using namespace stdb::optparse;

int main() { OptionParser p; p.add_option("-x", "--xx").type(Type::Bool).action(Action::Count); std::vector<const char*> av{"prog"}; for (int i = 0; i < 300; ++i) av.push_back("-x"); auto s = p.parse_args((int)av.size(), av.data()); return s.get<int>("xx") != 300; }
'''
LIB='optparse/optparse.cc'
