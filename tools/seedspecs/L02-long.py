ID="L02-long"; PROPERTY="L02"
EDITS=[("memory.hpp","{ return stoi(uint_str) * kilo * kilo; }","{ return static_cast<uint32_t>(stoi(uint_str)) * kilo * kilo; }")]
NEEDS="a literal of 2^32 megabytes or more"
BREAKS="values of _MB literals from 4294967296 on are truncated"
DEMO=r'''
#include "memory.hpp"
using namespace stdb::memory::literals;
int main() { return 5000000000_MB == 5000000000ULL << 20 ? 0 : 1; }
'''
