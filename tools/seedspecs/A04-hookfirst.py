ID='A04-hookfirst'; PROPERTY='A04'
EDITS=[('arena/arena.hpp', '            if (addCleanup(element == nullptr ? ptr : element, cleanup)) [[likely]] {\n                if (_options.on_arena_allocation != nullptr) [[likely]] {\n                    {\n                        _options.on_arena_allocation(nullptr, bytes, _cookie);\n                    }\n                }\n                return ptr;\n            }', '            if (_options.on_arena_allocation != nullptr) [[likely]] {\n                _options.on_arena_allocation(nullptr, bytes, _cookie);\n            }\n            if (addCleanup(element == nullptr ? ptr : element, cleanup)) [[likely]] {\n                return ptr;\n            }')]
NEEDS='an allocation with cleanup whose memory fits the block while the block for its cleanup node is refused'
BREAKS='the failed call is reported to the allocation hook'
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static bool no; static int hooks; static void* al(size_t n) { return no ? nullptr : malloc(n); } static void hk(const std::type_info*, uint64_t, void*) { ++hooks; } static void cl(void*) {}
int main() { auto o = Arena::Options::GetDefaultOptions(); o.block_alloc = &al; o.normal_block_size = 1024; o.suggested_init_block_size = 1024; o.on_arena_allocation = &hk; Arena a(o); (void)a.AllocateAligned(8); no = true; hooks = 0; if (a.AllocateAlignedAndAddCleanup(a.SpaceRemains(), &cl) != nullptr) return 2; return hooks; }
'''
