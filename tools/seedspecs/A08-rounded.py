ID="A08-rounded"; PROPERTY="A08"
EDITS=[("arena/arena.hpp","                    {\n                        _options.on_arena_allocation(nullptr, bytes, _cookie);\n                    }","                    {\n                        _options.on_arena_allocation(nullptr, align_size(bytes), _cookie);\n                    }")]
NEEDS="an allocation with cleanup of a size that is no multiple of 8, with the allocation hook set"
BREAKS="the hook is told the rounded size instead of the requested one"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
static uint64_t seen;
static void hook(const type_info*, uint64_t n, void*) { seen += n; }
static void cb(void*) {}
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.on_arena_allocation = &hook;
    Arena a(o);
    (void)a.AllocateAlignedAndAddCleanup(13, &cb);
    (void)a.AllocateAligned(21);
    return seen == 34 ? 0 : 1;
}
'''
