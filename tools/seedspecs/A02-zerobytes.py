ID="A02-zerobytes"; PROPERTY="A02"
EDITS=[("arena/arena.hpp","addCleanup(element == nullptr ? ptr : element, cleanup)","addCleanup(element == nullptr || bytes == 0 ? ptr : element, cleanup)")]
NEEDS="a cleanup registered for an element of the caller together with an allocation of 0 bytes"
BREAKS="the cleanup gets the address of the allocation instead of the given element"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
static void* got = nullptr;
static void cb(void* p) { got = p; }
int main() {
    int mine = 0;
    {
        Arena a(Arena::Options::GetDefaultOptions());
        (void)a.AllocateAlignedAndAddCleanup(0, &cb, &mine);
    }
    return got == &mine ? 0 : 1;
}
'''
