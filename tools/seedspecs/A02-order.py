ID="A02-order"; PROPERTY="A02"
EDITS=[("arena/arena.hpp","""        if (need_create_new_block(kCleanupNodeSize, kByteSize)) [[unlikely]] {
            Block* curr = newBlock(kCleanupNodeSize, _last_block);
            if (curr != nullptr) {
                _last_block = curr;
            } else {
                return false;
            }
        }
        _last_block->register_cleanup(obj, cleanup);""","""        Block* room = _last_block;
        while (room != nullptr && not room->has_enough_space(kCleanupNodeSize, kByteSize)) {
            // an older block may still have room for the node
            room = room->prev();
        }
        if (room == nullptr) [[unlikely]] {
            room = newBlock(kCleanupNodeSize, _last_block);
            if (room == nullptr) {
                return false;
            }
            _last_block = room;
        }
        room->register_cleanup(obj, cleanup);""")]
NEEDS="a full newest block that holds cleanups, an older block with room, and one more registration"
BREAKS="a cleanup that finds its room in an older block runs after ones registered before it"
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static std::vector<int> order;
static int ids[4] = {0, 1, 2, 3};
static void cb(void* p) { order.push_back(*static_cast<int*>(p)); }
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.suggested_init_block_size = 256;
    o.normal_block_size = 256;
    {
        Arena a(o);
        (void)a.AllocateAlignedAndAddCleanup(8, &cb, &ids[0]);
        (void)a.AllocateAligned(100);
        // a second block, filled to the end
        (void)a.AllocateAlignedAndAddCleanup(200, &cb, &ids[1]);
        while (a.SpaceRemains() > 0) (void)a.AllocateAligned(8);
        (void)a.AllocateAlignedAndAddCleanup(0, &cb, &ids[2]);
    }
    return order == std::vector<int>{2, 1, 0} ? 0 : 1;
}
'''
