ID='A03-keeplarger'; PROPERTY='A03'
EDITS=[('arena/arena.hpp','        while (curr != nullptr && curr->prev() != nullptr) {\n            prev = curr->prev();\n            _options.block_dealloc(curr);\n            curr = prev;\n        }\n        // reset the last_block_ to the first block\n        _last_block = curr;','        while (curr != nullptr && curr->prev() != nullptr) {\n            prev = curr->prev();\n            if (curr->size() == _options.normal_block_size && prev->prev() == nullptr && prev->size() < curr->size()) {\n                // keep the larger one of the last two\n                _options.block_dealloc(prev);\n                prev = new (curr) Block(curr->size(), nullptr);\n            } else {\n                _options.block_dealloc(curr);\n            }\n            curr = prev;\n        }\n        // reset the last_block_ to the first block\n        _last_block = curr;')]
NEEDS='a reset of an arena whose first block is smaller than the normal block size and whose second block is a normal one'
BREAKS='the second block is kept instead of the first one'
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static std::vector<void*> got, freed;
static void* al(size_t n) { got.push_back(malloc(n)); return got.back(); }
static void fr(void* p) { freed.push_back(p); free(p); }
int main() { auto o = Arena::Options::GetDefaultOptions(); o.block_alloc = &al; o.block_dealloc = &fr; o.suggested_init_block_size = 512; o.normal_block_size = 4096; { Arena a(o); for (int i = 0; i < 3; ++i) (void)a.AllocateAligned(2000); a.Reset(); if (freed.size() != got.size() - 1) return 1; for (void* p : freed) if (p == got[0]) return 2; } return 0; }
'''
