ID="A07-forward"; PROPERTY="A07"
EDITS=[("arena/arena.hpp","            return new (ptr) T(arena, std::forward<Args>(args)...);","            return new (ptr) T(arena, args...);")]
NEEDS="a type constructed from the arena and a movable argument that is passed as an rvalue"
BREAKS="arguments of types which take the arena are copied instead of moved into the object (move-only arguments do not work at all)"
DEMO=r'''
#include "arena/arena.hpp"
#include <string>
using namespace stdb::memory;
struct T {
    ArenaFullManagedTag;
    Arena* arena; int copies;
    struct X { int copies = 0; X() = default; X(const X& o) : copies(o.copies + 1) {} X(X&& o) : copies(o.copies) {} };
    X x;
    T(Arena& a, X v) : arena(&a), copies(v.copies), x(std::move(v)) {}
};
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    Arena a(o);
    T* t = a.Create<T>(T::X{});
    return t->arena == &a && t->copies == 0 ? 0 : 1;
}
'''
