// C15: histories of pool operations with instrumented objects and allocations.
#include "common.h"
#include <unordered_map>
#include <unordered_set>
static std::unordered_map<void *, int> blocks;   // address -> live
static uint64_t mallocs = 0;
static void *t_malloc(size_t n) { void *p = ::malloc(n); memset(p, 0xA5, n); blocks[p] = 1; mallocs++; return p; }
static void t_free(void *p) {
    if (!p) return;
    auto it = blocks.find(p);
    if (it == blocks.end()) fail("memory that was not allocated by the pool, or freed before, is freed");
    blocks.erase(it);
    ::free(p);
}
#define malloc t_malloc
#define free t_free
#include "pymatching/sparse_blossom/arena.h"
#undef malloc
#undef free
static std::unordered_set<void *> live;
struct Obj {
    uint64_t a, b;
    std::vector<int> v;
    Obj() : a(0), b(7) { if (!live.insert(this).second) fail("an object in use is constructed again"); }
    ~Obj() { if (!live.erase(this)) fail("an object that is not in use is destroyed"); }
};
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        n_cases++;
        set_case("");
        uint64_t m0 = mallocs;
        {
            std::set<Obj *> used;
            size_t peak = 0;
            auto *ar = new pm::Arena<Obj>();
            int ops = r.below(60), bias = r.pick({50, 70, 90, 30});
            if (ops > 10) n_nontrivial++;
            for (int k = 0; k < ops; k++) {
                if (r.chance(bias) || used.empty()) {
                    bool raw = r.chance(40);
                    add_case(raw ? "alloc_unconstructed\n" : "alloc_default_constructed\n");
                    Obj *p = raw ? ar->alloc_unconstructed() : ar->alloc_default_constructed();
                    if (raw) new (p) Obj();
                    if (!used.insert(p).second) fail("an object still in use was handed out again");
                    if (!blocks.count(p)) fail("the object handed out is not live memory of the pool");
                    if (!live.count(p)) fail("the object handed out is not constructed");
                    if (p->a != 0 || p->b != 7 || !p->v.empty()) fail("the object handed out is not in its initial state");
                    p->a = r.next();
                    p->b = k;
                    p->v.assign(r.below(4), 3);
                    peak = std::max(peak, used.size());
                    if (mallocs - m0 > peak) fail("new memory was requested although a returned object was available");
                } else {
                    auto it = used.begin();
                    std::advance(it, r.below(used.size()));
                    add_case("del\n");
                    Obj *p = *it;
                    used.erase(it);
                    ar->del(p);
                    if (live.count(p)) fail("a returned object was not destroyed");
                }
                for (auto *p : used) if (!live.count(p) || !blocks.count(p)) fail("an object in use was destroyed or freed");
                if (ar->allocated.size() != mallocs - m0 || ar->allocated.size() - ar->available.size() != used.size()) fail("the pool miscounts the objects in use");
                if (r.chance(3)) {   // move the pool
                    add_case("move\n");
                    auto *a2 = new pm::Arena<Obj>(std::move(*ar));
                    if (r.chance(50)) {   // the pool that was moved from owns nothing any more
                        add_case("use the pool that was moved from\n");
                        uint64_t before = mallocs;
                        Obj *p = ar->alloc_default_constructed();
                        if (used.count(p)) fail("an object still in use was handed out again");
                        if (mallocs == before) fail("a pool that was moved from hands out an object of another pool");
                        m0++;
                    }
                    delete ar;
                    ar = a2;
                    for (auto *p : used) if (!live.count(p) || !blocks.count(p)) fail("moving the pool destroyed an object in use");
                }
            }
            if (r.chance(30)) {   // a decoder reset destroys its pools in place and goes on using them
                add_case("destroy pool in place, then use it again\n");
                ar->~Arena();
                used.clear();
                if (!live.empty()) fail("an object still in use was not destroyed with the pool");
                if (!blocks.empty()) fail("an allocation of the pool was not freed");
                for (int k = r.below(4); k > 0; k--) {
                    Obj *p = ar->alloc_default_constructed();
                    if (!used.insert(p).second) fail("an object still in use was handed out again");
                    if (!blocks.count(p)) fail("the object handed out is not live memory of the pool");
                }
            }
            add_case("destroy pool\n");
            delete ar;
            if (!live.empty()) fail("an object still in use was not destroyed with the pool");
            if (!blocks.empty()) fail("an allocation of the pool was not freed");
        }
    }
    return run.done();
}
