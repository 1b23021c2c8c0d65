// C15: object pools.  The pool is a template; its own code is instantiated here with a type whose construction and
// destruction are visible (the flooder and the matcher use it with GraphFillRegion and AltTreeNode).
#include "pymatching/sparse_blossom/arena.h"
#include "vc.h"
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
struct Ghost15 { u64 mallocs, size, fresh, made, made_at, destroyed, destroyed_at; };
static inline Ghost15 *gs() { return (Ghost15 *)vc_ghost(); }
struct Probe {
    u64 x, y;
    Probe() : x(5), y(6) { gs()->made = gs()->made + 1; gs()->made_at = U(this); }
    ~Probe() { gs()->destroyed = gs()->destroyed + 1; gs()->destroyed_at = U(this); }
};
typedef pm::Arena<Probe> Pool;
VC void *contract_malloc(u64 n) {
    gs()->mallocs = gs()->mallocs + 1;
    gs()->size = n;
    return (void *)gs()->fresh;
}
#define A Pool *p, u64 gi, u64 gj
// no object is available twice; available objects belong to the pool; no object belongs to the pool twice
// (vc_fn1(1, x): where x is available; vc_fn1(2, x): where x is listed as allocated)
VC bool c15_alloc__fmlOnce(A, u64 i) { return (i >= p->available.size()) | (vc_fn1(1, U(p->available[i])) == i); }
VC bool c15_alloc__fmlListed(A, u64 i) { return (i >= p->allocated.size()) | (vc_fn1(2, U(p->allocated[i])) == i); }
VC bool c15_alloc__fmlOwn(A, u64 i) {
    u64 k = vc_fn1(2, U(p->available[i]));
    return (i >= p->available.size()) | ((k < p->allocated.size()) & (U(p->allocated[k]) == U(p->available[i])));
}
VC bool c15_alloc__fmlFresh(A, u64 i) { return (i >= p->allocated.size()) | (U(p->allocated[i]) != gs()->fresh); }
static inline void alloc(A, bool construct) {
    Ghost15 *g = gs();
    g->mallocs = 0; g->made = 0; g->destroyed = 0;
    vc_assume_all("Once");
    vc_assume_all("Listed");
    vc_assume_all("Own");
    vc_assume_all("Fresh");
    vc_assume(g->fresh != 0);
    u64 n = p->available.size(), m = p->allocated.size();
    vc_assume((n < (1ull << 38)) & (m < (1ull << 38)));
    u64 top = U(p->available[n - 1]), av = U(p->available[gi]), al = U(p->allocated[gj]);
    vc_snapshot();
    Probe *r = construct ? p->alloc_default_constructed() : p->alloc_unconstructed();
    vc_check((n == 0) | (U(r) == top), "a returned object is reused first");
    vc_check((n == 0) | ((g->mallocs == 0) & (p->allocated.size() == m) & (p->available.size() == n - 1)), "no memory is requested while an object is available");
    vc_check((n != 0) | ((g->mallocs == 1) & (g->size >= sizeof(Probe)) & (U(r) == g->fresh) & (p->available.size() == 0)), "otherwise one new object is made");
    vc_check((n != 0) | ((p->allocated.size() == m + 1) & (U(p->allocated[m]) == U(r))), "and it belongs to the pool");
    vc_check((gj >= m) | (U(p->allocated[gj]) == al), "the pool keeps its other objects");
    vc_check((gi >= p->available.size()) | ((U(p->available[gi]) == av) & (U(p->available[gi]) != U(r))), "an object handed out is not available; all others still are");
    vc_check(g->destroyed == 0, "nothing is destroyed");
    vc_check(!construct || ((g->made == 1) & (g->made_at == U(r)) & (r->x == 5) & (r->y == 6)), "a constructed object is in its initial state");
    vc_check(construct || g->made == 0, "an unconstructed object is not constructed");
    vc_cover("reach");
    if (n == 0) vc_cover("new memory");
    else vc_cover("reused");
}
VC void c15_alloc_v0(A) { alloc(p, gi, gj, false); }
VC void c15_alloc_v1(A) { alloc(p, gi, gj, true); }
#undef A
#define A Pool *p, Probe *o, u64 gi, u64 gj
VC bool c15_del__fmlOnce(A, u64 i) { return (i >= p->available.size()) | ((vc_fn1(1, U(p->available[i])) == i) & (U(p->available[i]) != U(o))); }
VC void c15_del(A) {
    Ghost15 *g = gs();
    g->mallocs = 0; g->made = 0; g->destroyed = 0;
    vc_assume_all("Once");
    u64 n = p->available.size(), m = p->allocated.size();
    vc_assume((o != nullptr) & (n < (1ull << 38)) & (m < (1ull << 38)));
    u64 av = U(p->available[gi]), al = U(p->allocated[gj]);
    vc_snapshot();
    p->del(o);
    vc_check((g->destroyed == 1) & (g->destroyed_at == U(o)) & (g->made == 0), "the object is destroyed once");
    vc_check((p->available.size() == n + 1) & (U(p->available[n]) == U(o)), "and is available again");
    vc_check((gi >= n) | ((U(p->available[gi]) == av) & (av != U(o))), "once, like every other available object");
    vc_check((p->allocated.size() == m) & ((gj >= m) | (U(p->allocated[gj]) == al)), "the pool keeps its memory");
    vc_check(g->mallocs == 0, "no memory is requested");
    vc_cover("reach");
}
#undef A
