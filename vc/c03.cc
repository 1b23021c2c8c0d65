// C03: cyclic time
#include "pymatching/sparse_blossom/tracker/cyclic.h"
#include "vc.h"
using pm::cyclic;

// a and b are "true times"; the readings are their low bits.  The distance is under half a cycle.
template <typename T>
static inline void compare(uint64_t a, int64_t d) {
    constexpr uint64_t half = (uint64_t)1 << (sizeof(T) * 8 - 1);
    // |d| < half
    vc_assume((d >= 0 && (uint64_t)d < half) || (d < 0 && (uint64_t)(-(d + 1)) < half - 1));
    cyclic<T> x{(T)a}, y{(T)(a + (uint64_t)d)};
    vc_check((x < y) == (d > 0), "x<y agrees with true times");
    vc_check((x > y) == (d < 0), "x>y agrees with true times");
    vc_check((x <= y) == (d >= 0), "x<=y agrees with true times");
    vc_check((x >= y) == (d <= 0), "x>=y agrees with true times");
    vc_check((x == y) == (d == 0), "x==y agrees with true times");
    vc_check((x != y) == (d != 0), "x!=y agrees with true times");
    vc_check((x == y.value) == (d == 0), "x==raw agrees with true times");
    vc_check((x != y.value) == (d != 0), "x!=raw agrees with true times");
    vc_check((int)(x < y) + (int)(x > y) + (int)(x == y) == 1, "exactly one of before/equal/after");
    vc_cover("reach");
}
template <typename T>
static inline void arith(uint64_t a, uint64_t b) {
    cyclic<T> x{(T)a}, y{(T)b};
    vc_check((x + y).value == (T)(a + b), "sum modulo the cycle");
    vc_check((x - y).value == (T)(a - b), "difference modulo the cycle");
    cyclic<T> z = x;
    z += b;
    vc_check(z.value == (T)(a + b), "+= modulo the cycle");
    z = x;
    z -= b;
    vc_check(z.value == (T)(a - b), "-= modulo the cycle");
    z = x;
    auto r = ++z;
    vc_check(z.value == (T)(a + 1) && r.value == (T)(a + 1), "pre-increment");
    z = x;
    auto r2 = z++;
    vc_check(z.value == (T)(a + 1) && r2.value == (T)a, "post-increment");
    z = x;
    auto r3 = --z;
    vc_check(z.value == (T)(a - 1) && r3.value == (T)(a - 1), "pre-decrement");
    z = x;
    auto r4 = z--;
    vc_check(z.value == (T)(a - 1) && r4.value == (T)a, "post-decrement");
    cyclic<T> dflt;
    vc_check(dflt.value == 0, "default reading is zero");
    vc_cover("reach");
}
// widening: the unique time within half a cycle whose low bits equal the reading
template <typename T>
static inline void widen(T reading, int64_t ref) {
    constexpr int64_t half = (int64_t)1 << (sizeof(T) * 8 - 1);
    vc_assume(ref > INT64_MIN + 2 * half && ref < INT64_MAX - 2 * half);
    vc_assume((T)(reading - (T)ref) != (T)half);   // exactly half a cycle away is ambiguous
    int64_t r = cyclic<T>{reading}.template widen_from_nearby_reference<int64_t>(ref);
    vc_check((T)r == reading, "widened low bits equal the reading");
    vc_check(r - ref < half && ref - r < half, "widened time within half a cycle of the reference");
    vc_cover("reach");
}
template <typename T>
static inline void widen64(T reading, int64_t ref) {
    vc_assume((T)(reading - (T)ref) != (T)((T)1 << (sizeof(T) * 8 - 1)));
    int64_t r = cyclic<T>{reading}.template widen_from_nearby_reference<int64_t>(ref);
    vc_check((T)r == reading, "widened low bits equal the reading");
    vc_cover("reach");
}
VC void c03_cmp8(uint64_t a, int64_t d) { compare<uint8_t>(a, d); }
VC void c03_cmp16(uint64_t a, int64_t d) { compare<uint16_t>(a, d); }
VC void c03_cmp32(uint64_t a, int64_t d) { compare<uint32_t>(a, d); }
VC void c03_cmp64(uint64_t a, int64_t d) { compare<uint64_t>(a, d); }
VC void c03_arith8(uint64_t a, uint64_t b) { arith<uint8_t>(a, b); }
VC void c03_arith16(uint64_t a, uint64_t b) { arith<uint16_t>(a, b); }
VC void c03_arith32(uint64_t a, uint64_t b) { arith<uint32_t>(a, b); }
VC void c03_arith64(uint64_t a, uint64_t b) { arith<uint64_t>(a, b); }
VC void c03_widen8(uint8_t reading, int64_t ref) { widen<uint8_t>(reading, ref); }
VC void c03_widen16(uint16_t reading, int64_t ref) { widen<uint16_t>(reading, ref); }
VC void c03_widen32(uint32_t reading, int64_t ref) { widen<uint32_t>(reading, ref); }
VC void c03_widen64(uint64_t reading, int64_t ref) { widen64<uint64_t>(reading, ref); }
