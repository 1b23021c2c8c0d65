// C04: time-varying radii.  Abstract view of a Varying: the line  b + g*t  (g in {-1,0,+1}).
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "vc.h"
using pm::Varying;
typedef __int128 wide;

template <typename T>
static inline bool fits(wide x) {   // representable intercept / time
    wide lim = (wide)1 << (sizeof(T) * 8 - 3);
    return x >= -lim && x < lim;
}
template <typename T>
static inline wide line(T b, int g, T t) {
    return (wide)b + (g > 0 ? (wide)t : g < 0 ? -(wide)t : (wide)0);
}
// every query of v agrees with the line b + g*t
template <typename T>
static inline void is_line(Varying<T> v, wide b, int g, T t) {
    vc_check(v.y_intercept() == b, "y_intercept is the intercept");
    vc_check(v.is_growing() == (g > 0), "is_growing iff slope +1");
    vc_check(v.is_shrinking() == (g < 0), "is_shrinking iff slope -1");
    vc_check(v.is_frozen() == (g == 0), "is_frozen iff slope 0");
    vc_check(v.get_distance_at_time(t) == line<T>((T)b, g, t), "value at t is the line's value");
}
template <typename T>
static inline Varying<T> make(T b, int g) {
    return Varying<T>::from_base_and_growth(b, (int8_t)g);
}
static inline int slope(uint8_t s) {
    vc_assume(s < 3);
    return s == 0 ? 0 : s == 1 ? 1 : -1;
}

template <typename T>
static inline void construct(T b, uint8_t s, T t) {
    int g = slope(s);
    vc_assume(fits<T>(b) && fits<T>(t));
    Varying<T> v = make<T>(b, g);
    is_line<T>(v, b, g, t);
    if (g > 0) {
        vc_check(v.get_growing_distance_at_time(t) == line<T>(b, g, t), "growing value at t");
        vc_check(v.time_of_x_intercept() == -(wide)b, "zero crossing of a growing line");
        vc_check(v.time_of_x_intercept_for_growing() == -(wide)b, "zero crossing (growing fast path)");
    }
    if (g < 0) {
        vc_check(v.get_shrinking_distance_at_time(t) == line<T>(b, g, t), "shrinking value at t");
        vc_check(v.time_of_x_intercept() == (wide)b, "zero crossing of a shrinking line");
        vc_check(v.time_of_x_intercept_for_shrinking() == (wide)b, "zero crossing (shrinking fast path)");
    }
    Varying<T> z;
    is_line<T>(z, 0, 0, t);
    vc_cover("reach");
}
template <typename T>
static inline void frozen_no_crossing(T b) {
    vc_assume(fits<T>(b));
    Varying<T> v = Varying<T>::frozen(b);
    bool threw = false;
    try {
        v.time_of_x_intercept();
    } catch (...) {
        threw = true;
    }
    vc_check(threw, "a frozen radius has no zero crossing");
    bool threw2 = false;
    int8_t bad = (int8_t)vc_any_u8();
    vc_assume(bad != 0 && bad != 1 && bad != -1);
    try {
        Varying<T>::from_base_and_growth(b, bad);
    } catch (...) {
        threw2 = true;
    }
    vc_check(threw2, "only slopes -1, 0 and +1 are accepted");
    vc_cover("reach");
}
template <typename T>
static inline void named(T y, T at, T t) {
    vc_assume(fits<T>(y) && fits<T>(at) && fits<T>(t));
    is_line<T>(Varying<T>::frozen(y), y, 0, t);
    if (fits<T>((wide)y - at))
        is_line<T>(Varying<T>::growing_value_at_time(y, at), (wide)y - at, 1, t);
    if (fits<T>((wide)y + at))
        is_line<T>(Varying<T>::shrinking_value_at_time(y, at), (wide)y + at, -1, t);
    if (fits<T>(-(wide)at))
        is_line<T>(Varying<T>::growing_varying_with_zero_distance_at_time(at), -(wide)at, 1, t);
    vc_cover("reach");
}
// changing direction at time c keeps the value at c
template <typename T>
static inline void turn(T b, uint8_t s, T c, T t) {
    int g = slope(s);
    vc_assume(fits<T>(b) && fits<T>(c) && fits<T>(t));
    Varying<T> v = make<T>(b, g);
    wide d = line<T>(b, g, c);
    if (fits<T>(d - c))
        is_line<T>(v.then_growing_at_time(c), d - c, 1, t);
    if (fits<T>(d + c))
        is_line<T>(v.then_shrinking_at_time(c), d + c, -1, t);
    if (fits<T>(d))
        is_line<T>(v.then_frozen_at_time(c), d, 0, t);
    is_line<T>(v, b, g, t);
    vc_cover("reach");
}
template <typename T>
static inline void offset(T b, uint8_t s, T o, T t) {
    int g = slope(s);
    vc_assume(fits<T>(b) && fits<T>(o) && fits<T>(t));
    Varying<T> v = make<T>(b, g);
    if (fits<T>((wide)b + o)) {
        is_line<T>(v + o, (wide)b + o, g, t);
        Varying<T> w = v;
        w += o;
        is_line<T>(w, (wide)b + o, g, t);
    }
    if (fits<T>((wide)b - o)) {
        is_line<T>(v - o, (wide)b - o, g, t);
        Varying<T> w = v;
        w -= o;
        is_line<T>(w, (wide)b - o, g, t);
    }
    is_line<T>(v, b, g, t);
    vc_cover("reach");
}
template <typename T>
static inline void pair(T b1, uint8_t s1, T b2, uint8_t s2) {
    int g1 = slope(s1), g2 = slope(s2);
    vc_assume(fits<T>(b1) && fits<T>(b2));
    Varying<T> v = make<T>(b1, g1), w = make<T>(b2, g2);
    vc_check(v.colliding_with(w) == (g1 + g2 > 0), "colliding iff the sum of the lines increases");
    vc_check((v == w) == (b1 == b2 && g1 == g2), "equal iff the same line");
    vc_check((v != w) == !(b1 == b2 && g1 == g2), "unequal iff different lines");
    if (g1 >= 0 && g2 >= 0 && g1 + g2 == 1) {
        vc_check(v.time_of_x_intercept_when_added_to(w) == -(wide)b1 - b2, "sum with unit slope crosses zero there");
        vc_check(v.time_of_x_intercept_when_added_to_giving_unit_slope(w) == -(wide)b1 - b2, "unit-slope fast path");
    }
    if (g1 == 1 && g2 == 1) {
        wide x = v.time_of_x_intercept_when_added_to(w);
        wide r = -(wide)b1 - b2;
        // floor(r / 2): exact whenever the intercepts have even sum
        vc_check(2 * x <= r && r <= 2 * x + 1, "sum with slope two crosses zero there");
    }
    vc_cover("reach");
}
VC void c04_construct64(int64_t b, uint8_t s, int64_t t) { construct<int64_t>(b, s, t); }
VC void c04_construct32(int32_t b, uint8_t s, int32_t t) { construct<int32_t>(b, s, t); }
VC void c04_reject64(int64_t b) { frozen_no_crossing<int64_t>(b); }
VC void c04_reject32(int32_t b) { frozen_no_crossing<int32_t>(b); }
VC void c04_named64(int64_t y, int64_t at, int64_t t) { named<int64_t>(y, at, t); }
VC void c04_named32(int32_t y, int32_t at, int32_t t) { named<int32_t>(y, at, t); }
VC void c04_turn64(int64_t b, uint8_t s, int64_t c, int64_t t) { turn<int64_t>(b, s, c, t); }
VC void c04_turn32(int32_t b, uint8_t s, int32_t c, int32_t t) { turn<int32_t>(b, s, c, t); }
VC void c04_offset64(int64_t b, uint8_t s, int64_t o, int64_t t) { offset<int64_t>(b, s, o, t); }
VC void c04_offset32(int32_t b, uint8_t s, int32_t o, int32_t t) { offset<int32_t>(b, s, o, t); }
VC void c04_pair64(int64_t b1, uint8_t s1, int64_t b2, uint8_t s2) { pair<int64_t>(b1, s1, b2, s2); }
VC void c04_pair32(int32_t b1, uint8_t s1, int32_t b2, uint8_t s2) { pair<int32_t>(b1, s1, b2, s2); }
