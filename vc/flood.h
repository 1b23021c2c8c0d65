// Specification vocabulary for the flooder contracts (independent of the code's own helpers).
#pragma once
#include <iostream>
#include <stdexcept>
#include <utility>
#include "pymatching/sparse_blossom/flooder/graph_flooder.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
#include "vc.h"
using namespace pm;
typedef radix_heap_queue<false> Queue;
// the line  value(t) = base + slope * t  that a radius represents
static inline int64_t base(int64_t d) { return d >> 2; }
static inline bool grows(int64_t d) { return (d & 3) == 1; }
static inline bool shrinks(int64_t d) { return (d & 3) == 2; }
static inline bool still(int64_t d) { return (d & 3) == 0; }
static inline bool legal(int64_t d) { return (d & 3) != 3; }
static inline bool fits(int64_t x) { return (x > -(1ll << 58)) & (x < (1ll << 58)); }
// the radius of the region at a node, past that node
static inline bool n_empty(const DetectorNode *n) { return n->region_that_arrived_top == nullptr; }
static inline int64_t n_data(const DetectorNode *n) { return n->region_that_arrived_top->radius.data; }
static inline bool n_grows(const DetectorNode *n) { return !n_empty(n) & grows(n_data(n)); }
static inline bool n_shrinks(const DetectorNode *n) { return !n_empty(n) & shrinks(n_data(n)); }
// (adding an offset to a line in its packed form: proved exact under C04 and, for this use, by c06_local_radius)
static inline int64_t n_base(const DetectorNode *n) { return vc_sel(n_empty(n), 0, base(n_data(n) + (n->wrapped_radius_cached << 2))); }
static inline int64_t n_base_plain(const DetectorNode *n) { return vc_sel(n_empty(n), 0, base(n_data(n)) + n->wrapped_radius_cached); }
// bounds: stated for the packed sum (implied by bounds on its two terms: c06_local_radius)
static inline bool n_ok_plain(const DetectorNode *n) {
    return n_empty(n) | (legal(n_data(n)) & fits(base(n_data(n))) & fits(n->wrapped_radius_cached));
}
static inline bool n_ok(const DetectorNode *n) {
    int64_t b = base(n_data(n) + (n->wrapped_radius_cached << 2));
    return n_empty(n) | (legal(n_data(n)) & (b > -(1ll << 60)) & (b < (1ll << 60)));
}
struct Ghost {
    uint64_t pad;
    uint64_t n;            // events put into the queue
    uint64_t data;         // the last one
    uint32_t time;
    uint8_t type;
    uint64_t idx;          // result of a callee contract
    int64_t when;
    uint64_t calls, node, node2, k, region;
    uint64_t child, kids;  // recursive calls on an arbitrary child
    int64_t rad;           // radius seen by a callee
    uint64_t pending;
};
static inline Ghost *G() { return (Ghost *)vc_ghost(); }
