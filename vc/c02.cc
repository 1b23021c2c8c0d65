// C02: radix heap queue.  Contracts over the real enqueue / dequeue / clear / reset.
// Harness arguments after the queue are specification variables (arbitrary, fixed):
//   (gb, gk)  an arbitrary queued event;  gs  the first non-empty bucket;  gm  the position of the
//   smallest time in that bucket.  Their existence for a non-empty queue is elementary.
#include <iostream>
#include <stdexcept>
#include <utility>
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
#include "vc.h"
using namespace pm;
typedef radix_heap_queue<false> Queue;
#define NB 33

template <size_t... I>
static inline uint64_t sum_(const Queue *q, std::index_sequence<I...>) {
    return (0ull + ... + (uint64_t)q->bit_buckets[I].size());
}
static inline uint64_t sum(const Queue *q) { return sum_(q, std::make_index_sequence<NB>()); }
// (only steers the search for an example of the precondition)
template <size_t... I>
static inline bool lens1_(const Queue *q, std::index_sequence<I...>) {
    return (true & ... & (q->bit_buckets[I].size() == (I == 0 ? 1 : 0)));
}
static inline bool lens1(const Queue *q) { return lens1_(q, std::make_index_sequence<NB>()) & (q->_num_enqueued == 1) & (q->cur_time == 0); }
template <size_t... I>
static inline bool none_(const Queue *q, std::index_sequence<I...>) {
    return (true & ... & (q->bit_buckets[I].size() == 0));
}
static inline bool none(const Queue *q) { return none_(q, std::make_index_sequence<NB>()); }
static inline uint64_t len(const Queue *q, uint64_t b) { return q->bit_buckets._M_elems[b].size(); }
static inline const FloodCheckEvent &at(const Queue *q, uint64_t b, uint64_t k) { return q->bit_buckets._M_elems[b][k]; }
static inline uint32_t tm(const Queue *q, uint64_t b, uint64_t k) { return at(q, b, k).time.value; }
static inline uint32_t now(const Queue *q) { return (uint32_t)q->cur_time; }
static inline uint32_t ahead(const Queue *q, uint32_t t) { return t - now(q); }
// t sits in bucket b: b is the number of significant bits of t xor now
static inline bool in_bucket(uint32_t t, uint32_t c, uint64_t b) {
    uint64_t x = t ^ c;
    return b <= 32 && ((x >> b) == 0) & ((b == 0) | ((x >> ((b - 1) & 63)) == 1));
}
static inline bool placed(const Queue *q, uint64_t b, uint64_t k) {
    return in_bucket(tm(q, b, k), now(q), b) & (ahead(q, tm(q, b, k)) < 0x80000000u);
}
// queue invariant: every event is in the bucket of its time and not before the present
static inline bool ok(const Queue *q, uint64_t b, uint64_t k) {
    return (b >= NB) | (k >= len(q, b)) | placed(q, b, k);
}
static inline bool same_event(const FloodCheckEvent &e, uint64_t data, uint32_t time, uint8_t type) {
    return ((uint64_t)(uintptr_t)e.data_look_at_node == data) & (e.time.value == time) & ((uint8_t)e.tentative_event_type == type);
}
struct Ev { uint64_t d; uint32_t t; uint8_t y; };
#define OLD_EVENT(q, gb, gk)                                                          \
    vc_old(true);                                                                     \
    uint64_t d0 = (uint64_t)(uintptr_t)at(q, gb, gk).data_look_at_node;               \
    uint32_t t0 = at(q, gb, gk).time.value;                                           \
    uint8_t y0 = (uint8_t)at(q, gb, gk).tentative_event_type;                         \
    vc_old(false);

// ---------------------------------------------------------------- enqueue
VC bool c02_enqueue__fmlOk(Queue *q, uint64_t, uint64_t, uint64_t, uint32_t, uint8_t, uint64_t b, uint64_t k) { return ok(q, b, k); }
VC bool c02_enqueue__fmlAbsent(Queue *q, uint64_t, uint64_t, uint64_t data, uint32_t time, uint8_t type, uint64_t b, uint64_t k) {
    return (b >= NB) | (k >= len(q, b)) | !same_event(at(q, b, k), data, time, type);
}
VC void c02_enqueue(Queue *q, uint64_t gb, uint64_t gk, uint64_t data, uint32_t time, uint8_t type) {
    vc_assume_all("Ok");
    vc_hint(lens1(q));
    vc_assume(sum(q) == q->_num_enqueued);
    vc_assume(gb < NB);
    uint64_t n = q->_num_enqueued, l = len(q, gb);
    int64_t cur = q->cur_time;
    vc_assume(ahead(q, time) < 0x80000000u);    // not cycle-before the present
    uint64_t d0 = 0; uint32_t t0 = 0; uint8_t y0 = 0;
    if (gk < l) {
        d0 = (uint64_t)(uintptr_t)at(q, gb, gk).data_look_at_node;
        t0 = tm(q, gb, gk);
        y0 = (uint8_t)at(q, gb, gk).tentative_event_type;
    }
    FloodCheckEvent ev((DetectorNode *)data, cyclic_time_int(time));
    ev.tentative_event_type = (FloodCheckEventType)type;
    vc_snapshot();
    vc_writes(&q->bit_buckets, sizeof(q->bit_buckets));
    vc_writes(&q->_num_enqueued, 8);
    q->enqueue(ev);
    vc_check(q->_num_enqueued == n + 1, "enqueue adds one event");
    vc_check(q->cur_time == cur, "enqueue leaves the present alone");
    vc_check(gk >= l || (len(q, gb) > gk && same_event(at(q, gb, gk), d0, t0, y0)), "events already queued stay, unchanged");
    vc_check(!vc_all("Absent"), "the event is in the queue, unchanged");
    vc_check_all("Ok", "every event is in the bucket of its time and not before the present");
    vc_check(sum(q) == q->_num_enqueued, "the size is the number of events held");
    vc_cover("reach");
}

// ---------------------------------------------------------------- dequeue: three cases of one contract
#define CAT_(a, b) a##b
#define CAT2(a, b) CAT_(a, b)
#define CASE (gs == 0)
#define DQ c02_dequeue_due
#include "c02_dequeue.inc"
#undef CASE
#undef DQ
#define CASE (gs == 1)
#define DQ c02_dequeue_next
#include "c02_dequeue.inc"
#undef CASE
#undef DQ
#define CASE (gs >= 2)
#define DQ c02_dequeue_later
#include "c02_dequeue.inc"
VC void c02_dequeue_empty(Queue *q) {
    vc_assume(q->_num_enqueued == 0);
    vc_snapshot();
    FloodCheckEvent r = q->dequeue();
    vc_check(r.tentative_event_type == NO_FLOOD_CHECK_EVENT, "an empty queue hands out no event");
    vc_frame("dequeue of an empty queue");
    vc_cover("reach");
}
// ---------------------------------------------------------------- clear / reset / size
VC bool c02_clear__invBelow(Queue *q, uint64_t b) {
    return [&]<size_t... I>(std::index_sequence<I...>) { return (true & ... & ((I >= b) | (q->bit_buckets[I].size() == 0))); }(std::make_index_sequence<NB>());
}
VC bool c02_clear__invSum(Queue *q) { return (sum(q) == q->_num_enqueued); }
VC void c02_clear(Queue *q) {
    vc_assume(sum(q) == q->_num_enqueued);
    vc_snapshot();
    vc_writes(&q->bit_buckets, sizeof(q->bit_buckets));
    vc_writes(&q->_num_enqueued, 8);
    q->clear();
    vc_check(q->_num_enqueued == 0, "a cleared queue has size zero");
    vc_check(none(q), "a cleared queue holds no event");
    vc_frame("clear");
    vc_cover("reach");
}
VC bool c02_reset__invBelow(Queue *q, uint64_t b) { return c02_clear__invBelow(q, b); }
VC bool c02_reset__invSum(Queue *q) { return (sum(q) == q->_num_enqueued); }
VC void c02_reset(Queue *q) {
    vc_assume(sum(q) == q->_num_enqueued);
    vc_snapshot();
    vc_writes(&q->bit_buckets, sizeof(q->bit_buckets));
    vc_writes(&q->_num_enqueued, 8);
    vc_writes(&q->cur_time, 8);
    q->reset();
    vc_check(q->_num_enqueued == 0 && none(q) && q->cur_time == 0, "a reset queue equals a new one");
    vc_frame("reset");
    vc_cover("reach");
}
VC void c02_size(Queue *q) {
    vc_snapshot();
    vc_check(q->size() == q->_num_enqueued, "size is the number of queued events");
    vc_check(q->empty() == (q->_num_enqueued == 0), "empty exactly when the size is zero");
    vc_frame("size");
    vc_cover("reach");
}
