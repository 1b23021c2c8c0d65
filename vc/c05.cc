// C05: wake-up tracker.  Ghost state: what was put into the queue, and how many of this object's
// events are outstanding at an arbitrary fixed time T (`cnt`).
#include <iostream>
#include <stdexcept>
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "vc.h"
using namespace pm;
typedef radix_heap_queue<false> Queue;

struct Ghost {
    uint64_t pad;
    uint64_t n;            // events put into the queue during the call
    uint64_t data;         // the last one
    uint32_t time;
    uint8_t type;
    uint32_t T;            // arbitrary fixed time
    uint64_t cnt;          // outstanding events of this object at time T
};
static inline Ghost *G() { return (Ghost *)vc_ghost(); }

// contract of radix_heap_queue::enqueue (proved under C02): the event, unchanged, becomes outstanding
VC void contract_enqueue(Queue *q, FloodCheckEvent ev) {
    G()->n = G()->n + 1;
    G()->data = (uint64_t)(uintptr_t)ev.data_look_at_node;
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
    if (ev.time.value == G()->T)
        G()->cnt = G()->cnt + 1;
}
static inline bool near(uint32_t a, uint32_t b) { return (uint32_t)(a - b) != 0x80000000u; }
static inline bool not_after(uint32_t a, uint32_t b) { return (int32_t)(b - a) >= 0; }   // within half a cycle

// tracker invariant: a wanted wake-up has an outstanding event no later than the wanted time, and
// the event the tracker relies on really is in the queue
static inline bool inv(QueuedEventTracker *k) {
    bool i1 = !k->has_queued_time || k->queued_time.value != G()->T || G()->cnt >= 1;
    bool i2 = !k->has_desired_time || (k->has_queued_time && near(k->queued_time.value, k->desired_time.value) &&
                                       not_after(k->queued_time.value, k->desired_time.value));
    return i1 && i2;
}

VC void c05_set_desired_event(QueuedEventTracker *k, Queue *q, uint64_t data, uint32_t time, uint8_t type) {
    vc_assume(inv(k));
    vc_assume(G()->cnt < (1ull << 60));
    vc_assume(!k->has_queued_time || near(k->queued_time.value, time));
    bool oldq = k->has_queued_time;
    uint32_t oldt = k->queued_time.value;
    G()->n = 0;
    FloodCheckEvent ev((DetectorNode *)data, cyclic_time_int(time));
    ev.tentative_event_type = (FloodCheckEventType)type;
    vc_snapshot();
    vc_writes(&k->desired_time, sizeof(QueuedEventTracker));
    k->set_desired_event(ev, *q);
    bool need = !oldq || !not_after(oldt, time);
    vc_check(k->has_desired_time && k->desired_time.value == time, "the requested time is recorded as wanted");
    vc_check(G()->n == (need ? 1 : 0), "an event is queued exactly when none is outstanding early enough");
    vc_check(!need || (G()->data == data && G()->time == time && G()->type == type), "the queued event is the requested one");
    vc_check(k->has_queued_time && k->queued_time.value == (need ? time : oldt), "the tracker remembers its outstanding event");
    vc_check(inv(k), "wanted wake-up has an outstanding event no later than wanted");
    vc_frame("set_desired_event");
    vc_cover("reach");
}
VC void c05_set_no_desired_event(QueuedEventTracker *k, Queue *q) {
    vc_assume(inv(k));
    bool oldq = k->has_queued_time;
    uint32_t oldt = k->queued_time.value;
    G()->n = 0;
    vc_snapshot();
    vc_writes(&k->desired_time, sizeof(QueuedEventTracker));
    k->set_no_desired_event();
    vc_check(!k->has_desired_time, "nothing is wanted after withdrawal");
    vc_check(k->has_queued_time == oldq && (!oldq || k->queued_time.value == oldt), "the outstanding event is still tracked");
    vc_check(G()->n == 0, "withdrawal queues nothing");
    vc_check(inv(k), "tracker invariant after withdrawal");
    vc_frame("set_no_desired_event");
    vc_cover("reach");
}
// one of this object's outstanding events has just been handed out by the queue
VC void c05_dequeue_decision(QueuedEventTracker *k, Queue *q, uint64_t data, uint32_t time, uint8_t type) {
    vc_assume(inv(k));
    vc_assume(G()->cnt < (1ull << 60));
    if (time == G()->T) {
        vc_assume(G()->cnt >= 1);
        G()->cnt = G()->cnt - 1;
    }
    bool hq = k->has_queued_time, hd = k->has_desired_time;
    uint32_t qt = k->queued_time.value, dt = k->desired_time.value;
    G()->n = 0;
    FloodCheckEvent ev((DetectorNode *)data, cyclic_time_int(time));
    ev.tentative_event_type = (FloodCheckEventType)type;
    vc_snapshot();
    vc_writes(&k->desired_time, sizeof(QueuedEventTracker));
    bool r = k->dequeue_decision(ev, *q);
    bool mine = hq && qt == time;
    vc_check(r == (mine && hd && dt == time), "approved exactly when this is the tracked event and its time is the wanted time");
    vc_check(!r || !k->has_desired_time, "an approved wake-up is consumed: it cannot be approved twice");
    vc_check(r || k->has_desired_time == hd, "a rejected event does not lose the wanted wake-up");
    vc_check(!k->has_desired_time || k->desired_time.value == dt, "the wanted time is unchanged");
    bool requeue = mine && hd && dt != time;
    vc_check(G()->n == (requeue ? 1 : 0), "an event is put back exactly when a later one is wanted");
    vc_check(!requeue || (G()->data == data && G()->time == dt && G()->type == type), "it is put back unchanged at the wanted time");
    vc_check(mine || (k->has_queued_time == hq && (!hq || k->queued_time.value == qt)), "a stale event leaves the tracker alone");
    vc_check(inv(k), "wanted wake-up has an outstanding event no later than wanted");
    vc_frame("dequeue_decision");
    vc_cover("reach");
}
VC void c05_clear(QueuedEventTracker *k) {
    vc_snapshot();
    vc_writes(&k->desired_time, sizeof(QueuedEventTracker));
    k->clear();
    vc_check(!k->has_desired_time && !k->has_queued_time, "a cleared tracker wants nothing and tracks nothing");
    vc_check(k->desired_time.value == 0 && k->queued_time.value == 0, "a cleared tracker equals a new one");
    vc_check(inv(k), "tracker invariant after clear");
    vc_frame("clear");
    vc_cover("reach");
    QueuedEventTracker fresh;
    vc_check(!fresh.has_desired_time && !fresh.has_queued_time, "a new tracker wants nothing and tracks nothing");
    vc_check(fresh.desired_time.value == 0 && fresh.queued_time.value == 0, "a new tracker is idle");
}
