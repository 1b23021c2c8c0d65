// C02: histories of enqueue / dequeue / clear / reset against a multiset of true (unwrapped) times.
#include "common.h"
#include <array>
#include <bit>
#include <iostream>
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
using namespace pm;
struct It {
    int64_t t;
    uint64_t d;
    int ty;
    bool operator<(const It &o) const { return std::tie(t, d, ty) < std::tie(o.t, o.d, o.ty); }
};
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        radix_heap_queue<false> q;
        std::multiset<It> m;
        int64_t cur = r.pick<int64_t>({0, 0, 17, (1ll << 31) - 3, (1ll << 32) - 5, (3ll << 31) - 2, 5ll << 32, (1ll << 40) + 123456789, (int64_t)(r.next() >> 10)});
        q.cur_time = cur;
        std::stringstream s;
        s << "queue with current time " << cur << "\n";
        set_case(s.str());
        int len = r.pick({5, 20, 60, 200});
        int spread = r.below(6);
        n_cases++;
        if (len > 10) n_nontrivial++;
        for (int k = 0; k < len; k++) {
            int op = r.below(100);
            if (op < 55) {
                int64_t dt = spread == 0 ? r.below(4) : spread == 1 ? r.below(100) : spread == 2 ? (int64_t)r.below(1ull << 31) : spread == 3 ? (1ll << r.below(31)) : spread == 4 ? (r.chance(50) ? 0 : (1ll << 31) - 1 - r.below(3)) : (int64_t)(r.next() >> (33 + r.below(30)));
                int64_t t = cur + dt;
                uint64_t d = r.below(20) * 8 + 4096;
                int ty = r.chance(50) ? LOOK_AT_NODE : LOOK_AT_SHRINKING_REGION;
                FloodCheckEvent e{cyclic_time_int{t}};
                e.data_look_at_node = (DetectorNode *)d;
                e.tentative_event_type = (FloodCheckEventType)ty;
                add_case("enqueue time " + std::to_string(t) + " data " + std::to_string(d) + " type " + std::to_string(ty) + "\n");
                q.enqueue(e);
                m.insert({t, d, ty});
            } else if (op < 95) {
                add_case("dequeue\n");
                auto e = q.dequeue();
                if (m.empty()) {
                    if (e.tentative_event_type != NO_FLOOD_CHECK_EVENT) fail("an empty queue handed out an event");
                    if (q.cur_time != cur) fail("dequeueing from an empty queue moved the current time");
                } else {
                    int64_t t = m.begin()->t;
                    auto it = m.find({t, (uint64_t)e.data_look_at_node, (int)e.tentative_event_type});
                    if (it == m.end()) fail("the queue handed out an event that is not one of the earliest outstanding ones");
                    if (e.time.value != (uint32_t)t) fail("the time of the event changed inside the queue");
                    if (q.cur_time != t) fail("current time " + std::to_string(q.cur_time) + " is not the time of the event handed out, " + std::to_string(t));
                    cur = t;
                    m.erase(it);
                }
            } else if (op < 98) {
                add_case("clear\n");
                q.clear();
                m.clear();
                for (auto &b : q.bit_buckets)
                    if (!b.empty()) fail("events remain after clear");
            } else {
                add_case("reset\n");
                q.reset();
                m.clear();
                for (auto &b : q.bit_buckets)
                    if (!b.empty()) fail("events remain after reset");
                if (q.cur_time != 0) fail("time is not zero after a reset");
            }
            cur = q.cur_time;
            if (q.size() != m.size() || q.empty() != m.empty()) fail("size or emptiness is wrong");
        }
        while (!m.empty()) {
            add_case("dequeue\n");
            auto e = q.dequeue();
            int64_t t = m.begin()->t;
            auto it = m.find({t, (uint64_t)e.data_look_at_node, (int)e.tentative_event_type});
            if (it == m.end() || e.time.value != (uint32_t)t) fail("draining: not one of the earliest outstanding events");
            m.erase(it);
        }
        if (!q.empty() || q.dequeue().tentative_event_type != NO_FLOOD_CHECK_EVENT) fail("the drained queue is not empty");
    }
    return run.done();
}
