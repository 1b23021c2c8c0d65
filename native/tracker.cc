// C05: histories of request / withdraw / hand-out on several trackers sharing one queue.
#include "common.h"
#include <array>
#include <bit>
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
using namespace pm;
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        radix_heap_queue<false> q;
        int64_t cur = r.pick<int64_t>({0, 0, 5, (1ll << 31) - 3, (1ll << 32) - 9, (3ll << 31) - 2, (int64_t)(r.next() >> 10)});
        q.cur_time = cur;
        const int K = 3;
        struct M { bool w = false; int64_t want = 0; bool hq = false; int64_t qt = 0; } m[K];
        QueuedEventTracker tr[K];
        int k_used = r.range(1, K), span = r.pick({3, 6, 40, 1 << 20, 1 << 29});
        std::stringstream s;
        s << "trackers sharing a queue, current time " << cur << "\n";
        set_case(s.str());
        n_cases++;
        n_nontrivial++;
        auto handout = [&]() {
            size_t before = q.size();
            auto e = q.dequeue();
            int k = (int)((uint64_t)e.data_look_at_node / 64 - 1);
            int64_t t = q.cur_time;
            cur = t;
            if (k < 0 || k >= K) fail("the queue handed out an unknown event");
            add_case("hand-out of object " + std::to_string(k) + " at " + std::to_string(t) + "\n");
            bool a = tr[k].dequeue_decision(e, q);
            bool mine = m[k].hq && m[k].qt == t;
            bool expect = mine && m[k].w && m[k].want == t;
            if (a != expect) fail(a ? "a stale, withdrawn or superseded wake-up was approved" : "a wanted wake-up was rejected at its time");
            bool put_back = mine && m[k].w && m[k].want != t;
            if (q.size() != before - 1 + (put_back ? 1 : 0)) fail("a rejected event was put back needlessly, or not put back");
            if (mine) m[k].hq = false;
            if (put_back) m[k].hq = true, m[k].qt = m[k].want;
            if (a) m[k].w = false;
        };
        int len = r.pick({6, 20, 60});
        for (int i = 0; i < len; i++) {
            int k = r.below(k_used), op = r.below(100);
            if (op < 50) {
                int64_t t = cur + r.below(span);
                add_case("request object " + std::to_string(k) + " at " + std::to_string(t) + "\n");
                size_t before = q.size();
                FloodCheckEvent e{cyclic_time_int{t}};
                e.data_look_at_node = (DetectorNode *)(uint64_t)(64 * (k + 1));
                e.tentative_event_type = LOOK_AT_NODE;
                tr[k].set_desired_event(e, q);
                bool need = !m[k].hq || m[k].qt > t;
                if (q.size() != before + (need ? 1 : 0)) fail(need ? "no event was queued for a requested wake-up" : "an unneeded event was queued");
                if (need) m[k].hq = true, m[k].qt = t;
                m[k].w = true;
                m[k].want = t;
            } else if (op < 62) {
                add_case("withdraw object " + std::to_string(k) + "\n");
                size_t before = q.size();
                tr[k].set_no_desired_event();
                m[k].w = false;
                if (q.size() != before) fail("withdrawing changed the queue");
            } else if (op < 64) {
                add_case("clear everything\n");
                q.clear();
                for (int j = 0; j < K; j++) {
                    tr[j].clear();
                    m[j] = M();
                }
            } else if (!q.empty())
                handout();
        }
        while (!q.empty()) handout();
        for (auto &x : m)
            if (x.w) fail("a wanted wake-up was lost: the queue is empty and it was never approved");
    }
    return run.done();
}
