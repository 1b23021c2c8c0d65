// Runs the contracts of /verif/vc natively on concrete arguments (search for / replay of failing
// inputs).  The generated driver includes this, the contract file, and a table of contracts.
#include <csetjmp>
#include "common.h"
static Rng *g_rng;
static jmp_buf g_jmp;
static uint64_t special(Rng &r, int bits) {
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    uint64_t v;
    switch (r.below(6)) {
        case 0: v = r.below(5) - 2; break;
        case 1: v = (1ull << r.below(bits)) + r.below(5) - 2; break;
        case 2: v = (m >> r.below(4)) + r.below(5) - 2; break;
        case 3: v = r.next() >> r.below(64); break;
        case 4: v = -(r.next() >> r.below(64)); break;
        default: v = r.next();
    }
    return v & m;
}
extern "C" {
void vc_assume(bool c) { if (!c) longjmp(g_jmp, 1); }
void vc_check(bool c, const char *l) { if (!c) fail(std::string("contract clause does not hold: ") + l); }
void vc_cover(const char *) { n_nontrivial++; }
void vc_old(bool) {}
void vc_snapshot() {}
void vc_writes(const void *, size_t) {}
void vc_frame(const char *) {}
uint64_t vc_any_u64() { return special(*g_rng, 64); }
uint32_t vc_any_u32() { return (uint32_t)special(*g_rng, 32); }
uint8_t vc_any_u8() { return (uint8_t)special(*g_rng, 8); }
bool vc_any_bool() { return g_rng->below(2); }
}
struct Entry { const char *name; int n; int bits[8]; void (*call)(uint64_t *); };
static int fuzz_main(int argc, char **argv, std::vector<Entry> tab) {
    Run run(argc, argv);
    g_rng = &run.rng;
    volatile uint64_t it = 0;
    while (run.more()) {
        for (volatile int rep = 0; rep < 2000; rep++) {
            it++;
            Entry &e = tab[it % tab.size()];
            uint64_t a[8] = {};
            for (int i = 0; i < e.n; i++) {
                a[i] = special(run.rng, e.bits[i]);
                if (i && run.rng.chance(30)) a[i] = a[run.rng.below(i)] + run.rng.below(5) - 2;   // related arguments
                if (e.bits[i] < 64) a[i] &= (1ull << e.bits[i]) - 1;
                if (e.bits[i] == 8 && run.rng.chance(70)) a[i] = run.rng.below(4);
            }
            case_len = snprintf(case_buf, sizeof case_buf, "%s(", e.name);
            for (int i = 0; i < e.n; i++)
                case_len += snprintf(case_buf + case_len, 64, "%s%llu", i ? ", " : "", (unsigned long long)a[i]);
            case_len += snprintf(case_buf + case_len, 8, ")");
            n_cases++;
            if (!setjmp(g_jmp)) e.call(a);
        }
    }
    return run.done();
}
