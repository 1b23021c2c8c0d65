// ---------------------------------------------------------------- dequeue
VC bool CAT2(DQ, __fmlOk)(Queue *q, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t b, uint64_t k) { return ok(q, b, k); }
VC bool CAT2(DQ, __fmlFirst)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t b) { return (b >= gs) | (b >= NB) | (len(q, b) == 0); }
VC bool CAT2(DQ, __fmlMin)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t k) { return (k >= len(q, gs)) | (tm(q, gs, k) >= tm(q, gs, gm)); }
VC bool CAT2(DQ, __fmlAbsent)(Queue *q, uint64_t gb, uint64_t gk, uint64_t, uint64_t, uint64_t b, uint64_t k) {
    OLD_EVENT(q, gb, gk);
    return (b >= NB) | (k >= len(q, b)) | !same_event(at(q, b, k), d0, t0, y0);
}
VC bool CAT2(DQ, __fmlAbsentBelow)(Queue *q, uint64_t gb, uint64_t gk, uint64_t gs, uint64_t, uint64_t b, uint64_t k) {
    OLD_EVENT(q, gb, gk);
    return (b >= gs) | (k >= len(q, b)) | !same_event(at(q, b, k), d0, t0, y0);
}
// first loop
VC bool CAT2(DQ, __invFirst)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t, uint64_t b) { return b <= gs; }
// minimum loop (m: minimum so far, k: position)
VC bool CAT2(DQ, __invMin1)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t m) {
    return ((m >> 32) == 0) & (m >= tm(q, gs, gm)) & in_bucket((uint32_t)m, now(q), gs);
}
VC bool CAT2(DQ, __invMin2)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t m, uint64_t k) {
    return (k <= gm) | (m <= tm(q, gs, gm));
}
// redistribution loop (i: position in the source bucket)
VC bool CAT2(DQ, __invSum)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t i) { return sum(q) == q->_num_enqueued + i; }
VC bool CAT2(DQ, __invZero)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t i) { return (i <= gm) | (len(q, 0) > 0); }
VC bool CAT2(DQ, __allOkOther)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t b, uint64_t k) { return (b == gs) | ok(q, b, k); }
VC bool CAT2(DQ, __allSource)(Queue *q, uint64_t, uint64_t, uint64_t gs, uint64_t gm, uint64_t b, uint64_t k) {
    vc_old(true);
    uint64_t l0 = len(q, b);
    uint64_t d0 = (uint64_t)(uintptr_t)at(q, b, k).data_look_at_node;
    uint32_t t0 = at(q, b, k).time.value;
    uint8_t y0 = (uint8_t)at(q, b, k).tentative_event_type;
    vc_old(false);
    return (b < gs) | (b >= NB) | ((len(q, b) == l0) & ((k >= l0) | same_event(at(q, b, k), d0, t0, y0)));
}
VC bool CAT2(DQ, __invTrack)(Queue *q, uint64_t gb, uint64_t gk, uint64_t gs, uint64_t gm, uint64_t i) {
    return (gb != gs) | (i <= gk) | !vc_all("AbsentBelow");
}
VC void DQ(Queue *q, uint64_t gb, uint64_t gk, uint64_t gs, uint64_t gm) {
    vc_assume_all("Ok");
    vc_hint(lens1(q));
    vc_assume(q->_num_enqueued != 0);
    vc_assume(sum(q) == q->_num_enqueued);
    vc_assume(gb < NB);
    vc_assume(gk < len(q, gb));
    vc_assume(gs < NB);
    vc_assume(len(q, gs) > 0);
    vc_assume(CASE);
    vc_assume_all("First");
    vc_assume(gm < len(q, gs));
    vc_assume_all("Min");
    uint64_t n = q->_num_enqueued, d0 = (uint64_t)(uintptr_t)at(q, gb, gk).data_look_at_node;
    uint32_t t0 = tm(q, gb, gk);
    uint8_t y0 = (uint8_t)at(q, gb, gk).tentative_event_type;
    int64_t cur = q->cur_time;
    vc_assume((cur >= 0) & (cur < (1ll << 60)));
    vc_snapshot();
    vc_writes(&q->bit_buckets, sizeof(q->bit_buckets));
    vc_writes(&q->_num_enqueued, 8);
    vc_writes(&q->cur_time, 8);
    FloodCheckEvent r = q->dequeue();
    uint32_t rt = r.time.value;
    vc_check(q->_num_enqueued == n - 1, "dequeue removes one event");
    vc_check((uint32_t)(rt - (uint32_t)cur) <= (uint32_t)(t0 - (uint32_t)cur), "no queued event is earlier than the one returned");
    vc_check(q->cur_time == cur + (int64_t)(uint32_t)(rt - (uint32_t)cur), "the present advances to the returned event's time");
    bool w0 = (gk < len(q, 0)) & same_event(at(q, 0, gk), d0, t0, y0);   // (implies presence; a proof hint)
    vc_check(same_event(r, d0, t0, y0) | w0 | !vc_all("Absent"), "every other event stays, unchanged");
    vc_check_all("Ok", "every event is in the bucket of its time and not before the present");
    vc_check(sum(q) == q->_num_enqueued, "the size is the number of events held");
    vc_frame("dequeue");
    vc_cover("reach");
}

