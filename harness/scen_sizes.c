#include "rt.h"
#include <poll.h>
/* C17: every size up to the smaller maximum works, in every configuration, with many senders to one client. */
static atomic_llong n_conf, n_calls, n_events, n_sizes, n_bytes, n_raw_msgs, n_slow; static _Atomic uint8_t seen[1 << 16]; static int g_lim; static atomic_llong n_got; static uint64_t want_tok; static atomic_int got_want;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; VT_CHECK(ok, "event-corrupt", "an event of %u bytes (service %d event %d) arrived with other values than sent", r->n, svc, ev); inc(&n_got); if (r->token == want_tok) atomic_store(&got_want, 1); }
static void note(uint32_t total) { atomic_fetch_add_explicit(&n_bytes, total, memory_order_relaxed); if (total < sizeof seen && !atomic_exchange_explicit(&seen[total], 1, memory_order_relaxed)) { inc(&n_sizes); } }
static uint32_t pick(int i) { /* payload size; total = HDR + REQ_FIXED + n */
    uint32_t max = (uint32_t)g_lim - HDR - REQ_FIXED; int32_t v;
    switch (i % 6) {
    case 0: v = (int32_t)(max - vt_below(4)); break;
    case 1: v = (int32_t)((1u << vt_below(22)) + vt_below(5)) - 2 - (vt_rand() & 1 ? HDR + REQ_FIXED : 0); break;
    case 2: v = (int32_t)vt_below(64); break;
    case 3: v = (int32_t)vt_below(max + 1); break;
    case 4: v = (int32_t)(max - vt_below(600)); break;
    default: v = (int32_t)max; break;
    }
    if (v < 0) v = 0; if ((uint32_t)v > max) v = (int32_t)max; return (uint32_t)v;
}
struct es { struct srv* s; int conn, n; uint32_t max; };
/* events that are not allowed to block: each is either refused or arrives whole */
static atomic_int nb_ok, nb_done; static atomic_llong n_nb_sent, n_nb_refused;
static void* nb_thread(void* p) {
    struct es* e = p;
    for (int i = 0; i < e->n; i++) {
        uint32_t n = vt_rand() & 3 ? pick(i) : vt_below(50); if (n > e->max) n = e->max; int st = ev_send(e->s->s, e->conn, ev_services[vt_below(NSVC)], E_TICK, tk_new(0), n, 0);
        if (st == 0) { atomic_fetch_add(&nb_ok, 1); inc(&n_nb_sent); note(HDR + REQ_FIXED + n); } else { inc(&n_nb_refused); if (vt_below(4) == 0) vt_usleep(vt_below(300)); } vt_progress();
    }
    atomic_fetch_add(&nb_done, 1); return 0;
}
static void* ev_thread(void* p) {
    struct es* e = p;
    for (int i = 0; i < e->n; i++) { uint32_t n = vt_rand() & 3 ? pick(i) : vt_below(50); if (n > e->max) n = e->max; note(HDR + REQ_FIXED + n); int st = vt_rand() & 3 ? ev_send(e->s->s, e->conn, ev_services[vt_below(NSVC)], E_TICK, tk_new(0), n, GRACHT_MESSAGE_BLOCK) : ev_broadcast(e->s->s, ev_services[vt_below(NSVC)], E_TICK, tk_new(0), n, GRACHT_MESSAGE_BLOCK); VT_CHECK(st == 0, "event-send-failed", "an event of %u bytes could not be sent (errno %d)", HDR + REQ_FIXED + n, errno); inc(&n_events); vt_progress(); }
    return 0;
}
/* a client that reads slowly and in odd pieces, while several threads send to it */
static void slow_reader(struct srv* s, int workers) {
    int fd = raw_connect_unix(s->path); if (fd < 0) vt_viol("connect", "connect"); uint8_t* b = malloc((size_t)g_lim + 64); uint32_t l; inc(&n_slow);
    l = raw_msg(b, 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, tk_new(0), ARG(0, 0), 0); raw_write(fd, b, l); if (raw_read_msg(fd, b, (uint32_t)g_lim, &l) != 1) vt_viol("lost", "no response"); int conn; memcpy(&conn, b + HDR + 8, 4);
    struct es e[3]; pthread_t th[3]; int per = g_lim > 200000 ? 4 : 25, nreq = workers > 1 ? 4 : 0; uint32_t max = (uint32_t)g_lim - HDR - REQ_FIXED;
    for (int i = 0; i < 3; i++) { e[i] = (struct es){ s, conn, per, max }; pthread_create(&th[i], 0, ev_thread, &e[i]); }
    for (int i = 0; i < nreq; i++) { l = raw_msg(b, (uint32_t)(100 + i), SVC, A_BIG, MESSAGE_FLAG_SYNC, tk_new(0), ARG(0, pick(i) & 0xffffff), 10); raw_write(fd, b, l); }
    int left = 3 * per + nreq, resp[8] = { 0 };
    while (left) {
        uint8_t h[HDR]; if (raw_read(fd, h, HDR) != 1) vt_viol("lost", "the connection broke while %d messages were due", left); memcpy(&l, h + 4, 4);
        VT_CHECK(l >= HDR + REQ_FIXED && l <= (uint32_t)g_lim, "interleaved", "the stream contains a message header with length %u: messages are interleaved or truncated", l);
        memcpy(b, h, HDR); uint32_t at = HDR; while (at < l) { uint32_t k = 1 + vt_below(vt_rand() & 1 ? 65536 : 500); if (k > l - at) k = l - at; if (raw_read(fd, b + at, k) != 1) vt_viol("lost", "the connection broke inside a message"); at += k; if (vt_below(20) == 0) vt_usleep(vt_below(200)); }
        struct req r; gracht_buffer_t gb = { (char*)b, HDR }; get_req(&gb, &r);
        VT_CHECK(r.n == l - HDR - REQ_FIXED && vt_verify(r.data, r.n, r.token), "interleaved", "a message of %u bytes on the stream differs from the one sent: interleaved, truncated or corrupt", l);
        uint32_t id; memcpy(&id, b, 4); if (b[9] == vt_w[A_BIG]) { VT_CHECK(id >= 100 && id < 100u + (uint32_t)nreq && !resp[id - 100]++, "wrong-response", "unexpected response id %u", id); }
        inc(&n_raw_msgs); left--; vt_progress();
    }
    for (int i = 0; i < 3; i++) pthread_join(th[i], 0);
    char x; VT_CHECK(recv(fd, &x, 1, MSG_DONTWAIT) == -1, "interleaved", "bytes nobody sent are on the stream");
    close(fd); free(b);
}
/* a client that reads nothing at all: events that must not block are refused once its socket is full, and nobody waits for it */
static atomic_llong n_full;
static void nobody_reads(struct srv* s) {
    int fd = raw_connect_unix(s->path); if (fd < 0) vt_viol("connect", "connect"); uint8_t b[4096]; uint32_t l, n = vt_below(300); int ok = 0;
    if (n + HDR + REQ_FIXED > (uint32_t)g_lim) n = (uint32_t)g_lim - HDR - REQ_FIXED;
    l = raw_msg(b, 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, tk_new(0), ARG(0, 0), 0); raw_write(fd, b, l); if (raw_read_msg(fd, b, sizeof b, &l) != 1) vt_viol("lost", "no response"); int conn; memcpy(&conn, b + HDR + 8, 4);
    while (ok < 100000 && ev_send(s->s, conn, SVC, E_TICK, tk_new(0), n, 0) == 0) { ok++; if ((ok & 63) == 0) vt_progress(); }
    for (int i = 0; i < 5; i++) { ev_broadcast(s->s, SVC, E_TICK, tk_new(0), n, 0); vt_progress(); }
    for (int i = 0; i < ok; i++) { struct req r; gracht_buffer_t gb = { (char*)b, HDR }; if (raw_read_msg(fd, b, sizeof b, &l) != 1) vt_viol("lost", "%d events were accepted and %d arrived", ok, i); get_req(&gb, &r); VT_CHECK(r.n == n && vt_verify(r.data, r.n, r.token), "interleaved", "an event of %u bytes on the stream differs from the one sent", l); vt_progress(); }
    char x; VT_CHECK(recv(fd, &x, 1, MSG_DONTWAIT) == -1, "interleaved", "an event that was refused arrived all the same");
    VT_CHECK(ev_send(s->s, conn, SVC, E_TICK, tk_new(0), n, 0) == 0 && raw_read_msg(fd, b, sizeof b, &l) == 1, "event-send-failed", "an event cannot be sent to a client that has caught up"); inc(&n_full); n_raw_msgs += ok;
    close(fd);
}
static void slow_nonblocking(struct srv* s) {
    int fd = raw_connect_unix(s->path); if (fd < 0) vt_viol("connect", "connect"); uint8_t* b = malloc((size_t)g_lim + 64); uint32_t l; inc(&n_slow);
    l = raw_msg(b, 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, tk_new(0), ARG(0, 0), 0); raw_write(fd, b, l); if (raw_read_msg(fd, b, (uint32_t)g_lim, &l) != 1) vt_viol("lost", "no response"); int conn; memcpy(&conn, b + HDR + 8, 4);
    struct es e[3]; pthread_t th[3]; int nt = 1 + (int)vt_below(3), got = 0; uint32_t max = (uint32_t)g_lim - HDR - REQ_FIXED; atomic_store(&nb_ok, 0); atomic_store(&nb_done, 0);
    for (int i = 0; i < nt; i++) { e[i] = (struct es){ s, conn, g_lim > 200000 ? 12 : 60, max }; pthread_create(&th[i], 0, nb_thread, &e[i]); }
    for (;;) {
        int done = atomic_load(&nb_done) == nt, due = atomic_load(&nb_ok); struct pollfd pf = { .fd = fd, .events = POLLIN };
        if (done && got >= due) break;
        if (!done && poll(&pf, 1, 5) == 0) continue;
        uint8_t h[HDR]; if (raw_read(fd, h, HDR) != 1) vt_viol("lost", "the connection broke while events were due"); memcpy(&l, h + 4, 4);
        VT_CHECK(l >= HDR + REQ_FIXED && l <= (uint32_t)g_lim, "interleaved", "the stream contains a message header with length %u: messages are interleaved or truncated", l);
        memcpy(b, h, HDR); uint32_t at = HDR; while (at < l) { uint32_t k = 1 + vt_below(vt_rand() & 1 ? 65536 : 2000); if (k > l - at) k = l - at; if (raw_read(fd, b + at, k) != 1) vt_viol("lost", "the connection broke inside a message"); at += k; if (vt_below(12) == 0) vt_usleep(vt_below(300)); }
        struct req r; gracht_buffer_t gb = { (char*)b, HDR }; get_req(&gb, &r);
        VT_CHECK(r.n == l - HDR - REQ_FIXED && vt_verify(r.data, r.n, r.token), "interleaved", "an event of %u bytes on the stream differs from the one sent: interleaved, truncated or corrupt", l);
        inc(&n_raw_msgs); got++; vt_progress();
    }
    for (int i = 0; i < nt; i++) pthread_join(th[i], 0);
    VT_CHECK(got == atomic_load(&nb_ok), "lost", "%d events arrived although %d were accepted", got, atomic_load(&nb_ok));
    char x; VT_CHECK(recv(fd, &x, 1, MSG_DONTWAIT) == -1, "interleaved", "bytes nobody sent are on the stream");
    close(fd); free(b);
}
static void config(int sm, int cm, int workers, int calls, int self) {
    struct srv s; memset(&s, 0, sizeof s); s.workers = workers; s.max_msg = sm; s.stream = 1; s.selfdriven = self; g_lim = sm < cm ? sm : cm; inc(&n_conf);
    srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol); srv_start(&s); int conn = -1;
    gracht_client_t* c = cl_connect_unix(s.path, cm, vt_rand() & 1 ? 0 : cm * 4); ev_register(c);
    for (int i = 0; i < calls; i++) {
        uint32_t n = pick((int)vt_below(6)), rn = pick((int)vt_below(6)); if (vt_rand() & 1) n = vt_below(20) < (uint32_t)g_lim - HDR - REQ_FIXED ? 0 : n;
        note(n + HDR + REQ_FIXED); note(rn + HDR + REQ_FIXED); call_sync(c, vt_rand() & 1 ? A_BIG : A_ECHO, n, rn & 0xffffff, &conn); inc(&n_calls);
        if (vt_below(3) == 0) { uint32_t en = pick((int)vt_below(6)); want_tok = tk_new(0); atomic_store(&got_want, 0); struct es e = { &s, conn, 0, 0 }; (void)e; note(en + HDR + REQ_FIXED);
            if (en < 100000) { VT_CHECK(ev_send(s.s, conn, SVC, E_TICK, want_tok, en, GRACHT_MESSAGE_BLOCK) == 0, "event-send-failed", "event of %u bytes", en); while (!ld(&got_want)) if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for an event of %u bytes failed (errno %d)", en + HDR + REQ_FIXED, errno); }
            else { uint64_t t = tk_new(0); want_tok = t ^ RESP; if (cl_async(c, SVC, A_FIRE, t, ARG(0, en), 0)) vt_viol("call-failed", "send"); if (workers > 1) { while (!ld(&got_want)) if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for an event of %u bytes failed (errno %d)", en + HDR + REQ_FIXED, errno); } else { while (!ld(&got_want)) if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "errno %d", errno); } }
            inc(&n_events); }
    }
    gracht_client_shutdown(c);
    if (vt_rand() & 1 || calls > 30) slow_reader(&s, workers);
    if (vt_rand() & 1 || g_lim > 60000) slow_nonblocking(&s);
    if (vt_arg("io", 0) == 0 && (vt_rand() & 1)) nobody_reads(&s);   /* no short writes: the rest of a message that was begun is always sent */
    srv_stop(&s); vt_progress();
}
void scen_sizes(void) {
    static const int set[] = { 27, 28, 32, 40, 64, 100, 127, 128, 200, 255, 256, 300, 511, 512, 513, 800, 1000, 1023, 1024, 2000, 2048, 2049, 4000, 4096, 5000, 8192, 10000, 16384, 32767, 40000, 65535, 65536, 65537, 100000, 131072, 250000, 262144, 500000, 1 << 20, 1500000 };
    int ns = (int)(sizeof set / sizeof set[0]), rounds = (int)vt_arg("rounds", 12), big = (int)vt_arg("big", 1); ev_callback = on_event;
    for (int i = 0; i < rounds; i++) {
        int lim = big && vt_below(6) == 0 ? ns : 33; int sm = set[vt_below((uint32_t)lim)], cm = vt_below(3) == 0 ? set[vt_below((uint32_t)lim)] : sm; if (vt_below(4) == 0) { sm = 27 + (int)vt_below(6000); if (vt_rand() & 1) cm = sm; }
        static const int wk[] = { 0, 1, 2, 4 }; int w = wk[vt_below(4)]; if (sm > 300000 && w > 2) w = 2;
        config(sm, cm, w, (sm < cm ? sm : cm) > 200000 ? 12 : 60, vt_below(4) == 0);
    }
    vt_stat("configurations", ldl(&n_conf)); vt_stat("calls", ldl(&n_calls)); vt_stat("events", ldl(&n_events)); vt_stat("distinct_sizes", ldl(&n_sizes)); vt_stat("bytes", ldl(&n_bytes)); vt_stat("raw_messages_checked", ldl(&n_raw_msgs)); vt_stat("nonblocking_sent", ldl(&n_nb_sent)); vt_stat("nonblocking_refused", ldl(&n_nb_refused)); vt_stat("slow_readers", ldl(&n_slow)); vt_stat("clients_not_reading", ldl(&n_full));
    vt_sample("sizes: %lld configurations, %lld distinct message sizes, %lld calls, %lld bytes, %lld messages framed exactly", ldl(&n_conf), ldl(&n_sizes), ldl(&n_calls), ldl(&n_bytes), ldl(&n_raw_msgs));
}
