#include "rt.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
/* C07: whatever bytes a stream client sends, the server stays correct for everybody else. */
static struct srv S; static atomic_int g_stop; static uint32_t g_cap; static int g_max; static atomic_llong n_conns, n_kind[16], n_valid, n_badlen, n_healthy, n_bytes, n_closed_by_server, n_over, n_trunc;
static uint64_t* g_due; static atomic_uint g_ndue;
static void due(uint64_t t) { g_due[atomic_fetch_add(&g_ndue, 1)] = t; }
static int due_ran(void* a) { (void)a; uint32_t n = atomic_load(&g_ndue); for (uint32_t i = 0; i < n; i++) if (tk_ran(g_due[i]) != 1) return 0; return 1; }
static atomic_int g_ready;
static void* healthy(void* a) {
    (void)a; gracht_client_t* c = cl_connect_unix(S.path, g_max, g_max * 4); int conn = -1;
    call_sync(c, A_ECHO, 1, 1, &conn); atomic_fetch_add(&g_ready, 1);
    while (vt_bg(&g_stop)) { uint32_t lim = g_max < 227 ? (uint32_t)g_max - HDR - REQ_FIXED + 1 : 200; call_sync(c, A_ECHO, vt_below(lim), vt_below(lim), &conn); inc(&n_healthy); }
    gracht_client_shutdown(c); return 0;
}
static void wr(int fd, const void* p, size_t n, int style) { atomic_fetch_add_explicit(&n_bytes, (long long)n, memory_order_relaxed); raw_write_cut(fd, p, n, style); }
static uint32_t bad_length(void) {
    switch (vt_below(7)) {
    case 0: return vt_below(HDR);
    case 1: return g_cap + 1 + vt_below(3);
    case 2: return 0xffffffffu - vt_below(30);
    case 3: return 0x7fffffffu - vt_below(4);
    case 4: return 0x80000000u + vt_below(40);
    case 5: return g_cap + vt_below(100000) + 1;
    default: return vt_below(2) ? HDR - 1 : g_cap + 1;
    }
}
static int drained_or_closed(int fd) { char b[512]; for (;;) { ssize_t r = recv(fd, b, sizeof b, MSG_DONTWAIT); if (r == 0) return 1; if (r < 0) return errno != EAGAIN && errno != EWOULDBLOCK; } }
static int closed_cond(void* a) { return drained_or_closed(*(int*)a); }
static int read_until(int fd, uint8_t* buf, int flag, uint64_t a, uint64_t b) {
    for (uint32_t l; ; ) {
        if (raw_read_msg(fd, buf, 65536, &l) != 1) vt_viol("cut-off", "the server closed the connection of a client that sent complete messages");
        if (buf[8] == 0 || l < HDR + REQ_FIXED || (buf[10] & 3) != flag) continue;
        uint64_t t; memcpy(&t, buf + HDR, 8); if (t == a) return 1; if (t == b) return 2;
    }
}
static void sub_msg(int fd, uint8_t* buf, int act, int svc, uint32_t len) { memset(buf, 0, HDR + 1); memcpy(buf + 4, &len, 4); buf[9] = (uint8_t)act; buf[10] = MESSAGE_FLAG_ASYNC; buf[HDR] = (uint8_t)svc; wr(fd, buf, len, 0); }
static void truncated_control(int fd, uint8_t* buf) {
    uint8_t a = ev_services[1 + vt_below(NSVC - 1)], b; do b = ev_services[1 + vt_below(NSVC - 1)]; while (b == a);
    int un = (int)(vt_rand() & 1), n = 1 + (int)vt_below(4); uint8_t left = un ? a : b;
    sub_msg(fd, buf, 1, 255, HDR + 1); sub_msg(fd, buf, 0, a, HDR + 1);
    for (int i = 0; i < n; i++) {
        if (vt_rand() & 3) { uint32_t len = HDR + 1 + vt_below(100); memset(buf, left, len); memcpy(buf + 4, &len, 4); buf[8] = SVC; buf[9] = vt_w[222]; buf[10] = MESSAGE_FLAG_ASYNC; wr(fd, buf, len, 0); }   /* leaves its content behind */
        else sub_msg(fd, buf, un, left == a ? 255 : left == b ? a : 0, HDR);
        sub_msg(fd, buf, un, 0, HDR);
    }
    uint64_t t = tk_new(0), ta = tk_new(0), tb = tk_new(0); due(t); inc(&n_valid);
    uint32_t l = raw_msg(buf, 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 1), 1); wr(fd, buf, l, 0);
    read_until(fd, buf, MESSAGE_FLAG_RESPONSE, t ^ RESP, 0);
    ev_broadcast(S.s, b, E_TICK, tb, 1, 0); ev_broadcast(S.s, a, E_TICK, ta, 1, 0);
    if (un) { struct pollfd p = { .fd = fd, .events = POLLIN }; if (poll(&p, 1, 20000) == 0) vt_viol("subscription-lost", "an unsubscribe request without a service ended the subscription of service %u", a); }
    if (read_until(fd, buf, MESSAGE_FLAG_EVENT, ta, tb) == 2) vt_viol("subscribed", "a subscribe request without a service subscribed the client to service %u", b);
    inc(&n_trunc);
}
static void attack(uint8_t* buf, int* held, int* nheld) {
    int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "the server stopped accepting connections (errno %d)", errno);
    inc(&n_conns); int kind = (int)vt_below(12); inc(&n_kind[kind]); int style = (int)vt_below(4); uint32_t l; int keep = 0;
    /* usually say something valid first */
    int warm = (int)vt_below(4);
    for (int i = 0; i < warm; i++) { uint64_t t = tk_new(0); due(t); inc(&n_valid); l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, t, 0, vt_rand() & 7 ? vt_below(80) : vt_below((uint32_t)g_max - HDR - REQ_FIXED)); wr(fd, buf, l, l > 600 ? 3 : style); }
    if (kind == 1 || kind == 2) sub_msg(fd, buf, 1, 255, HDR + 1);   /* these may stay without ever reading */
    switch (kind) {
    case 0: { /* many valid messages glued together and cut anywhere */
        uint8_t* big = malloc(65536); uint32_t at = 0; int n = 1 + (int)vt_below(30);
        for (int i = 0; i < n; i++) { uint64_t t = tk_new(0); due(t); inc(&n_valid); at += raw_msg(big + at, 0, SVC, A_NOTIFY2, MESSAGE_FLAG_ASYNC, t, 0, vt_below(200)); }
        wr(fd, big, at, (int)vt_below(4)); free(big); if (vt_rand() & 1) shutdown(fd, SHUT_WR); break; }
    case 1: /* part of a header */
        l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, tk_new(K_FORBIDDEN), 0, 20); wr(fd, buf, 1 + vt_below(HDR - 1), style); keep = (int)(vt_rand() & 1); break;
    case 2: /* header plus part of the body */
        l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, tk_new(K_FORBIDDEN), 0, 20 + vt_below((uint32_t)g_max - 100)); wr(fd, buf, HDR + vt_below(l - HDR), l > 600 ? 3 : style); keep = (int)(vt_rand() & 1); break;
    case 3: case 4: { /* impossible lengths */
        l = raw_msg(buf, 0, SVC, vt_rand() & 1 ? A_NOTIFY : A_ECHO, MESSAGE_FLAG_ASYNC, tk_new(K_FORBIDDEN), 0, 20 + vt_below(100)); uint32_t bad = bad_length(); memcpy(buf + 4, &bad, 4); inc(&n_badlen);
        wr(fd, buf, vt_rand() & 1 ? HDR : l, style);
        if (bad > g_cap && (vt_rand() & 1)) { uint8_t junk[4096]; vt_fill(junk, sizeof junk, vt_rand()); wr(fd, junk, sizeof junk, 3); }
        if (!vt_settle(closed_cond, &fd)) vt_viol("bad-length-kept", "the server keeps a connection open that announced a message of %u bytes", bad);
        inc(&n_closed_by_server); break; }
    case 5: { /* garbage */
        uint32_t n = 1 + vt_below(3000); vt_fill(buf, n, vt_rand()); buf[8] = 99; wr(fd, buf, n, 3); if (vt_rand() & 1) { uint32_t len = HDR + vt_below(100); uint8_t g[200]; vt_fill(g, sizeof g, vt_rand()); memcpy(g + 4, &len, 4); g[8] = 99; wr(fd, g, len, style); } break; }
    case 6: { /* the control protocol, truncated, repeated, out of range */
        int n = 1 + (int)vt_below(20);
        for (int i = 0; i < n; i++) { uint32_t len = HDR + vt_below(4); memset(buf, 0, 32); memcpy(buf + 4, &len, 4); buf[9] = (uint8_t)vt_below(4); buf[10] = (uint8_t)vt_below(8); for (uint32_t q = HDR; q < len; q++) buf[q] = (uint8_t)vt_rand(); wr(fd, buf, len, style); }
        uint64_t t = tk_new(0); due(t); inc(&n_valid); l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, t, 0, 10); wr(fd, buf, l, style); break; }
    case 7: { /* unknown services with odd flags; replies never read */
        int n = 1 + (int)vt_below(20);
        for (int i = 0; i < n; i++) { uint32_t len = HDR + vt_below(200); vt_fill(buf, len, vt_rand()); memcpy(buf + 4, &len, 4); buf[8] = (uint8_t)(100 + vt_below(100)); wr(fd, buf, len, 3); }
        break; }
    case 8: { /* calls whose answers are never read; closed abruptly */
        int n = 1 + (int)vt_below(20); for (int i = 0; i < n; i++) { uint64_t t = tk_new(0); due(t); inc(&n_valid); l = raw_msg(buf, (uint32_t)i, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, vt_below(100)), vt_below(50)); wr(fd, buf, l, 0); } break; }
    case 9: { /* a message of the smallest possible size, and lengths around the limits of what exists */
        uint32_t len = HDR; memset(buf, 0, HDR); memcpy(buf + 4, &len, 4); buf[8] = SVC; buf[9] = vt_w[200]; wr(fd, buf, len, style); buf[8] = 0; buf[9] = (uint8_t)vt_below(3); wr(fd, buf, len, style);
        uint64_t t = tk_new(0); due(t); inc(&n_valid); l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, t, 0, (uint32_t)g_max - HDR - REQ_FIXED); wr(fd, buf, l, 3); break; }
    case 10: { /* complete messages a little larger than configured: executed or refused, but never beyond the buffer */
        uint32_t over = 1 + vt_below(600); if (vt_rand() & 1) over = 430 + vt_below(100);
        uint64_t t = tk_new((uint32_t)g_max + over <= g_cap ? K_NORMAL : K_FORBIDDEN); l = raw_msg(buf, 0, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, t, 0, (uint32_t)g_max + over - HDR - REQ_FIXED); wr(fd, buf, l, 3);
        inc(&n_over); break; }
    case 11: /* subscriptions without their argument change nothing, whatever is left in memory */
        truncated_control(fd, buf); break;
    }
    vt_progress();
    if (keep && *nheld < 6) held[(*nheld)++] = fd; else { if (vt_below(4) == 0) shutdown(fd, SHUT_WR); close(fd); }
}
static int fds_back(void* a) { return vt_count_fds() <= *(int*)a; }
static int g_attacks;
static void* attacker(void* a) {
    (void)a; uint8_t* buf = malloc(65536 + (size_t)g_max); int held[8], nh = 0;
    for (int i = 0; i < g_attacks; i++) { attack(buf, held, &nh); if (nh == 6) { int k = (int)vt_below(6); close(held[k]); held[k] = held[--nh]; } }
    /* other clients are served while broken messages are pending: they were, so let go now */
    for (int i = 0; i < nh; i++) close(held[i]);
    free(buf); return 0;
}
void scen_hostile_server(void) {
    S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); g_max = S.max_msg ? S.max_msg : 2048; S.stream = 1; S.selfdriven = (int)vt_arg("self", 0);
    g_cap = (uint32_t)g_max + 512; rt_tolerate_malformed = 1; rt_size_limit = g_cap; g_attacks = (int)vt_arg("attacks", 60); g_due = calloc(400000, 8);

    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S);
    { gracht_client_t* w = cl_connect_unix(S.path, g_max, 0); int cn = -1; call_sync(w, A_ECHO, 1, 1, &cn); gracht_client_shutdown(w); }
    vt_msleep(30); int fds = vt_count_fds();
    int nh = (int)vt_arg("healthy", 2), na = (int)vt_arg("attackers", 3); pthread_t h[4], at[8];
    for (int i = 0; i < nh; i++) pthread_create(&h[i], 0, healthy, 0);
    while (ld(&g_ready) < nh) vt_usleep(200);   /* connected before anybody leaves: see known finding on reused connections */
    for (int i = 0; i < na; i++) pthread_create(&at[i], 0, attacker, 0);
    for (int i = 0; i < na; i++) pthread_join(at[i], 0);
    if (!vt_settle(due_ran, 0)) { int miss = 0; for (uint32_t i = 0; i < g_ndue; i++) miss += !tk_ran(g_due[i]); vt_viol("valid-not-executed", "%d of %u valid messages sent in pieces were never executed", miss, g_ndue); }
    long long before = ldl(&n_healthy); while (ldl(&n_healthy) < before + 3) vt_usleep(200);
    atomic_store(&g_stop, 1); for (int i = 0; i < nh; i++) pthread_join(h[i], 0);
    if (!vt_settle(fds_back, &fds)) vt_viol("descriptor-leak", "%d descriptors remain open after all clients left (were %d)", vt_count_fds(), fds);
    srv_stop(&S); free(g_due);
    vt_stat("hostile_connections", ldl(&n_conns)); vt_stat("valid_messages_executed", g_ndue); vt_stat("bad_lengths", ldl(&n_badlen)); vt_stat("closed_by_server", ldl(&n_closed_by_server)); vt_stat("healthy_calls", ldl(&n_healthy)); vt_stat("bytes", ldl(&n_bytes));
    vt_stat("over_size_messages", ldl(&n_over)); vt_stat("truncated_control", ldl(&n_trunc)); for (int i = 0; i < 12; i++) { char b[32]; snprintf(b, 32, "attack_%d", i); vt_stat(b, ldl(&n_kind[i])); }
    vt_sample("hostile-server: %lld connections, %u valid messages in pieces, %lld impossible lengths, %lld healthy calls meanwhile", ldl(&n_conns), g_ndue, ldl(&n_badlen), ldl(&n_healthy));
}

/* C08: whatever bytes the peer sends, the client stays sane and reports it. */
static atomic_llong c_rounds, c_kind[12], c_resp, c_events, c_polls_empty, c_fail, c_sendfail, c_short, c_dup; static int g_evs; static int g_lfd; static char g_path[150];
static uint64_t g_ev_expect[512]; static int g_ev_n;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)ev; VT_CHECK(ok && svc == SVC, "event-corrupt", "an event arrived with other values than sent (%u bytes)", r->n); VT_CHECK(g_evs < g_ev_n && g_ev_expect[g_evs] == r->token, "event-order", "event %d of %d is not the one sent", g_evs, g_ev_n); g_evs++; inc(&c_events); }
struct feed { int fd; uint8_t* p; uint32_t n; int style; int close_; };
static void* feeder(void* a) { struct feed* f = a; if (raw_write_cut(f->fd, f->p, f->n, f->style)) {} if (f->close_) close(f->fd); return 0; }
static void c_round(uint8_t* buf, int max) {
    gracht_client_t* c = cl_create_unix(g_path, max, max * 40); ev_register(c); inc(&c_rounds);
    if (gracht_client_connect(c)) vt_viol("connect", "connect failed %d", errno);
    int fd = accept(g_lfd, 0, 0); if (fd < 0) vt_internal("accept"); uint32_t at = 0; int kind = (int)vt_below(7); inc(&c_kind[kind]);
    struct gracht_message_context cx[8]; uint32_t ids[8]; uint64_t rt[8]; uint32_t rn[8]; int m = 1 + (int)vt_below(8), dup = 0; pthread_t th; struct feed f;
    for (int i = 0; i < m; i++) { uint32_t l; if (cl_call(c, &cx[i], SVC, A_ECHO, tk_new(0), 0, vt_below(50))) vt_viol("call-failed", "send failed"); if (raw_read_msg(fd, buf, 65536, &l) != 1) vt_internal("request"); memcpy(&ids[i], buf, 4); }
    g_evs = 0; g_ev_n = 0;
    uint32_t maxn = (uint32_t)max - HDR - REQ_FIXED;
    for (int i = 0; i < m; i++) {
        while (vt_below(3) == 0 && g_ev_n < 400) { uint64_t t = tk_new(0); g_ev_expect[g_ev_n++] = t; at += raw_msg(buf + at, 0, SVC, E_TICK, MESSAGE_FLAG_EVENT, t, SVC, vt_rand() & 7 ? vt_below(50) : vt_below(maxn + 1)); }
        if (vt_below(4) == 0) at += raw_msg(buf + at, 77777 + vt_below(9), 99, (uint8_t)vt_rand(), (uint8_t)vt_rand(), 0, 0, vt_below(60));
        if (vt_below(5) == 0) { /* error events too short to name a call, after an ignored event that leaves the numbers of calls in memory */
            uint32_t k = vt_below(m), l = raw_msg(buf + at, 0, 99, 1, MESSAGE_FLAG_EVENT, 0, 0, 20); for (uint32_t q = HDR; q + 4 <= l; q += 4) memcpy(buf + at + q, &ids[k], 4); at += l;
            l = HDR + vt_below(8); memset(buf + at, 0, HDR); memcpy(buf + at + 4, &l, 4); buf[at + 9] = vt_below(4) ? 2 : (uint8_t)vt_rand(); buf[at + 10] = MESSAGE_FLAG_EVENT; for (uint32_t q = HDR; q < l; q++) buf[at + q] = ((uint8_t*)&ids[k])[(q - HDR) & 3]; at += l; inc(&c_short); }
        rt[i] = tk_new(0); rn[i] = vt_rand() & 3 ? vt_below(60) : vt_below(maxn + 1); at += raw_msg(buf + at, ids[i], SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, rt[i], (uint32_t)i, rn[i]); inc(&c_resp);
        if (i + 1 < m && !dup && vt_below(6) == 0) { /* the same response again and again: answered calls must not take up what is needed to receive the others */
            at -= HDR + REQ_FIXED + rn[i]; rn[i] = maxn; uint32_t l = raw_msg(buf + at, ids[i], SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, rt[i], (uint32_t)i, rn[i]); dup = 30 + (int)vt_below(30); for (int q = 1; q <= dup; q++) memcpy(buf + at + (size_t)l * q, buf + at, l); at += l * (uint32_t)(dup + 1); inc(&c_dup); }
    }
    f = (struct feed){ fd, buf, at, at > 3000 ? 3 : (int)vt_below(4), 0 };
    switch (kind) {
    case 0: /* blocking waits while the stream trickles in */
        pthread_create(&th, 0, feeder, &f);
        for (int i = 0; i < m; i++) if (gracht_client_wait_message(c, &cx[i], GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting failed on a live connection (errno %d)", errno);
        pthread_join(th, 0); break;
    case 1: { /* polling while the stream trickles in */
        pthread_create(&th, 0, feeder, &f); int done = 0;
        while (!done) { int st = gracht_client_wait_message(c, NULL, 0); if (st) { VT_CHECK(errno == EAGAIN || errno == EWOULDBLOCK || errno == EBUSY, "poll", "polling a live connection with nothing complete pending reports errno %d", errno); inc(&c_polls_empty); vt_usleep(20); }
            vt_progress(); gracht_buffer_t b; (void)b; struct gracht_message_context* l = &cx[m - 1]; done = gracht_client_wait_message(c, l, 0) == 0; if (!done) VT_CHECK(errno == EAGAIN || errno == EWOULDBLOCK || errno == EBUSY, "poll", "polling for a call on a live connection reports errno %d", errno); }
        pthread_join(th, 0); break; }
    case 2: { /* bad length, then anything */
        uint32_t n = raw_msg(buf, ids[0], SVC, vt_rand() & 1 ? A_ECHO : E_TICK, vt_rand() & 1 ? MESSAGE_FLAG_RESPONSE : MESSAGE_FLAG_EVENT, 5, SVC, 30), bad;
        switch (vt_below(5)) { case 0: bad = vt_below(HDR); break; case 1: bad = (uint32_t)max + 1 + vt_below(3); break; case 2: bad = 0xffffffffu - vt_below(20); break; case 3: bad = 0x80000000u; break; default: bad = (uint32_t)max + vt_below(100000) + 1; }
        memcpy(buf + 4, &bad, 4); g_ev_n = 0; f = (struct feed){ fd, buf, n, (int)vt_below(3), 0 }; pthread_create(&th, 0, feeder, &f);
        int st = vt_rand() & 1 ? gracht_client_wait_message(c, &cx[0], GRACHT_MESSAGE_BLOCK) : gracht_client_await(c, &cx[0], GRACHT_AWAIT_ALL);
        VT_CHECK(st == -1, "bad-length-accepted", "a message announcing %u bytes was accepted", bad); inc(&c_fail); pthread_join(th, 0);
        VT_CHECK(gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK) == -1, "bad-length-accepted", "the stream is used on after an impossible length"); close(fd); gracht_client_shutdown(c); return; }
    case 3: { /* peer closes in the middle */
        uint32_t cut = vt_below(at); f.n = cut; f.close_ = 1; pthread_create(&th, 0, feeder, &f); int fails = 0, polls = 0;
        while (!fails) { int st = gracht_client_wait_message(c, NULL, vt_rand() & 1 ? GRACHT_MESSAGE_BLOCK : 0); if (st && errno != EAGAIN && errno != EWOULDBLOCK) fails = 1; VT_CHECK(polls++ < 10000000, "loss-not-reported", "a lost connection is never reported"); vt_progress(); }
        pthread_join(th, 0); inc(&c_fail);
        for (int i = 0; i < m; i++) { uint64_t t; uint32_t a, n; int ok; int st = cl_result(c, &cx[i], &t, &a, &n, &ok); if (st == 1) VT_CHECK(ok && t == rt[i] && n == rn[i], "wrong-response", "an incomplete response was delivered"); else VT_CHECK(st == 0, "status", "status %d", st); }
        int st = 0; for (int i = 0; i < 5 && !st; i++) st = cl_async(c, SVC, A_NOTIFY, tk_new(0), 0, vt_below(2000 < maxn ? 2000 : maxn));
        VT_CHECK(st == -1, "send-on-lost", "sending on a lost connection reports success"); inc(&c_sendfail); gracht_client_shutdown(c); return; }
    case 4: { /* garbage; anything but a crash */
        uint32_t n = 1 + vt_below(2000); vt_fill(buf, n, vt_rand()); if (buf[10] % 4 == 2) buf[8] = 99; if (n >= HDR) { uint32_t len; memcpy(&len, buf + 4, 4); if (len >= HDR && len <= (uint32_t)max) { buf[4] = 0; buf[5] = buf[6] = buf[7] = 0; } }
        f = (struct feed){ fd, buf, n, 3, 1 }; g_ev_n = 0; pthread_create(&th, 0, feeder, &f);
        int polls = 0; while (1) { int st = gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK); if (st) break; VT_CHECK(polls++ < 100000, "loss-not-reported", "a lost connection is never reported"); vt_progress(); }
        inc(&c_fail); pthread_join(th, 0); gracht_client_shutdown(c); return; }
    case 5: { /* first half, poll, then the rest: nothing may be lost */
        uint32_t off = 0; int guard = 0;
        while (off < at) { uint32_t k = 1 + vt_below(at - off < 900 ? at - off : 900); if (raw_write(fd, buf + off, k)) vt_internal("write"); off += k; int tries = 1 + (int)vt_below(3);
            for (int i = 0; i < tries; i++) { int st = gracht_client_wait_message(c, NULL, 0); if (st) { VT_CHECK(errno == EAGAIN || errno == EWOULDBLOCK, "poll", "polling with an incomplete message pending reports errno %d", errno); inc(&c_polls_empty); } VT_CHECK(guard++ < 1000000, "poll", "spin"); } vt_progress(); }
        for (int i = 0; i < m; i++) if (gracht_client_wait_message(c, &cx[i], GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting failed on a live connection (errno %d)", errno);
        break; }
    default: { /* peer gone: send and wait both fail */
        close(fd); int st = 0; for (int i = 0; i < 5 && !st; i++) st = cl_async(c, SVC, A_NOTIFY, tk_new(0), 0, vt_below(100)); VT_CHECK(st == -1, "send-on-lost", "sending on a lost connection reports success"); inc(&c_sendfail);
        struct gracht_message_context x; VT_CHECK(cl_call(c, &x, SVC, A_ECHO, tk_new(0), 0, 4) == -1, "send-on-lost", "calling on a lost connection reports success");
        { uint64_t t; uint32_t a, n; int ok; VT_CHECK(cl_result(c, &x, &t, &a, &n, &ok) == -1, "send-on-lost", "a call that could not be sent is pending"); }
        VT_CHECK(gracht_client_wait_message(c, &cx[0], GRACHT_MESSAGE_BLOCK) == -1, "wait-early", "waiting on a lost connection reports success"); inc(&c_fail); gracht_client_shutdown(c); return; }
    }
    for (int i = 0; i < m; i++) { uint64_t t; uint32_t a, n; int ok; int st = cl_result(c, &cx[i], &t, &a, &n, &ok); VT_CHECK(st == 1, "response-lost", "a response sent in pieces was not delivered (status %d)", st); VT_CHECK(ok && t == rt[i] && n == rn[i] && a == (uint32_t)i, "wrong-response", "a response sent in pieces arrived with other values"); }
    /* whatever else was sent arrives as well */
    while (g_evs < g_ev_n) if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("event-lost", "an event sent in pieces was not delivered (errno %d)", errno);
    if (vt_rand() & 1) { VT_CHECK(gracht_client_wait_message(c, NULL, 0) == -1 && (errno == EAGAIN || errno == EWOULDBLOCK), "poll", "polling an idle connection reports errno %d", errno); }
    close(fd); gracht_client_shutdown(c);
}
void scen_hostile_client(void) {
    ev_callback = on_event; snprintf(g_path, sizeof g_path, "%s/h", vt_scratch()); g_lfd = raw_listen_unix(g_path); int max = (int)vt_arg("max", 2048), n = (int)vt_arg("rounds", 80); uint8_t* buf = malloc((size_t)max * 460 + 65536);
    for (int i = 0; i < n; i++) { c_round(buf, max); vt_progress(); }
    close(g_lfd); free(buf);
    vt_stat("rounds", ldl(&c_rounds)); vt_stat("responses", ldl(&c_resp)); vt_stat("events", ldl(&c_events)); vt_stat("empty_polls", ldl(&c_polls_empty)); vt_stat("failures_reported", ldl(&c_fail)); vt_stat("short_error_events", ldl(&c_short)); vt_stat("sends_refused", ldl(&c_sendfail)); vt_stat("repeated_responses", ldl(&c_dup));
    for (int i = 0; i < 7; i++) { char b[32]; snprintf(b, 32, "peer_kind_%d", i); vt_stat(b, ldl(&c_kind[i])); }
    vt_sample("hostile-client: %lld rounds, %lld responses and %lld events in pieces, %lld empty polls, %lld failures reported", ldl(&c_rounds), ldl(&c_resp), ldl(&c_events), ldl(&c_polls_empty), ldl(&c_fail));
}
