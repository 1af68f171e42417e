#include "rt.h"
#include <poll.h>
/* C02/C06: what belongs to a departed client is never delivered to the client that reuses its handle. */
static struct srv S; static atomic_int st_conn[4096]; static atomic_int last_conn; static atomic_llong n_reused, n_rounds, n_conns, n_disc, n_resp, n_err;
static void on_conn(gracht_conn_t c) { if (c >= 0 && c < 4096) atomic_store(&st_conn[c], 1); atomic_store(&last_conn, c); inc(&n_conns); vt_progress(); app_errno(); }
static void on_disc(gracht_conn_t c) { if (c >= 0 && c < 4096) atomic_store(&st_conn[c], 0); inc(&n_disc); vt_progress(); app_errno(); }
static int ran(void* a) { return tk_ran(*(uint64_t*)a); }
static int answered(void* a) { return atomic_load(&tk_resp[tk_idx(*(uint64_t*)a)]); }
static int conn_count(void* a) { return ldl(&n_conns) >= *(long long*)a; }
static int disc_count(void* a) { return ldl(&n_disc) >= *(long long*)a; }
static int newclient(int* handle) {
    long long want = ldl(&n_conns) + 1; int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "connect failed %d", errno);
    if (!vt_settle(conn_count, &want)) vt_viol("announce", "a connection was never announced"); *handle = ld(&last_conn); return fd;
}
static void leave(int fd, int how) { long long want = ldl(&n_disc) + 1; if (how == 1) shutdown(fd, SHUT_RDWR); close(fd); if (!vt_settle(disc_count, &want)) vt_viol("announce", "a departed client is never announced as disconnected"); }
/* connections that come and go in between, without anything being asked of them */
static atomic_llong n_between;
static void come_and_go(int n) {
    while (n > 0) {
        int k = n > 500 ? 500 : n; long long c = ldl(&n_conns) + k, d = ldl(&n_disc) + k; n -= k; n_between += k;
        for (int i = 0; i < k; i++) { int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "connect failed %d", errno); close(fd); }
        if (!vt_settle(conn_count, &c) || !vt_settle(disc_count, &d)) vt_viol("announce", "connections that came and went are not announced both ways");
    }
}
static int readable(int fd, int ms) { struct pollfd p = { fd, POLLIN, 0 }; return poll(&p, 1, ms) > 0; }
static void expect_response(int fd, uint32_t id, uint64_t tok, uint32_t rn) {
    uint8_t b[4096]; uint32_t l = 0, rid; struct req r; gracht_buffer_t g = { (char*)b, HDR };
    int st = raw_read_msg(fd, b, sizeof b, &l); if (st != 1) vt_viol("lost-response", "a live client's connection ends (%d) instead of delivering its response", st);
    memcpy(&rid, b, 4); if (b[8] != SVC || b[9] != vt_w[A_DEFER]) vt_viol("foreign-message", "a client received a message (service %u, action %u, id %u) that does not belong to it", b[8], b[9], rid);
    get_req(&g, &r); VT_CHECK(r.token == (tok ^ RESP), "foreign-response", "a client received the response of another client's call (id %u)", rid);
    VT_CHECK(rid == id && l == HDR + REQ_FIXED + rn && r.n == rn && vt_verify(r.data, r.n, r.token), "response-corrupt", "a response is corrupt"); inc(&n_resp);
}
void scen_reuse(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; S.connected = on_conn; S.disconnected = on_disc; int rounds = (int)vt_arg("rounds", 12);
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2); uint8_t m[4096];
    for (int i = 0; i < rounds; i++) {
        int ha, hb, gen = 1 + (int)vt_below(3), na = 1 + (int)vt_below(4), errors = S.workers > 1 && (vt_rand() & 1); uint64_t ta[4][4]; uint32_t id = vt_below(5), l; inc(&n_rounds);
        rt_hold(1);
        int used[4];
        for (int g = 0; g < gen; g++) { /* several generations of the same handle leave work behind */
            int fd = newclient(&ha); used[g] = ha;
            for (int j = 0; j < na; j++) { ta[g][j] = tk_new(0); l = raw_msg(m, id + (uint32_t)j, SVC, A_DEFER, MESSAGE_FLAG_SYNC, ta[g][j], ARG(0, 10 + vt_below(50)), vt_below(50)); if (raw_write(fd, m, l)) vt_internal("write"); }
            for (int j = 0; j < na; j++) if (!vt_settle(ran, &ta[g][j])) vt_viol("lost-request", "a request never ran");
            if (errors) { /* the workers are busy while unsupported calls queue up behind */
                for (int w = 0; w < S.workers; w++) { l = raw_msg(m, 900, SVC, A_NOTIFY, MESSAGE_FLAG_ASYNC, tk_new(0), ARG(5, 0), 10); raw_write(fd, m, l); }
                for (int w = 0; w < S.workers * 2; w++) { l = raw_msg(m, id + (uint32_t)(w % na), SVC, 200, MESSAGE_FLAG_SYNC, tk_new(K_FORBIDDEN), 0, 10); raw_write(fd, m, l); inc(&n_err); }
            }
            leave(fd, (int)vt_below(2));
        }
        int many = (int)vt_arg("between", 0); come_and_go(i == 0 && many ? many : vt_below(3) ? 0 : vt_below(2) ? 255 : (int)vt_below(600));   /* the same number of connections modulo anything */
        uint64_t tb[4]; int fd = newclient(&hb); for (int g = 0; g < gen; g++) if (used[g] == hb) inc(&n_reused);
        for (int j = 0; j < na; j++) { tb[j] = tk_new(0); l = raw_msg(m, id + (uint32_t)j, SVC, A_DEFER, MESSAGE_FLAG_SYNC, tb[j], ARG(0, 20), vt_below(50)); if (raw_write(fd, m, l)) vt_internal("write"); }
        for (int j = 0; j < na; j++) if (!vt_settle(ran, &tb[j])) vt_viol("lost-request", "a request never ran");
        VT_CHECK(!readable(fd, errors ? 250 : 1), "foreign-message", "a client received a message although nothing was sent to it");
        rt_hold(0);
        for (int g = 0; g < gen; g++) for (int j = 0; j < na; j++) { if (!vt_settle(answered, &ta[g][j])) vt_internal("not answered"); VT_CHECK(atomic_load(&tk_resp[tk_idx(ta[g][j])]) == 2, "respond-to-gone", "responding to a departed client reports success"); }
        for (int j = 0; j < na; j++) { if (!vt_settle(answered, &tb[j])) vt_internal("not answered"); VT_CHECK(atomic_load(&tk_resp[tk_idx(tb[j])]) == 1, "respond-failed", "a response to a connected client was refused"); }
        /* responses may come in any order: match them by id */
        for (int k = 0; k < na; k++) { uint32_t rid; if (!readable(fd, 20000)) vt_viol("lost-response", "a live client never received its response"); if (recv(fd, &rid, 4, MSG_PEEK | MSG_WAITALL) != 4) vt_viol("lost-response", "the connection of a live client was closed"); VT_CHECK(rid >= id && rid < id + (uint32_t)na && tb[rid - id], "foreign-message", "a client received a message with id %u that it did not send or twice", rid); expect_response(fd, rid, tb[rid - id], 20); tb[rid - id] = 0; }
        VT_CHECK(!readable(fd, 1), "foreign-message", "a client received more messages than were sent to it");
        leave(fd, (int)vt_below(2));
    }
    rt_responders_stop(); srv_stop(&S);
    vt_stat("rounds", ldl(&n_rounds)); vt_stat("connections_between", ldl(&n_between)); vt_stat("handles_reused", ldl(&n_reused)); vt_stat("responses_verified", ldl(&n_resp)); vt_stat("responses_to_departed_refused", ldl(&rt_respond_fail)); vt_stat("late_errors", ldl(&n_err));
    vt_sample("reuse: %lld rounds, %lld reused handles, %lld responses to departed clients refused", ldl(&n_rounds), ldl(&n_reused), ldl(&rt_respond_fail));
}
