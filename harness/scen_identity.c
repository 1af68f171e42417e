#include "rt.h"
/* C14/C06: a datagram client is never taken for a stream client, whatever address it sends from. */
static struct srv S; static atomic_llong n_conn, n_disc, n_calls, n_forged, n_subs, n_events, n_pairs;
static void on_conn(gracht_conn_t c) { (void)c; inc(&n_conn); app_errno(); }
static void on_disc(gracht_conn_t c) { (void)c; inc(&n_disc); app_errno(); }
/* CRC-32 is affine, so an address with a wanted value is found by elimination over its free bits */
static uint32_t crc(const void* p, size_t n) { uint32_t c = 0xffffffffu; const uint8_t* b = p; while (n--) { c ^= *b++; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
static void addr_of(uint64_t bits, struct sockaddr_in* a) { memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_port = (uint16_t)bits; uint32_t ip = 127u << 24 | (uint32_t)(bits >> 16 & 0xffffff); a->sin_addr.s_addr = htonl(ip); }
static uint32_t crc_of(uint64_t bits) { struct sockaddr_in a; addr_of(bits, &a); return crc(&a, sizeof a); }
/* a bound socket whose address has the value under the mask; -1 when there is none */
static int forge(uint32_t want, uint32_t mask, const struct sockaddr_in* not) {
    uint32_t base = crc_of(0), row[40]; uint64_t comb[40]; int n = 0, nn = 0; uint64_t nul[40];
    uint32_t prow[40]; uint64_t pcomb[40]; int order[40]; for (int i = 0; i < 40; i++) order[i] = i; for (int i = 39; i > 0; i--) { int j = (int)vt_below((uint32_t)i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
    for (int i = 0; i < 40; i++) { row[i] = (crc_of(1ull << order[i]) ^ base) & mask; comb[i] = 1ull << order[i]; for (int k = 0; k < n; k++) if ((row[i] ^ prow[k]) < row[i]) { row[i] ^= prow[k]; comb[i] ^= pcomb[k]; } if (row[i]) { prow[n] = row[i]; pcomb[n++] = comb[i]; for (int k = n - 1; k > 0 && prow[k] > prow[k - 1]; k--) { uint32_t r = prow[k]; uint64_t c = pcomb[k]; prow[k] = prow[k - 1]; pcomb[k] = pcomb[k - 1]; prow[k - 1] = r; pcomb[k - 1] = c; } } else nul[nn++] = comb[i]; }
    uint32_t t = (want ^ base) & mask; uint64_t x = 0;
    for (int k = 0; k < n; k++) if ((t ^ prow[k]) < t) { t ^= prow[k]; x ^= pcomb[k]; }
    if (t) return -1;
    for (int i = 0; i < 400; i++) {
        uint64_t y = x; for (int k = 0; k < nn; k++) if (vt_rand() & 1) y ^= nul[k];
        struct sockaddr_in a; addr_of(y, &a); uint32_t low = (uint32_t)(y >> 16 & 0xffffff);
        if (crc_of(y) != ((crc_of(y) & ~mask) | (want & mask))) vt_internal("forge");
        if (ntohs(a.sin_port) < 1024 || low == 0 || low == 0xffffff || (not && !memcmp(not, &a, sizeof a))) continue;
        int fd = socket(AF_INET, SOCK_DGRAM, 0); if (fd < 0) vt_internal("socket");
        if (!bind(fd, (void*)&a, sizeof a)) { if (connect(fd, (void*)&S.daddr, S.dlen)) vt_internal("connect"); return fd; }
        close(fd);
    }
    return -1;
}
static uint32_t g_id = 5;
static void dg_async(int fd, uint8_t sid, uint8_t aid, int arg) { uint8_t b[16]; uint32_t l = HDR + 1, z = 0; memset(b, 0, 16); memcpy(b, &z, 4); memcpy(b + 4, &l, 4); b[8] = sid; b[9] = aid; b[10] = MESSAGE_FLAG_ASYNC; b[11] = (uint8_t)arg; if (send(fd, b, l, 0) != (ssize_t)l) vt_internal("send"); }
/* calls and returns the identity the handler saw; events that arrive meanwhile are counted */
static int got_events; static uint64_t last_event;
static int dg_recv(int fd, uint32_t id, uint64_t t, int* who) {
    uint8_t r[4096]; ssize_t n = recv(fd, r, sizeof r, 0); uint32_t rid; uint64_t rt; if (n < HDR + REQ_FIXED) vt_viol("datagram-response", "a datagram client received %zd bytes", n);
    memcpy(&rid, r, 4); memcpy(&rt, r + HDR, 8); if (r[10] == MESSAGE_FLAG_EVENT) { got_events++; last_event = rt; return 0; }
    VT_CHECK(rid == id && rt == (t ^ RESP), "datagram-response", "a datagram client received a response that is not its own"); memcpy(who, r + HDR + 8, 4); return 1;
}
static int dg_call(int fd) {
    uint8_t b[512]; uint64_t t = tk_new(K_NORMAL); uint32_t id = g_id++, l = raw_msg(b, id, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 10), 20); int who = 0;
    if (send(fd, b, l, 0) != (ssize_t)l) vt_internal("send"); while (!dg_recv(fd, id, t, &who)) {} inc(&n_calls); vt_progress(); return who;
}
static struct { gracht_client_t* c; int conn, ev; uint64_t last; } K[6];
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)svc; (void)ev; VT_CHECK(ok, "event-corrupt", "event"); for (int i = 0; i < 6; i++) if (K[i].c == c) { K[i].ev++; K[i].last = r->token; } }
static void expect_events(int nk, int dg, const int* fd, const int* on) {
    uint64_t t = tk_new(0); for (int i = 0; i < nk; i++) K[i].ev = 0;
    VT_CHECK(!ev_broadcast(S.s, ev_services[1], E_TICK, t, 5, GRACHT_MESSAGE_BLOCK), "broadcast", "a broadcast failed"); inc(&n_events);
    for (int i = 0; i < nk; i++) { call_sync(K[i].c, A_ECHO, 1, 1, &K[i].conn); VT_CHECK(K[i].ev == 1 && K[i].last == t, K[i].ev ? "event-duplicated" : "event-lost", "stream client %d received %d events instead of one after a datagram client changed its own subscriptions", i, K[i].ev); }
    for (int i = 0; i < dg; i++) { got_events = 0; dg_call(fd[i]); VT_CHECK(got_events == on[i], got_events ? "event-misdelivered" : "event-lost", "a datagram client that is %s received %d events", on[i] ? "subscribed" : "not subscribed", got_events); }
}
void scen_identity(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = S.dgram = 1; S.connected = on_conn; S.disconnected = on_disc; int rounds = (int)vt_arg("rounds", 20), pair = (int)vt_arg("pair", 0), nk = 1 + (int)vt_below(5);
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); ev_callback = on_event;
    for (int i = 0; i < nk; i++) { K[i].c = cl_connect_unix(S.path, 0, 65536); ev_register(K[i].c); K[i].conn = -1; call_sync(K[i].c, A_ECHO, 1, 1, &K[i].conn); }
    for (int r = 0; r < rounds; r++) {
        int fd[4], on[4] = { 0 }, who[4], n = 0, want = 1 + (int)vt_below(3); struct sockaddr_in a; socklen_t al = sizeof a;
        if (pair) { uint32_t v = (uint32_t)vt_rand(); fd[0] = forge(v, ~0u, 0); if (fd[0] < 0) continue; getsockname(fd[0], (void*)&a, &al); fd[1] = forge(v, ~0u, &a); if (fd[1] < 0) { close(fd[0]); continue; } n = 2; inc(&n_pairs); }
        else for (; n < want; n++) { int k = (r + n) % nk; fd[n] = n >= nk || (n && vt_below(3) == 0) ? raw_dgram(&S) : forge((uint32_t)K[k].conn, ~0u, 0); if (fd[n] < 0) break; inc(&n_forged); }
        long long c0 = ldl(&n_conn), d0 = ldl(&n_disc);
        for (int i = 0; i < n; i++) {
            who[i] = dg_call(fd[i]); VT_CHECK(dg_call(fd[i]) == who[i], "identity", "the identity of a datagram client changes");
            for (int k = 0; k < nk; k++) VT_CHECK(who[i] != K[k].conn, "identity", "a datagram client is taken for the stream client %d", who[i]);
            for (int k = 0; k < i; k++) VT_CHECK(who[i] != who[k], "identity", "two datagram clients share one identity");
        }
        expect_events(nk, n, fd, on);
        for (int s = 0; s < 6; s++) {
            for (int i = 0; i < n; i++) { int to = vt_rand() & 1; if (to == on[i] && (vt_rand() & 1)) continue; dg_async(fd[i], 0, to ? 0 : 1, to ? (vt_rand() & 1 ? ev_services[1] : 255) : 255); if (to != on[i]) { if (to) c0++; else d0++; } on[i] = to; inc(&n_subs); VT_CHECK(dg_call(fd[i]) == who[i], "identity", "the identity of a datagram client changes when it subscribes"); VT_CHECK(ldl(&n_conn) == c0 && ldl(&n_disc) == d0, "announce", "connects or disconnects of a datagram client are not announced correctly"); }
            expect_events(nk, n, fd, on);
        }
        for (int i = 0; i < n; i++) { if (on[i]) { dg_async(fd[i], 0, 1, 255); dg_call(fd[i]); } close(fd[i]); }
        if (vt_below(4) == 0) { int k = (int)vt_below((uint32_t)nk); gracht_client_shutdown(K[k].c); K[k].c = cl_connect_unix(S.path, 0, 65536); ev_register(K[k].c); K[k].conn = -1; call_sync(K[k].c, A_ECHO, 1, 1, &K[k].conn); int waited = 0; while (ldl(&n_disc) - ldl(&n_conn) != -(long long)nk) { if (waited++ > 20000) vt_viol("announce", "a client that left is not announced as gone"); vt_usleep(500); } }
    }
    for (int i = 0; i < nk; i++) gracht_client_shutdown(K[i].c);
    srv_stop(&S);
    vt_stat("forged_addresses", ldl(&n_forged)); vt_stat("colliding_pairs", ldl(&n_pairs)); vt_stat("datagram_calls", ldl(&n_calls)); vt_stat("subscription_changes", ldl(&n_subs)); vt_stat("events_sent", ldl(&n_events));
    vt_sample("identity: %lld addresses forged to equal a stream client's handle, %lld datagram calls, %lld events", ldl(&n_forged), ldl(&n_calls), ldl(&n_events));
}
