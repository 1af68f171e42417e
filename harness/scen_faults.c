#include "rt.h"
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/stat.h>
/* C19: memory, descriptors, poll registrations, threads and transmissions fail now and then. One failure costs at most one operation or one connection; everything else
   goes on, a refused operation had no effect and can be repeated, nothing is left behind, and once the failures are over everything works. */
static struct srv S; static int g_level, g_seq; static atomic_llong n_affected, n_refused, n_lost, n_calls, n_conn, n_disc, n_lives, n_rounds, n_subs, n_events, n_big, n_enum, n_unsent, n_retries, n_given_up; static atomic_int st_conn[4096];
static void on_conn(gracht_conn_t c) { if (c < 0) return; VT_CHECK(c < 4096, "announce", "connect announced for handle %d", c); VT_CHECK(!atomic_exchange(&st_conn[c], 1), "announce", "connect of client %d announced while it is connected", c); inc(&n_conn); vt_progress(); app_errno(); }
static void on_disc(gracht_conn_t c) { if (c < 0) return; VT_CHECK(c < 4096, "announce", "disconnect announced for handle %d", c); VT_CHECK(atomic_exchange(&st_conn[c], 0), "announce", "disconnect of client %d announced although it is not connected", c); inc(&n_disc); vt_progress(); app_errno(); }
/* a refused operation: there must have been a failure, it may have cost this operation only, and it is repeated */
static void refused(long long f0, const char* what) { int e = errno; VT_CHECK(vt_fault_fired() > f0, "failed-without-cause", "%s failed (errno %d) although nothing was short", what, e); inc(&n_affected); inc(&n_refused); vt_progress(); }
static void lost(long long f0, const char* what) { int e = errno; VT_CHECK(vt_fault_fired() > f0, "failed-without-cause", "a connection was lost (%s, errno %d) although nothing was short", what, e); inc(&n_affected); inc(&n_lost); vt_progress(); }
#define TRY(what, call) do { for (;;) { long long f_ = vt_fault_fired(); if (!(call)) break; refused(f_, what); inc(&n_retries); if (g_level > 200) vt_usleep(200); } } while (0)
static int threads_back(void* a) { return vt_count_threads() <= *(int*)a; }
static int fds_back(void* a) { return vt_count_fds() <= *(int*)a; }
static struct gracht_link* mk_link(int type, const void* addr, socklen_t l, int listen) {
    struct gracht_link_socket* k = 0; struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); memcpy(&ss, addr, l); TRY("creating a link", gracht_link_socket_create(&k));
    gracht_link_socket_set_type(k, type); gracht_link_socket_set_domain(k, ss.ss_family); gracht_link_socket_set_address(k, &ss, l); gracht_link_socket_set_listen(k, listen); return (struct gracht_link*)k;
}
static socklen_t upath(struct sockaddr_un* a, const char* p) { memset(a, 0, sizeof *a); a->sun_family = AF_UNIX; snprintf(a->sun_path, sizeof a->sun_path, "%s", p); return sizeof *a; }
static void server_up(void) {
    int th = vt_count_threads(), fds; gracht_server_configuration_t cfg; memset(&S, 0, sizeof S); S.workers = (int)vt_arg("workers", 2); S.selfdriven = (int)vt_arg("self", 0); S.own_epoll = (int)(vt_rand() & 1); S.stream = S.dgram = 1; S.family = (int)vt_arg("family", 0); S.max_msg = 4096;
    gracht_server_configuration_init(&cfg); cfg.callbacks.clientConnected = on_conn; cfg.callbacks.clientDisconnected = on_disc; gracht_server_configuration_set_num_workers(&cfg, S.workers); gracht_server_configuration_set_max_msg_size(&cfg, S.max_msg);
    S.epfd = -1; if (S.own_epoll) { S.epfd = epoll_create1(0); gracht_server_configuration_set_aio_descriptor(&cfg, S.epfd); } fds = vt_count_fds();
    for (;;) {
        long long f0 = vt_fault_fired(); S.s = 0; if (!gracht_server_create(&cfg, &S.s)) break;
        refused(f0, "creating a server"); if (S.own_epoll) VT_CHECK(fcntl(S.epfd, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed by a server that could not be created");
        VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a server that could not be created leaves %d descriptors behind", vt_count_fds() - fds); if (!vt_settle(threads_back, &th)) vt_viol("thread-leak", "a server that could not be created leaves %d threads behind", vt_count_threads() - th);
    }
    if (!S.own_epoll) S.epfd = gracht_server_get_aio_handle(S.s);
    struct sockaddr_un a; snprintf(S.path, sizeof S.path, "%s/f%d", vt_scratch(), g_seq++); struct gracht_link* l = mk_link(gracht_link_stream_based, &a, upath(&a, S.path), 1);
    for (;;) { fds = vt_count_fds(); long long f0 = vt_fault_fired(); if (!gracht_server_add_link(S.s, l)) break; refused(f0, "adding a stream link"); VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a link that could not be added leaves %d descriptors behind", vt_count_fds() - fds); unlink(S.path); }
    struct srv t = S; if (t.family == 2) { struct sockaddr_un* u = (void*)&t.daddr; char p[108]; snprintf(p, sizeof p, "%s/d%d", vt_scratch(), g_seq++); t.dlen = upath(u, p); } else { int fd = socket(t.family == 1 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0); if (fd < 0) { t.family = 0; fd = socket(AF_INET, SOCK_DGRAM, 0); } memset(&t.daddr, 0, sizeof t.daddr); if (t.family == 1) { struct sockaddr_in6* i6 = (void*)&t.daddr; i6->sin6_family = AF_INET6; i6->sin6_addr = in6addr_loopback; t.dlen = sizeof *i6; } else { struct sockaddr_in* i4 = (void*)&t.daddr; i4->sin_family = AF_INET; i4->sin_addr.s_addr = htonl(INADDR_LOOPBACK); t.dlen = sizeof *i4; } socklen_t q = t.dlen; if (bind(fd, (void*)&t.daddr, t.dlen) || getsockname(fd, (void*)&t.daddr, &q)) vt_internal("no port"); close(fd); }
    S = t; l = mk_link(gracht_link_packet_based, &S.daddr, S.dlen, 1); int taken = 0;
    for (;;) {
        fds = vt_count_fds(); long long f0 = vt_fault_fired(); if (!gracht_server_add_link(S.s, l)) break;
        if (errno == EADDRINUSE && vt_fault_fired() == f0 && taken++ < 20) vt_usleep(1000); else refused(f0, "adding a datagram link");
        VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a link that could not be added leaves %d descriptors behind", vt_count_fds() - fds); if (S.family == 2) unlink(((struct sockaddr_un*)&S.daddr)->sun_path);
    }
}
#define NX 24
static gracht_protocol_t xp[NX];
static void protocols_up(void) {
    TRY("registering a service", gracht_server_register_protocol(S.s, &rt_server_protocol));
    for (int i = 0; i < NX; i++) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)(100 + i), "x", rt_server_protocol.num_functions, rt_server_protocol.functions); xp[i] = p; TRY("registering a service", gracht_server_register_protocol(S.s, &xp[i])); }
    for (int i = 0; i < NX; i += 2) gracht_server_unregister_protocol(S.s, &xp[i]);
    for (int i = 0; i < NX; i += 2) { TRY("registering a service again", gracht_server_register_protocol(S.s, &xp[i])); }
    errno = 0; VT_CHECK(gracht_server_register_protocol(S.s, &xp[3]) == -1, "registered-twice", "a service number can be registered twice");
}
/* ---- one client ---- */
struct cl { gracht_client_t* c; int dgram, conn; long long born; };
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "an event arrived with other values than were sent"); inc(&n_events); }
static gracht_protocol_t ep[NX]; static __thread int t_events; static void ev_x(gracht_client_t* c, gracht_buffer_t* b) { struct req r; (void)c; get_req(b, &r); VT_CHECK(r.n < 100000 && vt_verify(r.data, r.n, r.token), "event-corrupt", "an event arrived with other values than were sent"); t_events++; inc(&n_events); vt_progress(); }
static gracht_protocol_function_t ep_f[] = { { E_TICK, ev_x } }; VT_TABLE(ep_f, 0)
static void client_up(struct cl* k, int dgram) {
    struct sockaddr_un a; gracht_client_configuration_t cfg; k->dgram = dgram; k->conn = -1; k->c = 0; k->born = vt_fault_fired();   /* accepting may fail before connecting returns */
    struct gracht_link* l = dgram ? mk_link(gracht_link_packet_based, &S.daddr, S.dlen, 0) : mk_link(gracht_link_stream_based, &a, upath(&a, S.path), 0);
    gracht_client_configuration_init(&cfg); gracht_client_configuration_set_link(&cfg, l); gracht_client_configuration_set_max_msg_size(&cfg, 4096); cfg.recv_buffer_size = 64 * 1024;
    TRY("creating a client", gracht_client_create(&cfg, &k->c));
    for (;;) { long long f0 = vt_fault_fired(); if (!gracht_client_connect(k->c)) break; if (vt_fault_fired() == f0 && (errno == EAGAIN || errno == EINTR)) { vt_usleep(200); continue; } refused(f0, "connecting");
        if (vt_below(3) == 0) { /* give up on this client; whatever got a descriptor meanwhile must not notice */
            int mine[6]; for (int i = 0; i < 6; i++) mine[i] = open("/dev/null", O_RDONLY); gracht_client_shutdown(k->c); k->c = 0; for (int i = 0; i < 6; i++) { VT_CHECK(mine[i] < 0 || fcntl(mine[i], F_GETFD) >= 0, "closed-foreign", "shutting down a client that could not connect closes a descriptor of something else"); if (mine[i] >= 0) close(mine[i]); }
            inc(&n_given_up); client_up(k, dgram); return; }
        if (g_level > 200) vt_usleep(200); }
    for (int i = 0; i < NX; i++) TRY("registering for events", gracht_client_register_protocol(k->c, &ep[i]));
    for (int i = 0; i < NX; i += 2) gracht_client_unregister_protocol(k->c, &ep[i]);
    for (int i = 0; i < NX; i += 2) TRY("registering for events again", gracht_client_register_protocol(k->c, &ep[i]));
}
static void client_down(struct cl* k) { if (k->c) gracht_client_shutdown(k->c); k->c = 0; }
/* starts a call: 1 started, 0 connection lost. What could not be sent must never run. */
static int start(struct cl* k, struct call* q, uint8_t svc, int act, uint32_t n, uint32_t rn) {
    for (;;) {
        long long f0 = vt_fault_fired(); memset(q, 0, sizeof *q); q->token = tk_new(K_NORMAL); q->act = act; q->resp_n = rn; atomic_store(&tk_act[tk_idx(q->token)], act);
        if (!cl_call(k->c, &q->ctx, svc, (uint8_t)act, q->token, ARG(0, rn), n)) return 1;
        int e = errno; atomic_store(&tk_kind[tk_idx(q->token)], K_FORBIDDEN); inc(&n_unsent); VT_CHECK(!tk_ran(q->token), "forbidden-executed", "a call that was reported as not sent was executed");
        if (e == EPIPE && !k->dgram) { errno = e; lost(k->born, "sending"); return 0; }
        gracht_buffer_t nb; int st_ = gracht_client_get_status_buffer(k->c, &q->ctx, &nb); VT_CHECK(st_ != GRACHT_MESSAGE_INPROGRESS && st_ != GRACHT_MESSAGE_COMPLETED, "unsent-outstanding", "the status of a call that was reported as not sent is %s", st_ == GRACHT_MESSAGE_COMPLETED ? "completed" : "in progress");
        errno = e; refused(f0, "a call"); if (g_level > 200) vt_usleep(100);
    }
}
/* waits for a call: 1 completed, 0 connection lost */
static int finish_call(struct cl* k, struct call* q) {
    for (;;) {
        if (!gracht_client_wait_message(k->c, &q->ctx, GRACHT_MESSAGE_BLOCK)) break;
        if (k->dgram) vt_viol("wait-failed", "waiting for a datagram client's call fails (errno %d)", errno);
        lost(k->born, "waiting"); return 0;
    }
    VT_CHECK(call_collect(k->c, q, &k->conn) == GRACHT_MESSAGE_COMPLETED, "wait-early", "waiting for a call returned success but it is not completed"); inc(&n_calls); vt_progress(); return 1;
}
static int one_call(struct cl* k) { struct call q; uint8_t svc = vt_rand() & 1 ? SVC : (uint8_t)(100 + vt_below(NX)); return start(k, &q, svc, vt_below(3) ? A_ECHO : A_DEFER, vt_below(200), vt_below(200)) && finish_call(k, &q); }
/* a client that lost its connection starts over */
static void working_client(struct cl* k, int dgram) { for (;;) { client_up(k, dgram); if (one_call(k)) return; client_down(k); } }
static int many_calls(struct cl* k, int n) {
    static __thread struct call q[64]; int i; for (i = 0; i < n; i++) if (!start(k, &q[i], SVC, A_DEFER, vt_below(100), vt_below(100))) return 0;
    for (i = n - 1; i >= 0; i--) if (!finish_call(k, &q[i])) return 0;
    return 1;
}
/* a message that arrives in pieces, and one that leaves in pieces */
static int pieces(struct cl* k) {
    uint8_t* b = malloc(65536); (void)k; long long f0 = vt_fault_fired(); int ok = 0, fd = raw_connect_unix(S.path); if (fd < 0) vt_internal("raw connect");
    for (int j = 0; j < 3; j++) {
        uint64_t t = tk_new(K_NORMAL); uint32_t len = raw_msg(b, (uint32_t)j + 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 3000), 3000), at = 0, got = 0, cut = 1 + vt_below(len - 1); uint32_t at2 = vt_rand() & 1 ? cut : cut + vt_below(len - cut);
        if (raw_write(fd, b, cut)) break; vt_usleep((int)vt_below(1500)); if (raw_write(fd, b + cut, at2 - cut)) break; if (at2 > cut) vt_usleep((int)vt_below(1500)); at = at2; if (raw_write(fd, b + at, len - at)) break; inc(&n_big);
        /* an event for a client whose connection has just failed may reach the one that was given its handle */
        int st; while ((st = raw_read_msg(fd, b, 65536, &got)) == 1 && b[10] == MESSAGE_FLAG_EVENT) {}
        if (st != 1) break;
        VT_CHECK(got == HDR + REQ_FIXED + 3000 && !memcmp(b, &(uint32_t){ (uint32_t)j + 7 }, 4) && vt_verify(b + HDR + REQ_FIXED, 3000, t ^ RESP), "response-corrupt", "a response arrived with other values than were sent"); if (j == 2) ok = 1;
    }
    if (!ok) lost(f0, "in the middle of a message"); close(fd); free(b); vt_progress(); return ok;
}
/* more buffers at once than the server keeps room for */
static int g_bufs = 20;   /* more than the pool has room for at first, by one and by many */
static void buffers(void) { gracht_buffer_t b[20]; int n = g_bufs; for (int i = 0; i < n; i++) TRY("getting a buffer", gracht_server_get_buffer(S.s, &b[i])); for (int i = 0; i < n; i++) { memset(b[i].data, i, 4096); put_hdr(&b[i], SVC, E_TICK, MESSAGE_FLAG_EVENT); put_req(&b[i], tk_new(0), SVC, 5); errno = 0; VT_CHECK(gracht_server_send_event(S.s, 4050, &b[i], 0) == -1, "send-to-gone", "an event to nobody reports success"); } vt_progress(); }
static int events(struct cl* k) {
    int svc = 140 + (int)vt_below(NX);
    for (int n = 0;; n++) {
        long long f0 = vt_fault_fired(); while (cl_subscribe(k->c, (uint8_t)svc, 1)) { if (errno == EPIPE && !k->dgram) { lost(k->born, "subscribing"); return 0; } refused(f0, "subscribing"); f0 = vt_fault_fired(); }
        if (!one_call(k)) return 0;   /* the subscription has been handled */
        for (;;) {
            int want = t_events + 1; long long f1 = vt_fault_fired(); int st = ev_send(S.s, k->conn, (uint8_t)svc, E_TICK, tk_new(0), vt_below(300), GRACHT_MESSAGE_BLOCK);
            if (st == -2) { refused(f1, "getting a buffer"); continue; }
            if (st && errno == ENOBUFS && vt_fault_fired() > f1) { vt_usleep(100); continue; }
            if (st) { if (!k->dgram) { lost(k->born, "sending an event"); return 0; } refused(f0, "subscribing over datagrams"); break; }
            while (t_events < want) { if (gracht_client_wait_message(k->c, NULL, GRACHT_MESSAGE_BLOCK)) { if (k->dgram) vt_viol("wait-failed", "waiting for an event fails (errno %d)", errno); lost(k->born, "waiting for an event"); return 0; } }
            inc(&n_subs); return 1;
        }
        if (g_level > 200) vt_usleep(200);
    }
}
static void* life(void* a) {
    int n = (int)(intptr_t)a; struct cl k, held[16]; vt_progress(); int nh = 14; for (int i = 0; i < nh; i++) working_client(&held[i], 0);   /* more clients than the first table holds */
    for (int r = 0; r < n; r++) {
        int dg = (int)vt_below(2); working_client(&k, dg); inc(&n_lives);
        if (vt_rand() & 1) { if (!many_calls(&k, dg ? 16 : 40)) { client_down(&k); continue; } }
        if (!events(&k)) { client_down(&k); continue; }
        pieces(&k); buffers(); if (!one_call(&k)) { client_down(&k); continue; }
        if (dg) { long long f0 = vt_fault_fired(); while (cl_subscribe(k.c, 0xFF, 0)) { refused(f0, "unsubscribing"); f0 = vt_fault_fired(); } if (!one_call(&k)) vt_internal("datagram client lost"); }
        client_down(&k);
        int h = (int)vt_below((uint32_t)nh); if (!one_call(&held[h])) { client_down(&held[h]); working_client(&held[h], 0); }
    }
    for (int i = 0; i < nh; i++) { if (!one_call(&held[i])) { client_down(&held[i]); working_client(&held[i], 0); } }
    for (int i = 0; i < nh; i++) client_down(&held[(i * 5 + 3) % nh]);
    return 0;
}
static int balanced(void* a) { (void)a; return ldl(&n_conn) == ldl(&n_disc); }
static void round_(int threads, int lives) {
    long long f0 = vt_fault_fired(); atomic_store(&n_affected, 0); atomic_store(&n_conn, 0); atomic_store(&n_disc, 0); int fds0 = vt_count_fds(), th = vt_count_threads(); inc(&n_rounds);
    server_up(); protocols_up(); int fds = vt_count_fds(); srv_start(&S); rt_responders_start(2); pthread_t t[8];
    for (int i = 0; i < threads; i++) pthread_create(&t[i], 0, life, (void*)(intptr_t)lives);
    for (int i = 0; i < threads; i++) pthread_join(t[i], 0);
    vt_fault_off(); long long fired = vt_fault_fired() - f0;
    VT_CHECK(ldl(&n_affected) <= fired, "more-affected", "%lld operations or connections failed although only %lld acquisitions had failed", ldl(&n_affected), fired);
    /* the shortage is over */
    g_level = 0; long long before = ldl(&n_affected); struct cl k; for (int i = 0; i < 2; i++) { working_client(&k, i); if (!many_calls(&k, 14) || !events(&k)) vt_viol("not-recovered", "a client does not get its results after the shortage"); if (i) { cl_subscribe(k.c, 0xFF, 0); if (!one_call(&k)) vt_viol("not-recovered", "a client does not get its results after the shortage"); } client_down(&k); } VT_CHECK(ldl(&n_affected) == before, "not-recovered", "operations fail after the shortage");
    if (!vt_settle(balanced, 0)) vt_viol("announce", "%lld connects and %lld disconnects were announced", ldl(&n_conn), ldl(&n_disc));
    if (!vt_settle(fds_back, &fds)) vt_viol("descriptor-leak", "%d descriptors are open after every client left (were %d before)", vt_count_fds(), fds);
    rt_responders_stop(); srv_stop(&S); if (vt_count_fds() > fds0) vt_viol("descriptor-leak", "%d descriptors are left behind", vt_count_fds() - fds0); if (!vt_settle(threads_back, &th)) vt_viol("thread-leak", "%d threads are left behind", vt_count_threads() - th);
    vt_progress();
}
void scen_faults(void) {
    { static const int n[] = { 20, 9, 17, 10 }; g_bufs = n[vt_below(4)]; }
    ev_callback = on_event; int mode = (int)vt_arg("mode", 0), threads = (int)vt_arg("threads", 1), lives = (int)vt_arg("lives", 1), mask = (int)vt_arg("mask", F_ALL);
    for (int i = 0; i < NX; i++) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)(140 + i), "x", 1, ep_f); ep[i] = p; }
    round_(1, 1);
    if (mode == 0) { /* every single acquisition in turn */
        long long at = vt_arg("from", 0), step = vt_arg("step", 1), end = at + 1;
        for (; at < end && ldl(&n_enum) < vt_arg("rounds", 400); at += step) { g_level = 1; long long f = vt_fault_fired(); vt_fault_nth(mask, at, (int)vt_arg("burst", 1)); round_(1, lives); if (vt_fault_seen() > end) end = vt_fault_seen(); if (vt_fault_fired() > f) inc(&n_enum); }
        vt_stat("single_failures", ldl(&n_enum));
    } else for (int i = 0; i < (int)vt_arg("rounds", 10); i++) { static const int lv[] = { 3, 10, 30, 100, 300 }; g_level = lv[vt_below(5)]; vt_fault_prob(mask, g_level); round_(threads, lives); }
    vt_fault_stats(); vt_stat("rounds", ldl(&n_rounds)); vt_stat("operations_refused", ldl(&n_refused)); vt_stat("connections_lost", ldl(&n_lost)); vt_stat("calls_completed", ldl(&n_calls)); vt_stat("events_received", ldl(&n_events)); vt_stat("clients", ldl(&n_lives)); vt_stat("messages_in_pieces", ldl(&n_big)); vt_stat("calls_not_sent", ldl(&n_unsent)); vt_stat("clients_given_up", ldl(&n_given_up));
    vt_sample("faults: %lld of the library's acquisitions failed, %lld operations were refused and repeated, %lld connections lost, %lld calls completed", vt_fault_fired(), ldl(&n_refused), ldl(&n_lost), ldl(&n_calls));
}
