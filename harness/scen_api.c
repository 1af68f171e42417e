#include "rt.h"
#include <fcntl.h>
#include <sys/epoll.h>
/* C18: wrong use is refused and leaves everything working. */
static struct srv S; static gracht_client_t* C; static int g_conn; static atomic_llong n_neg, n_health, n_kind[64], n_rounds; static atomic_llong n_ev;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "event corrupt"); inc(&n_ev); }
static void refuse(int st, const char* what) { inc(&n_neg); VT_CHECK(st == -1, "not-refused", "%s is not refused (returned %d)", what, st); }
static void health(gracht_client_t* c, int* conn) { call_sync(c, vt_rand() & 1 ? A_ECHO : A_BIG, vt_below(100), vt_below(100), conn); inc(&n_health); }
static struct gracht_link* mk_link(int type, int domain, const void* addr, socklen_t l, int listen) {
    struct gracht_link_socket* link; struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); memcpy(&ss, addr, l); if (gracht_link_socket_create(&link)) vt_internal("link");
    gracht_link_socket_set_type(link, type); gracht_link_socket_set_domain(link, domain); gracht_link_socket_set_address(link, &ss, l); gracht_link_socket_set_listen(link, listen); return (struct gracht_link*)link;
}
static struct gracht_link* unix_link(const char* path, int listen) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", path); return mk_link(gracht_link_stream_based, AF_UNIX, &a, sizeof a, listen); }
static struct gracht_link* packet_link(const char* path) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", path); return mk_link(gracht_link_packet_based, AF_UNIX, &a, sizeof a, 1); }
static void free_link(struct gracht_link* l) { free(l); }   /* a link that was never accepted still belongs to the application */
static void h_alt(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; vt_viol("replaced", "registering a service number twice replaced the registered service"); }
static gracht_protocol_function_t alt_f[] = { { A_ECHO, h_alt }, { A_BIG, h_alt }, { A_DEFER, h_alt } };
static gracht_protocol_t alt_p = GRACHT_PROTOCOL_INIT(17, "alt", 3, alt_f); VT_TABLE(alt_f, &alt_p.id) static gracht_protocol_t zero_p = GRACHT_PROTOCOL_INIT(0, "zero", 3, alt_f);
static int handled_50; static void h_50(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; __atomic_add_fetch(&handled_50, 1, __ATOMIC_RELAXED); }
static gracht_protocol_function_t f50[] = { { 1, h_50 } }; VT_TABLE(f50, 0) static gracht_protocol_t p50 = GRACHT_PROTOCOL_INIT(50, "fifty", 1, f50);
#define KINDS 21
static void one(int kind) {
    struct gracht_message_context x, *xs[3], y; gracht_buffer_t b; inc(&n_kind[kind]); memset(&x, 0, sizeof x); gracht_server_t* so = 0; gracht_client_t* co = 0; gracht_server_configuration_t sc; gracht_client_configuration_t cc; int fds = vt_count_fds();
    switch (kind) {
    case 0: gracht_server_configuration_init(&sc); refuse(gracht_server_create(NULL, &so), "creating a server without configuration"); refuse(gracht_server_create(&sc, NULL), "creating a server without a result"); break;
    case 1: gracht_client_configuration_init(&cc); refuse(gracht_client_create(NULL, &co), "creating a client without configuration"); refuse(gracht_client_create(&cc, &co), "creating a client without a link"); { struct gracht_link* l = unix_link(S.path, 0); gracht_client_configuration_set_link(&cc, l); refuse(gracht_client_create(&cc, NULL), "creating a client without a result"); free_link(l); } break;
    case 2: refuse(gracht_server_add_link(NULL, NULL), "adding a link to nothing"); refuse(gracht_server_add_link(S.s, NULL), "adding no link"); break;
    case 3: refuse(gracht_server_register_protocol(NULL, &p50), "registering on no server"); refuse(gracht_server_register_protocol(S.s, NULL), "registering no service"); gracht_server_unregister_protocol(NULL, &p50); gracht_server_unregister_protocol(S.s, NULL); break;
    case 4: refuse(gracht_server_register_protocol(S.s, &alt_p), "registering a service number twice"); break;
    case 5: refuse(gracht_server_register_protocol(S.s, &zero_p), "registering the reserved service number"); break;
    case 6: refuse(gracht_client_connect(NULL), "connecting no client"); refuse(gracht_client_connect(C), "connecting twice"); VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a refused connect changes the number of descriptors from %d to %d", fds, vt_count_fds()); break;
    case 7: refuse(gracht_client_register_protocol(NULL, &p50), "registering on no client"); refuse(gracht_client_register_protocol(C, NULL), "registering no protocol"); gracht_client_unregister_protocol(NULL, &p50); gracht_client_unregister_protocol(C, NULL); gracht_client_unregister_protocol(C, &p50); break;
    case 8: x.message_id = 0x7000000u + vt_below(1000); refuse(gracht_client_wait_message(C, &x, GRACHT_MESSAGE_BLOCK), "waiting for an unknown call"); refuse(gracht_client_wait_message(C, &x, 0), "polling for an unknown call"); break;
    case 9: x.message_id = 0x7000000u + vt_below(1000); memset(&b, 0, sizeof b); refuse(gracht_client_get_status_buffer(C, &x, &b), "collecting an unknown call"); refuse(gracht_client_get_status_buffer(C, NULL, &b), "collecting no call"); refuse(gracht_client_get_status_buffer(NULL, &x, &b), "collecting from no client"); refuse(gracht_client_get_status_buffer(C, &x, NULL), "collecting into nothing"); refuse(gracht_client_invoke(NULL, &x, &b), "a call of no client"); refuse(gracht_client_invoke(C, &x, NULL), "a call without content"); break;
    case 10: refuse(cl_call(C, NULL, SVC, A_ECHO, tk_new(K_FORBIDDEN), 0, 3), "a call with a response but without a context"); break;
    case 11: xs[0] = &x; refuse(gracht_client_await_multiple(NULL, xs, 1, 0), "awaiting on no client"); refuse(gracht_client_await_multiple(C, NULL, 1, 0), "awaiting nothing"); refuse(gracht_client_await_multiple(C, xs, 0, 0), "awaiting zero calls"); refuse(gracht_client_await_multiple(C, xs, -1, 0), "awaiting a negative number of calls"); refuse(gracht_client_await(C, NULL, 0), "awaiting no call"); break;
    case 12: refuse(gracht_client_wait_message(NULL, NULL, 0), "waiting on no client"); refuse((int)gracht_client_iod(NULL), "the descriptor of no client"); gracht_client_shutdown(NULL); gracht_server_request_shutdown(NULL); refuse(gracht_server_main_loop(NULL), "running no server"); refuse(gracht_server_handle_event(NULL, 3, 1), "handling an event of no server"); refuse((int)gracht_server_get_aio_handle(NULL), "the poll descriptor of no server"); break;
    case 13: { struct gracht_message m; memset(&m, 0, sizeof m); uint8_t d[64]; b.data = (char*)d; b.index = 11; refuse(gracht_server_respond(NULL, &b), "responding to nothing"); refuse(gracht_server_respond(&m, NULL), "responding with nothing"); refuse(gracht_server_send_event(NULL, 3, &b, 0), "an event from no server"); refuse(gracht_server_send_event(S.s, 3, NULL, 0), "an event without content"); refuse(gracht_server_broadcast_event(NULL, &b, 0), "a broadcast from no server"); refuse(gracht_server_broadcast_event(S.s, NULL, 0), "a broadcast without content"); refuse(gracht_server_get_buffer(NULL, &b), "a buffer of no server"); gracht_server_defer_message(NULL, NULL); break; }
    case 14: refuse(ev_send(S.s, 4000 + (int)vt_below(50), SVC, E_TICK, tk_new(0), 5, vt_rand() & 1), "an event to an unknown client"); refuse(ev_send(S.s, -7, SVC, E_TICK, tk_new(0), 5, 0), "an event to an invalid client"); break;
    case 15: { /* a link that can not be bound: address in use, or an impossible path */
        int how = (int)vt_below(4); struct gracht_link* l = how == 0 ? unix_link(S.path, 1) : how == 1 ? unix_link("/nonexistent-dir/x/sock", 1) : packet_link(how == 2 ? S.path : "/nonexistent-dir/x/sock"); refuse(gracht_server_add_link(S.s, l), "a link that can not be bound"); VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a link that could not be bound leaves %d descriptors behind", vt_count_fds() - fds); free_link(l); break; }
    case 16: { /* a client that finds no server keeps working afterwards */
        char p[128]; snprintf(p, sizeof p, "%s/late%u", vt_scratch(), vt_below(1000000)); struct srv t = S; co = cl_create_unix(p, 0, 0); refuse(gracht_client_connect(co), "connecting to nothing"); VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a failed connect leaves %d descriptors behind", vt_count_fds() - fds); (void)t;
        int lf = raw_listen_unix(p); if (gracht_client_connect(co)) vt_viol("connect", "a client that failed to connect once can never connect (errno %d)", errno); int a = accept(lf, 0, 0); if (a < 0) vt_internal("accept"); if (cl_async(co, SVC, A_NOTIFY, tk_new(0), 0, 5)) vt_viol("call-failed", "send after late connect"); uint8_t m[100]; uint32_t l; VT_CHECK(raw_read_msg(a, m, 100, &l) == 1 && l == HDR + REQ_FIXED + 5, "late", "a late connected client sends something else"); close(a); close(lf); unlink(p); gracht_client_shutdown(co); break; }
    case 17: { /* outstanding call survives all kinds of refused operations */
        struct call k; if (call_start(C, &k, A_DEFER, 10, 20, 0)) vt_viol("call-failed", "send"); refuse(cl_call(C, NULL, SVC, A_ECHO, tk_new(K_FORBIDDEN), 0, 3), "a call with a response but without a context"); y.message_id = k.ctx.message_id + 1000000; memset(&b, 0, sizeof b); refuse(gracht_client_get_status_buffer(C, &y, &b), "collecting an unknown call"); refuse(gracht_client_connect(C), "connecting twice");
        if (gracht_client_wait_message(C, &k.ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "errno %d", errno); VT_CHECK(call_collect(C, &k, &g_conn) == GRACHT_MESSAGE_COMPLETED, "lost", "an outstanding call is lost"); break; }
    case 18: { /* service registered, used, unregistered; twice unregistered */
        VT_CHECK(gracht_server_register_protocol(S.s, &p50) == 0, "register", "a free service number can not be registered"); refuse(gracht_server_register_protocol(S.s, &p50), "registering a service number twice"); int before = __atomic_load_n(&handled_50, __ATOMIC_RELAXED); if (cl_async(C, 50, 1, tk_new(0), 0, 3)) vt_viol("call-failed", "send"); int n = 0; while (__atomic_load_n(&handled_50, __ATOMIC_RELAXED) == before) { vt_usleep(100); VT_CHECK(n++ < 300000, "register", "a registered service is never invoked"); } gracht_server_unregister_protocol(S.s, &p50); gracht_server_unregister_protocol(S.s, &p50); break; }
    case 19: { /* more memory than the library can manage */
        int th = vt_count_threads(), n = 0; gracht_server_configuration_init(&sc); gracht_server_configuration_set_num_workers(&sc, 2 + (int)vt_below(7)); gracht_server_configuration_set_max_msg_size(&sc, (40 << 20) + (int)vt_below(1000 << 20)); int own = vt_rand() & 1, ep = -1; if (own) { ep = epoll_create1(0); gracht_server_configuration_set_aio_descriptor(&sc, ep); }
        refuse(gracht_server_create(&sc, &so), "a server that needs more memory than supported"); if (own) { VT_CHECK(fcntl(ep, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed"); close(ep); } VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "a server that could not be created leaves %d descriptors behind", vt_count_fds() - fds);
        while (vt_count_threads() > th) { VT_CHECK(n++ < 3000, "thread-leak", "a server that could not be created leaves %d threads behind", vt_count_threads() - th); vt_usleep(1000); } break; }
    case 20: { /* the same for a client */
        static uint8_t own_buf[64]; struct gracht_link* l = unix_link(S.path, 0); gracht_client_configuration_init(&cc); gracht_client_configuration_set_link(&cc, l); gracht_client_configuration_set_send_buffer(&cc, own_buf); gracht_client_configuration_set_max_msg_size(&cc, 0x40000000 - (int)vt_below(20) + (vt_rand() & 1 ? (int)vt_below(0x3fffffff) : 0)); if (vt_rand() & 1) gracht_client_configuration_set_recv_buffer(&cc, NULL, 0x7fffffff - (int)vt_below(60));
        refuse(gracht_client_create(&cc, &co), "a client that needs more memory than supported"); free_link(l); break; }
    }
}
static void links_limit(void) {
    struct srv s; memset(&s, 0, sizeof s); s.workers = (int)vt_below(3); srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol); char p[6][128]; int fds0 = -1; struct sockaddr_un a; (void)a;
    for (int i = 0; i < 6; i++) snprintf(p[i], 128, "%s/l%d_%u", vt_scratch(), i, vt_below(100000000));
    struct gracht_link* bad = vt_rand() & 1 ? unix_link("/nonexistent-dir/x/sock", 1) : packet_link("/nonexistent-dir/x/sock"); int at = (int)vt_below(4), n = 0;
    for (int i = 0; i < 4; i++) {
        if (i == at) { fds0 = vt_count_fds(); refuse(gracht_server_add_link(s.s, bad), "a link that can not be bound"); VT_CHECK(vt_count_fds() == fds0, "descriptor-leak", "a link that could not be bound leaves descriptors behind"); }
        VT_CHECK(gracht_server_add_link(s.s, unix_link(p[i], 1)) == 0, "addlink", "link %d of 4 is refused%s (errno %d)", i + 1, i >= at ? " after an unusable one" : "", errno); n++;
    }
    fds0 = vt_count_fds(); struct gracht_link* l5 = unix_link(p[4], 1); refuse(gracht_server_add_link(s.s, l5), "more links than supported"); VT_CHECK(vt_count_fds() == fds0, "descriptor-leak", "a refused link leaves descriptors behind"); free_link(l5); free_link(bad);
    s.stream = 1; snprintf(s.path, sizeof s.path, "%s", p[0]); srv_start(&s);
    for (int i = 0; i < 4; i++) { gracht_client_t* c = cl_connect_unix(p[i], 0, 0); int conn = -1; health(c, &conn); gracht_client_shutdown(c); }
    srv_stop(&s); for (int i = 0; i < 4; i++) unlink(p[i]);
}
/* after a shutdown request, everything that changes the server is refused */
static void after_request(void) {
    struct srv s; memset(&s, 0, sizeof s); s.workers = (int)vt_below(4); s.stream = 1; s.own_epoll = (int)(vt_rand() & 1); srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol); gracht_server_request_shutdown(s.s); int fds = vt_count_fds();
    char p[128]; snprintf(p, 128, "%s/ar%u", vt_scratch(), vt_below(100000000)); struct gracht_link* l = unix_link(p, 1); refuse(gracht_server_add_link(s.s, l), "adding a link after a shutdown request"); free_link(l); refuse(gracht_server_register_protocol(s.s, &p50), "registering a service after a shutdown request"); refuse((int)gracht_server_get_aio_handle(s.s), "the poll descriptor after a shutdown request"); gracht_server_unregister_protocol(s.s, &rt_server_protocol); gracht_server_request_shutdown(s.s);
    VT_CHECK(vt_count_fds() == fds, "descriptor-leak", "refused operations leave descriptors behind"); srv_start(&s); srv_poke(&s); pthread_join(s.thread, 0); if (s.own_epoll) { VT_CHECK(fcntl(s.epfd, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed"); close(s.epfd); } unlink(s.path);
}
/* a supplied send buffer is used for what is sent, and never freed */
static void own_buffer(void) {
    static uint8_t mem[4096]; gracht_client_configuration_t cc; gracht_client_t* c; gracht_client_configuration_init(&cc); gracht_client_configuration_set_link(&cc, unix_link(S.path, 0)); int max = 300 + (int)vt_below(1700); gracht_client_configuration_set_max_msg_size(&cc, max); memset(mem, 0xEE, sizeof mem); gracht_client_configuration_set_send_buffer(&cc, mem + 16);
    if (gracht_client_create(&cc, &c)) vt_viol("create", "a client with its own send buffer is refused"); int i = 0; while (gracht_client_connect(c)) { VT_CHECK(i++ < 2000, "connect", "errno %d", errno); vt_usleep(200); }
    gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) vt_viol("buffer", "no buffer"); VT_CHECK(b.data == (char*)mem + 16, "config-ignored", "the supplied send buffer is not used"); put_hdr(&b, SVC, A_ECHO, MESSAGE_FLAG_SYNC); put_req(&b, tk_new(0), ARG(0, 4), 4); struct gracht_message_context x; if (gracht_client_invoke(c, &x, &b)) vt_viol("call-failed", "send"); if (gracht_client_wait_message(c, &x, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "errno %d", errno);
    uint64_t t; uint32_t ar, n; int ok; VT_CHECK(cl_result(c, &x, &t, &ar, &n, &ok) == GRACHT_MESSAGE_COMPLETED && ok, "lost", "no result");
    int conn = -1; call_sync(c, A_ECHO, (uint32_t)max - HDR - REQ_FIXED, 10, &conn); gracht_client_shutdown(c);
    for (int k = 0; k < 16; k++) VT_CHECK(mem[k] == 0xEE && mem[16 + max + k] == 0xEE, "config-overrun", "the library wrote outside the supplied send buffer"); mem[20] = 1;
}
/* a supplied poll descriptor may carry the application's own descriptors */
static void own_poll(void) {
    struct srv s; memset(&s, 0, sizeof s); s.workers = (int)vt_below(3); s.stream = 1; s.own_epoll = 1; s.selfdriven = 1; srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol); VT_CHECK(gracht_server_get_aio_handle(s.s) == s.epfd, "config-ignored", "the supplied poll descriptor is not used");
    srv_start(&s); gracht_client_t* c[3]; for (int i = 0; i < 3; i++) { c[i] = cl_connect_unix(s.path, 0, 0); int conn = -1; health(c[i], &conn); }
    gracht_client_shutdown(c[1]); int conn = -1; health(c[0], &conn); gracht_client_shutdown(c[0]); conn = -1; health(c[2], &conn); gracht_client_shutdown(c[2]);
    gracht_server_request_shutdown(s.s); srv_poke(&s); pthread_join(s.thread, 0); VT_CHECK(fcntl(s.epfd, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed");
    int pp[2]; if (pipe(pp)) vt_internal("pipe"); struct epoll_event ev = { .events = EPOLLIN, .data.fd = pp[0] }, got; VT_CHECK(epoll_ctl(s.epfd, EPOLL_CTL_ADD, pp[0], &ev) == 0, "closed-foreign", "the supplied poll descriptor is unusable after shutdown"); if (write(pp[1], "x", 1) != 1) vt_internal("write"); VT_CHECK(epoll_wait(s.epfd, &got, 1, 1000) == 1 && got.data.fd == pp[0], "closed-foreign", "the supplied poll descriptor is unusable after shutdown"); close(pp[0]); close(pp[1]); close(s.epfd); unlink(s.path);
}
void scen_api(void) {
    int rounds = (int)vt_arg("rounds", 120); S.workers = (int)vt_arg("workers", 2); S.stream = 1; ev_callback = on_event; srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(1);
    C = cl_connect_unix(S.path, 0, 0); ev_register(C); g_conn = -1; health(C, &g_conn); gracht_client_t* other = cl_connect_unix(S.path, 0, 0); int oc = -1; health(other, &oc);
    for (int i = 0; i < rounds; i++) { inc(&n_rounds); int n = 1 + (int)vt_below(4); for (int k = 0; k < n; k++) one(i < KINDS && k == 0 ? i : (int)vt_below(KINDS)); health(C, &g_conn); if (vt_below(4) == 0) health(other, &oc); if (vt_below(10) == 0) { VT_CHECK(ev_send(S.s, g_conn, SVC, E_TICK, tk_new(0), 5, 1) == 0, "event-send-failed", "event"); long long e = ldl(&n_ev); while (ldl(&n_ev) == e) if (gracht_client_wait_message(C, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "errno %d", errno); } }
    for (int i = 0; i < 6; i++) { links_limit(); after_request(); own_buffer(); own_poll(); health(C, &g_conn); vt_progress(); }
    rt_responders_stop(); gracht_client_shutdown(C); gracht_client_shutdown(other); srv_stop(&S);
    vt_stat("refused_operations", ldl(&n_neg)); vt_stat("health_checks", ldl(&n_health)); vt_stat("rounds", ldl(&n_rounds)); int d = 0; for (int i = 0; i < KINDS; i++) if (ldl(&n_kind[i])) d++; vt_stat("misuse_kinds", d);
    vt_sample("api: %lld refused operations of %d kinds, %lld calls in between all correct", ldl(&n_neg), d, ldl(&n_health));
}
