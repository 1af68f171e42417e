/* Ledger of tokens and the server side handlers shared by the runtime scenarios. */
#ifndef VT_RT_H
#define VT_RT_H
#include "core.h"
#define MAXTOK (1u << 20)
#define RESP   0x5a5a000000000000ULL
enum { K_NORMAL = 0, K_FORBIDDEN = 1 };
/* token = salt | index; index 0 is never used */
uint64_t tk_new(int kind);
static inline uint32_t tk_idx(uint64_t t) { return (uint32_t)(t & (MAXTOK - 1)); }
int      tk_valid(uint64_t t);
uint32_t tk_count(void);
extern _Atomic uint8_t  tk_exec[MAXTOK];      /* how often the handler ran */
extern _Atomic uint8_t  tk_kind[MAXTOK], tk_bg[MAXTOK];
extern _Atomic int      tk_conn[MAXTOK];      /* the connection the server attributed it to */
extern _Atomic uint8_t  tk_done[MAXTOK];      /* its caller has collected the answer */
extern _Atomic uint8_t  tk_resp[MAXTOK];      /* 1 answered, 2 the answer was refused */
extern _Atomic int      tk_act[MAXTOK];       /* the action that was requested, 0 = any */
static inline int tk_ran(uint64_t t) { return atomic_load_explicit(&tk_exec[tk_idx(t)], memory_order_relaxed); }

#define ARG(sleepclass, respn) (((uint32_t)(respn) << 8) | (uint32_t)(sleepclass))
extern gracht_protocol_t rt_server_protocol;  /* SVC, all actions */
extern atomic_llong rt_handled, rt_responded, rt_deferred, rt_respond_fail, rt_malformed;
extern atomic_int   rt_stopped;               /* set once the server has stopped: handlers must not start any more */
extern int          rt_tolerate_malformed;
extern uint32_t     rt_size_limit;            /* no handler may see a larger message */
extern void       (*rt_on_handler)(struct gracht_message*, int action, struct req*);

void app_errno(void);                         /* leaves some errno behind, as an application's callback may */
void rt_final(void);
void rt_responders_start(int n);
void rt_responders_stop(void);                /* answers everything that is still deferred */
int  rt_pending(void);
void rt_discard(void);                        /* drops all deferred messages unanswered */
void rt_hold(int hold);                       /* responders hold back */

/* events: token identifies it, arg = service */
int ev_send(gracht_server_t* s, gracht_conn_t c, uint8_t svc, uint8_t ev, uint64_t token, uint32_t n, unsigned flags);
int ev_broadcast(gracht_server_t* s, uint8_t svc, uint8_t ev, uint64_t token, uint32_t n, unsigned flags);

/* client side event protocols for a set of services; the callback gets the service it was registered for */
#define NSVC 12
extern uint8_t ev_services[NSVC];
void rt_services(void);   /* picks them */
extern void (*ev_callback)(gracht_client_t*, int svc, int ev, struct req*, int ok);
void ev_register(gracht_client_t* c);
static inline int ld(atomic_int* a) { return atomic_load_explicit(a, memory_order_relaxed); }
static inline long long ldl(atomic_llong* a) { return atomic_load_explicit(a, memory_order_relaxed); }
static inline void inc(atomic_llong* a) { atomic_fetch_add_explicit(a, 1, memory_order_relaxed); }

/* complete a call with a context and check everything about the result. */
struct call { struct gracht_message_context ctx; uint64_t token; uint32_t resp_n; int act; int done; int bad; };
int  call_start(gracht_client_t* c, struct call* k, int act, uint32_t n, uint32_t resp_n, int sleepclass);
/* status; verifies a completed one */
int  call_collect(gracht_client_t* c, struct call* k, int* conn);
void call_done_checks(struct call* k, int conn);
void call_sync(gracht_client_t* c, int act, uint32_t n, uint32_t resp_n, int* conn);   /* call, wait, collect; violation on failure */
#endif
