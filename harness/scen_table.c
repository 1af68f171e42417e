struct scenario { const char* name; void (*run)(void); };
#define L X(calls) X(burst) X(events) X(waits) X(unsupported) X(hostile_server) X(hostile_client) X(churn) X(shutdown) X(dgram) X(sizes) X(api) X(arena) X(containers) X(reuse) X(soak) X(flood) X(span) X(exhaust) X(identity) X(reentry) X(links) X(faults)
#define X(n) __attribute__((weak)) void scen_##n(void);
L
#undef X
#define X(n) { #n, scen_##n },
struct scenario vt_scenarios[] = { L { 0, 0 } };
