#include "core.h"
#include <dirent.h>
#include <stddef.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>

uint64_t vt_seed = 1;
int vt_perturb_level = 0, vt_io_level = 0;
static int vt_n_tcp; static int vt_spurious = 0; /* a separate switch: spurious wakeups also hide lost ones */
atomic_llong vt_n_perturb, vt_n_short_recv, vt_n_short_send, vt_n_sends, vt_n_recvs, vt_n_spurious;
static atomic_llong g_progress;
static atomic_int   g_paused;
static atomic_uint  g_thread_no;
static int g_argc; static char** g_argv;
static char g_scratch[128];
static const char* g_scenario = "?";

/* the monitor's own bookkeeping must not be race-checked against the library */
static __thread uint64_t t_rng;
uint64_t vt_rand(void) {
    if (!t_rng) t_rng = vt_mix(vt_seed * 0x9E3779B97F4A7C15ULL + 0x1234567 + 7919ULL * atomic_fetch_add(&g_thread_no, 1)) | 1;
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
    return t_rng * 0x2545F4914F6CDD1DULL >> 11;
}
long vt_arg(const char* name, long dflt) {
    for (int i = 2; i + 1 < g_argc; i++) if (!strncmp(g_argv[i], "--", 2) && !strcmp(g_argv[i] + 2, name)) return strtol(g_argv[i + 1], 0, 0);
    return dflt;
}
static void cleanup_scratch(void) {
    if (!g_scratch[0]) return;
    DIR* d = opendir(g_scratch);
    if (d) { struct dirent* e; while ((e = readdir(d))) { if (e->d_name[0] == '.') continue; char p[512]; snprintf(p, sizeof p, "%s/%s", g_scratch, e->d_name); unlink(p); } closedir(d); }
    rmdir(g_scratch);
}
static void finish(int code) { fflush(stdout); fflush(stderr); cleanup_scratch(); _exit(code); }
void vt_viol(const char* key, const char* fmt, ...) {
    static pthread_mutex_t once = PTHREAD_MUTEX_INITIALIZER;
    char b[2000]; va_list ap;
    pthread_mutex_lock(&once);
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
    printf("VIOL %s | %s\n", key, b);
    finish(10);
    abort();
}
void vt_internal(const char* fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("INTERNAL %s: %s\n", g_scenario, b);
    finish(12); abort();
}
void vt_stat(const char* n, long long v) { printf("STAT %s %lld\n", n, v); }
void vt_sample(const char* fmt, ...) {
    static atomic_int k; if (atomic_fetch_add(&k, 1) >= 6) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("SAMPLE %s\n", b);
}
/* the order in which threads make progress, and what they observe, identifies the execution */
static atomic_ullong g_trace; static __thread unsigned t_no; static atomic_uint g_tno;
static atomic_llong g_essential;               /* steps that are not taken on behalf of endless background threads */
__thread int vt_is_bg; static __thread long long t_bg_seen; static __thread int t_bg_n;
void vt_trace(uint64_t what) { if (!vt_is_bg) atomic_fetch_add_explicit(&g_essential, 1, memory_order_relaxed); vt_trace_bg(what); }
int vt_bg(atomic_int* stop) {
    vt_is_bg = 1;
    for (;;) {
        if (atomic_load_explicit(stop, memory_order_relaxed)) return 0;
        long long e = atomic_load_explicit(&g_essential, memory_order_relaxed);
        if (e != t_bg_seen) { t_bg_seen = e; t_bg_n = 0; }
        if (t_bg_n < 2000) { t_bg_n++; return 1; }
        vt_usleep(1000);
    }
}
void vt_trace_bg(uint64_t what) {
    if (!t_no) t_no = 1 + atomic_fetch_add_explicit(&g_tno, 1, memory_order_relaxed);
    uint64_t seq = (uint64_t)atomic_fetch_add_explicit(&g_progress, 1, memory_order_relaxed);
    atomic_fetch_add_explicit(&g_trace, vt_mix(seq * 0x9E3779B97F4A7C15ULL ^ vt_mix(what * 131 + t_no)), memory_order_relaxed);
}
void vt_progress(void) { vt_trace(0); }
void vt_pause_watch(int p) { atomic_store(&g_paused, p); }
const char* vt_scratch(void) { return g_scratch; }
long long vt_now_us(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
void vt_usleep(int us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000L }; nanosleep(&t, 0); }
void vt_msleep(int ms) { vt_usleep(ms * 1000); }

/* ---- hang detector: a verdict on logical state, not on elapsed time alone ---- */
static int all_sleeping(pid_t self) {
    DIR* d = opendir("/proc/self/task"); struct dirent* e; int ok = 1;
    if (!d) return 0;
    while (ok && (e = readdir(d))) {
        char p[300], b[512]; int fd, n; if (e->d_name[0] == '.') continue;
        if (atoi(e->d_name) == self) continue;
        snprintf(p, sizeof p, "/proc/self/task/%s/stat", e->d_name);
        fd = open(p, O_RDONLY); if (fd < 0) continue;
        n = (int)read(fd, b, sizeof b - 1); close(fd); if (n <= 0) continue; b[n] = 0;
        char* q = strrchr(b, ')'); if (q && q[2] != 'S' && q[2] != 't' && q[2] != 'T') ok = 0;
    }
    closedir(d); return ok;
}
static void dump_stacks(void) {
    DIR* d = opendir("/proc/self/task"); struct dirent* e; if (!d) return;
    while ((e = readdir(d))) {
        char p[300], b[200]; int fd, n; if (e->d_name[0] == '.') continue;
        snprintf(p, sizeof p, "/proc/self/task/%s/wchan", e->d_name); fd = open(p, O_RDONLY); n = 0;
        if (fd >= 0) { n = (int)read(fd, b, sizeof b - 1); close(fd); } if (n < 0) n = 0; b[n] = 0;
        printf("INFO thread %s blocked in %s\n", e->d_name, b);
    }
    closedir(d);
}
/* waits for a condition; gives up only when every other thread has been asleep for a long while */
int vt_settle(int (*cond)(void*), void* a) {
    pid_t self = (pid_t)syscall(SYS_gettid); int idle = 0; long long t0 = vt_now_us();
    vt_pause_watch(1);
    for (;;) {
        if (cond(a)) { vt_pause_watch(0); vt_progress(); return 1; }
        vt_msleep(10);
        if (all_sleeping(self)) idle++; else idle = 0;
        if (idle >= 500 || vt_now_us() - t0 > 120000000LL) { vt_pause_watch(0); return cond(a); }
    }
}
static double cpu_s(void) { struct rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) / 1e6; }
static void* watch(void* a) {
    (void)a; pid_t self = (pid_t)syscall(SYS_gettid);
    long long last = -1; int quiet = 0; double c0 = cpu_s();
    int limit = (int)vt_arg("hangticks", 40);
    for (;;) {
        vt_msleep(250);
        long long p = atomic_load(&g_essential);
        if (p != last || atomic_load(&g_paused)) { last = p; quiet = 0; c0 = cpu_s(); continue; }
        if (all_sleeping(self)) quiet++; else if (quiet) quiet--;
        if (quiet >= limit) { dump_stacks(); vt_viol("hang", "scenario %s: every thread is blocked and no operation completes any more (deadlock, after %lld steps)", g_scenario, p); }
        if (cpu_s() - c0 > 25.0) { dump_stacks(); vt_viol("livelock", "scenario %s: 25 CPU-seconds burnt without any operation completing (after %lld steps)", g_scenario, p); }
    }
    return 0;
}

/* ---- schedule perturbation ---- */
void vt_perturb(int site) {
    (void)site;
    if (!vt_perturb_level) return;
    uint64_t r = vt_rand();
    unsigned p = (unsigned)(r & 1023);
    unsigned lim = vt_perturb_level == 1 ? 20 : vt_perturb_level == 2 ? 80 : 200;
    if (p < lim) {
        atomic_fetch_add_explicit(&vt_n_perturb, 1, memory_order_relaxed);
        if ((r >> 10 & 7) < 5) sched_yield(); else vt_usleep(1 + (int)((r >> 13) % (vt_perturb_level * 60)));
    }
}
int vt_cnd_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    /* a condition wait may wake up without a signal; correct code has to cope */
    if (vt_spurious && (vt_rand() & 7) == 0) {
        struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 200000 + (long)vt_below(800000); if (t.tv_nsec >= 1000000000L) { t.tv_nsec -= 1000000000L; t.tv_sec++; }
        int r = pthread_cond_timedwait(c, m, &t);
        if (r == ETIMEDOUT) atomic_fetch_add_explicit(&vt_n_spurious, 1, memory_order_relaxed);
        return 0;
    }
    return pthread_cond_wait(c, m) ? 2 : 0;
}
/* ---- acquisitions that fail ---- */
static atomic_int f_mask, f_prob; static atomic_llong f_left, f_fired, f_seen, f_kind[7]; static atomic_int f_burst = 1;
static struct { char name[120]; long long n; } f_site[200]; static int f_nsite; static pthread_mutex_t f_lock = PTHREAD_MUTEX_INITIALIZER;
void vt_fault_off(void) { atomic_store(&f_mask, 0); }
void vt_fault_nth(int mask, long long n, int burst) { atomic_store(&f_mask, 0); atomic_store(&f_burst, burst); atomic_store(&f_prob, -1); atomic_store(&f_left, n); atomic_store(&f_seen, 0); atomic_store(&f_mask, mask); }
void vt_fault_prob(int mask, int permille) { atomic_store(&f_mask, 0); atomic_store(&f_prob, permille); atomic_store(&f_mask, mask); }
long long vt_fault_fired(void) { return atomic_load(&f_fired); }
long long vt_fault_seen(void) { return atomic_load(&f_seen); }
int vt_fault(int kind, const char* file, const char* func, const char* what) {
    if (!(atomic_load_explicit(&f_mask, memory_order_relaxed) & kind)) return 0;
    atomic_fetch_add(&f_seen, 1); int p = atomic_load(&f_prob);
    if (p >= 0) { if ((int)vt_below(1000) >= p) return 0; } else { long long l = atomic_fetch_sub(&f_left, 1); if (l > 0 || l <= -(long long)atomic_load(&f_burst)) return 0; }
    atomic_fetch_add(&f_fired, 1); for (int i = 0; i < 7; i++) if (kind == 1 << i) atomic_fetch_add(&f_kind[i], 1);
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file; if (b - file > 7 && !strncmp(b - 7, "socket/", 7)) b -= 7; char n[120]; snprintf(n, sizeof n, "failed:%s:%s:%s", b, func, what);
    pthread_mutex_lock(&f_lock); int i = 0; while (i < f_nsite && strcmp(f_site[i].name, n)) i++; if (i < 200) { if (i == f_nsite) { f_nsite++; strcpy(f_site[i].name, n); } f_site[i].n++; } pthread_mutex_unlock(&f_lock);
    return 1;
}
void vt_fault_stats(void) {
    static const char* k[7] = { "memory", "descriptor", "poll", "thread", "send", "nosend", "address" }; char b[64]; vt_stat("failed_acquisitions", vt_fault_fired());
    for (int i = 0; i < 7; i++) { snprintf(b, sizeof b, "failed_%s", k[i]); vt_stat(b, atomic_load(&f_kind[i])); }
    for (int i = 0; i < f_nsite; i++) vt_stat(f_site[i].name, f_site[i].n);
}
#define FAIL(kind, what, err, res) do { if (vt_fault(kind, file, func, what)) { errno = err; return res; } } while (0)
void* vt_lib_malloc(size_t n, const char* file, const char* func) { FAIL(F_MEMORY, "malloc", ENOMEM, 0); return malloc(n); }
void* vt_lib_calloc(size_t a, size_t n, const char* file, const char* func) { FAIL(F_MEMORY, "calloc", ENOMEM, 0); return calloc(a, n); }
void* vt_lib_realloc(void* p, size_t n, const char* file, const char* func) { if (n) FAIL(F_MEMORY, "realloc", ENOMEM, 0); return realloc(p, n); }
int vt_lib_accept(int s, struct sockaddr* a, socklen_t* l, const char* file, const char* func) { FAIL(F_DESCRIPTOR, "accept", vt_rand() & 1 ? EMFILE : ENOBUFS, -1); return accept(s, a, l); }
int vt_lib_accept4(int s, struct sockaddr* a, socklen_t* l, int f, const char* file, const char* func) { FAIL(F_DESCRIPTOR, "accept", vt_rand() & 1 ? EMFILE : ENOBUFS, -1); return accept4(s, a, l, f); }
int vt_lib_socket(int d, int t, int p, const char* file, const char* func) { FAIL(F_DESCRIPTOR, "socket", EMFILE, -1); return socket(d, t, p); }
int vt_lib_epoll_create1(int f, const char* file, const char* func) { FAIL(F_DESCRIPTOR, "epoll_create1", EMFILE, -1); return epoll_create1(f); }
int vt_lib_epoll_ctl(int e, int op, int fd, struct epoll_event* ev, const char* file, const char* func) { if (op == EPOLL_CTL_ADD) FAIL(F_POLL, "epoll_ctl", vt_rand() & 1 ? ENOSPC : ENOMEM, -1); return epoll_ctl(e, op, fd, ev); }
int vt_lib_epoll_wait(int e, struct epoll_event* ev, int n, int t) { if (vt_io_level && vt_below(40) == 0) { errno = EINTR; return -1; } return epoll_wait(e, ev, n, t); }
struct tstart { int (*f)(void*); void* a; };
static void* tmain(void* p) { struct tstart t = *(struct tstart*)p; free(p); vt_perturb(9); return (void*)(intptr_t)t.f(t.a); }
int vt_thrd_create(pthread_t* t, int (*f)(void*), void* a) {
    if (vt_fault(F_THREAD, "threads", "thrd_create", "thread")) return 2;
    struct tstart* s = malloc(sizeof *s); s->f = f; s->a = a;
    if (pthread_create(t, 0, tmain, s)) { free(s); return 2; }
    vt_perturb(8); return 0;
}
int vt_thrd_join(pthread_t t, int* r) { void* v; if (pthread_join(t, &v)) return 2; if (r) *r = (int)(intptr_t)v; return 0; }

/* ---- socket calls of the library (ld --wrap) with legal misbehaviour ---- */
static int is_stream(int fd) { int t = 0; socklen_t l = sizeof t; return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_STREAM; }
static unsigned io_roll(void) { return vt_io_level ? (unsigned)vt_below(100) : 1000; }
atomic_int vt_refuse; __thread int vt_refused;
ssize_t __wrap_recv(int fd, void* b, size_t n, int flags) {
    atomic_fetch_add_explicit(&vt_n_recvs, 1, memory_order_relaxed);
    vt_perturb(20);
    if (vt_io_level && is_stream(fd)) {
        unsigned r = io_roll();
        if (r >= 97) { errno = EINTR; return -1; }
        if (n > 1 && ((flags & MSG_DONTWAIT) || !(flags & MSG_WAITALL)) && r < 20u * vt_io_level) {
            atomic_fetch_add_explicit(&vt_n_short_recv, 1, memory_order_relaxed); n = 1 + vt_below((uint32_t)n - 1);
        }
    }
    else if (atomic_load_explicit(&vt_refuse, memory_order_relaxed) && !is_stream(fd) && vt_below(24) == 0) { vt_refused++; errno = ECONNREFUSED; return -1; }   /* what was sent reached nobody */
    return __real_recv(fd, b, n, flags);
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
    atomic_fetch_add_explicit(&vt_n_recvs, 1, memory_order_relaxed);
    vt_perturb(21);
    if (vt_io_level && (flags & MSG_DONTWAIT) && vt_below(16) == 0) { errno = vt_rand() & 1 ? EAGAIN : EINTR; return -1; }   /* the datagram is still there */
    return __real_recvfrom(fd, b, n, flags, a, l);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int flags) {
    atomic_fetch_add_explicit(&vt_n_sends, 1, memory_order_relaxed);
    vt_perturb(22);
    /* the system runs out of buffers in the middle of a message */
    static __thread int failing_fd = -1; int now = failing_fd == fd; failing_fd = -1;
    if (now) { errno = ENOBUFS; return -1; }
    if (n > 64 && is_stream(fd) && vt_fault(F_SEND, "socket/", "send", "partial")) { ssize_t r = __real_send(fd, b, 1 + vt_below((uint32_t)n - 1), flags); if (r > 0) failing_fd = fd; return r; }
    if (vt_fault(F_NOSEND, "socket/", "send", "nothing")) { errno = ENOBUFS; return -1; }
    if (vt_io_level && io_roll() < 3 && is_stream(fd)) { errno = EINTR; return -1; }
    if (vt_io_level && (flags & MSG_DONTWAIT) && n > 1 && is_stream(fd) && io_roll() < 15u * vt_io_level) {
        atomic_fetch_add_explicit(&vt_n_short_send, 1, memory_order_relaxed); n = 1 + vt_below((uint32_t)n - 1);
    }
    ssize_t r = __real_send(fd, b, n, flags);
    vt_perturb(23);
    return r;
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
    atomic_fetch_add_explicit(&vt_n_sends, 1, memory_order_relaxed);
    if (vt_fault(F_NOSEND, "socket/", "sendto", "nothing")) { errno = ENOBUFS; return -1; }
    return __real_sendto(fd, b, n, flags, a, l);
}

int vt_count_fds(void) { int n = 0; DIR* d = opendir("/proc/self/fd"); struct dirent* e; if (!d) return -1; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n - 1; }
int vt_count_threads(void) { int n = 0; DIR* d = opendir("/proc/self/task"); struct dirent* e; if (!d) return -1; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }

void vt_fill(uint8_t* d, uint32_t n, uint64_t token) { uint64_t x = vt_mix(token) | 1; for (uint32_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; d[i] = (uint8_t)(x >> 56); } }
int vt_verify(const uint8_t* d, uint32_t n, uint64_t token) { uint64_t x = vt_mix(token) | 1; for (uint32_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; if (d[i] != (uint8_t)(x >> 56)) return 0; } return 1; }

static void p8(gracht_buffer_t* b, uint8_t v) { b->data[b->index++] = (char)v; }
static void p32(gracht_buffer_t* b, uint32_t v) { memcpy(&b->data[b->index], &v, 4); b->index += 4; }
static void p64(gracht_buffer_t* b, uint64_t v) { memcpy(&b->data[b->index], &v, 8); b->index += 8; }
void put_hdr(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t flags) { p32(b, 0); p32(b, 0); p8(b, sid); p8(b, sid ? vt_w[aid] : aid); p8(b, flags); }
uint8_t vt_svc = 17, vt_w[256]; static struct { gracht_protocol_function_t* f; int n; uint8_t* id; } g_tables[64]; static int g_ntables;
void vt_table_add(gracht_protocol_function_t* f, int n, uint8_t* id) { if (g_ntables == 64) abort(); g_tables[g_ntables].f = f; g_tables[g_ntables].n = n; g_tables[g_ntables++].id = id; }
static void wire_init(void) {
    static const uint8_t edge[] = { 1, 3, 16, 17, 31, 32, 63, 64, 96, 200, 223, 224, 253, 254 };
    uint64_t r = vt_mix(vt_seed * 77 + 5); for (int i = 0; i < 256; i++) vt_w[i] = (uint8_t)i;
    if (r & 3) for (int i = 255; i > 1; i--) { r = vt_mix(r + 0x9E3779B97F4A7C15ULL); int j = 1 + (int)(r % (uint64_t)i); uint8_t t = vt_w[i]; vt_w[i] = vt_w[j]; vt_w[j] = t; }
    r = vt_mix(r + 11); if (r & 3) vt_svc = edge[(r >> 8) % sizeof edge];
    for (int k = 0; k < g_ntables; k++) {
        gracht_protocol_function_t* f = g_tables[k].f; for (int i = 0; i < g_tables[k].n; i++) f[i].id = vt_w[f[i].id];
        for (int i = g_tables[k].n - 1; i > 0; i--) { r = vt_mix(r + 3); int j = (int)(r % (uint64_t)(i + 1)); gracht_protocol_function_t t = f[i]; f[i] = f[j]; f[j] = t; }
        if (g_tables[k].id) *g_tables[k].id = SVC;
    }
}
void put_req(gracht_buffer_t* b, uint64_t token, uint32_t arg, uint32_t n) { p64(b, token); p32(b, arg); p32(b, n); vt_fill((uint8_t*)&b->data[b->index], n, token); b->index += n; }
void get_req(gracht_buffer_t* b, struct req* r) {
    memcpy(&r->token, &b->data[b->index], 8); memcpy(&r->arg, &b->data[b->index + 8], 4); memcpy(&r->n, &b->data[b->index + 12], 4);
    r->data = (uint8_t*)&b->data[b->index + 16];
}
uint32_t raw_msg(uint8_t* out, uint32_t id, uint8_t sid, uint8_t aid, uint8_t flags, uint64_t token, uint32_t arg, uint32_t n) {
    gracht_buffer_t b = { (char*)out, 0 }; put_hdr(&b, sid, aid, flags); put_req(&b, token, arg, n);
    uint32_t len = b.index; memcpy(out, &id, 4); memcpy(out + 4, &len, 4); return len;
}
int raw_write(int fd, const void* p, size_t n) { const char* c = p; while (n) { ssize_t w = __real_send(fd, c, n, MSG_NOSIGNAL); if (w < 0) { if (errno == EINTR) continue; return -1; } c += w; n -= (size_t)w; } return 0; }
int raw_write_cut(int fd, const void* p, size_t n, int style) {
    const char* c = p;
    while (n) {
        size_t k = style == 0 ? n : style == 1 ? 1 : 1 + vt_below(style == 2 ? 7 : n > 40000 ? (uint32_t)n / 4 : 400); if (k > n) k = n;
        if (raw_write(fd, c, k)) return -1;
        c += k; n -= k;
        if (style && (vt_rand() & 3) == 0) { if (vt_rand() & 1) sched_yield(); else vt_usleep(1 + vt_below(150)); }
    }
    return 0;
}
int raw_write_pieces(int fd, const void* p, size_t n, int pieces) {
    const char* c = p;
    while (n) {
        size_t k = pieces <= 1 ? n : 1 + vt_below((uint32_t)n); pieces--;
        if (raw_write(fd, c, k)) return -1;
        c += k; n -= k;
        if (n && (vt_rand() & 1)) { if (vt_rand() & 1) sched_yield(); else vt_usleep(1 + (int)vt_below(150)); }
    }
    return 0;
}
int raw_read(int fd, void* p, size_t n) { char* c = p; while (n) { ssize_t r = read(fd, c, n); if (r == 0) return 0; if (r < 0) { if (errno == EINTR) continue; return -1; } c += r; n -= (size_t)r; } return 1; }
int raw_read_msg(int fd, uint8_t* out, uint32_t cap, uint32_t* len) {
    int r = raw_read(fd, out, HDR); if (r <= 0) return r;
    memcpy(len, out + 4, 4); if (*len < HDR || *len > cap) return -2;
    if (*len > HDR) { r = raw_read(fd, out + HDR, *len - HDR); if (r <= 0) return -3; }
    return 1;
}
/* a path, or "tcp4:PORT" / "tcp6:PORT" */
static socklen_t unaddr(struct sockaddr_storage* s, const char* path) {
    memset(s, 0, sizeof *s);
    if (!strncmp(path, "tcp4:", 5)) { struct sockaddr_in* a = (void*)s; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->sin_port = htons((uint16_t)atoi(path + 5)); return sizeof *a; }
    if (!strncmp(path, "tcp6:", 5)) { struct sockaddr_in6* a = (void*)s; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; a->sin6_port = htons((uint16_t)atoi(path + 5)); return sizeof *a; }
    struct sockaddr_un* u = (void*)s; u->sun_family = AF_UNIX; snprintf(u->sun_path, sizeof u->sun_path, "%s", path); return sizeof *u;
}
static int tcp_port(int fam) {   /* a free port, or 0 */
    struct sockaddr_storage s; socklen_t l = unaddr(&s, fam == 2 ? "tcp6:0" : "tcp4:0"); int fd = socket(s.ss_family, SOCK_STREAM, 0), p = 0; if (fd < 0) return 0;
    if (!bind(fd, (void*)&s, l) && !getsockname(fd, (void*)&s, &l)) p = ntohs(fam == 2 ? ((struct sockaddr_in6*)&s)->sin6_port : ((struct sockaddr_in*)&s)->sin_port);
    close(fd); return p;
}
static void long_path(struct sockaddr_un* a, char kind, int no, int len) {
    memset(a, 0, sizeof *a); a->sun_family = AF_UNIX; int n = snprintf(a->sun_path, sizeof a->sun_path, "%s/%c%d-", g_scratch, kind, no);
    for (; n < len && n < 107; n++) a->sun_path[n] = (char)('a' + n % 26);
}
int raw_connect_unix(const char* path) {
    struct sockaddr_storage a; socklen_t l = unaddr(&a, path);
    for (int tries = 0; tries < 20000; tries++) {
        int fd = socket(a.ss_family, SOCK_STREAM, 0); if (fd < 0) return -1;
        if (!connect(fd, (struct sockaddr*)&a, l)) return fd;
        close(fd);
        if (errno != EAGAIN && errno != EINTR) return -1;
        vt_usleep(200);
    }
    return -1;
}
int raw_listen_unix(const char* path) {
    struct sockaddr_storage a; socklen_t l = unaddr(&a, path); int fd = socket(a.ss_family, SOCK_STREAM, 0);
    unlink(path); if (fd < 0 || bind(fd, (struct sockaddr*)&a, l) || listen(fd, 64)) vt_internal("listen %s: %d", path, errno);
    return fd;
}

/* ---- client ---- */
int cl_call(gracht_client_t* c, struct gracht_message_context* ctx, uint8_t sid, uint8_t aid, uint64_t token, uint32_t arg, uint32_t n) {
    gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) return -1;
    put_hdr(&b, sid, aid, MESSAGE_FLAG_SYNC); put_req(&b, token, arg, n);
    return gracht_client_invoke(c, ctx, &b);
}
int cl_async(gracht_client_t* c, uint8_t sid, uint8_t aid, uint64_t token, uint32_t arg, uint32_t n) {
    gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) return -1;
    put_hdr(&b, sid, aid, MESSAGE_FLAG_ASYNC); put_req(&b, token, arg, n);
    return gracht_client_invoke(c, NULL, &b);
}
int cl_result(gracht_client_t* c, struct gracht_message_context* ctx, uint64_t* token, uint32_t* arg, uint32_t* n, int* ok) {
    gracht_buffer_t b = { 0 }; struct req r;
    int st = gracht_client_get_status_buffer(c, ctx, &b);
    if (st != GRACHT_MESSAGE_COMPLETED) return st;
    get_req(&b, &r); *token = r.token; *arg = r.arg; *n = r.n; *ok = vt_verify(r.data, r.n, r.token);
    gracht_client_status_finalize(c, &b);
    return st;
}
int cl_subscribe(gracht_client_t* c, uint8_t service, int sub) {
    gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) return -1;
    put_hdr(&b, 0, sub ? 0 : 1, MESSAGE_FLAG_ASYNC); p8(&b, service);
    return gracht_client_invoke(c, NULL, &b);
}
gracht_client_t* cl_create_unix(const char* path, int max_msg, int recv_size) {
    struct gracht_link_socket* link; gracht_client_configuration_t cfg; gracht_client_t* c = 0; struct sockaddr_storage ss; socklen_t l = unaddr(&ss, path);
    if (gracht_link_socket_create(&link)) vt_internal("link create");
    gracht_link_socket_set_type(link, gracht_link_stream_based);
    gracht_link_socket_set_domain(link, ss.ss_family);
    gracht_link_socket_set_address(link, &ss, l);
    gracht_client_configuration_init(&cfg);
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)link);
    if (max_msg) gracht_client_configuration_set_max_msg_size(&cfg, max_msg);
    if (recv_size) cfg.recv_buffer_size = recv_size;
    if (gracht_client_create(&cfg, &c)) vt_internal("client create %d", errno);
    return c;
}
gracht_client_t* cl_connect_unix(const char* path, int max_msg, int recv_size) {
    gracht_client_t* c = cl_create_unix(path, max_msg, recv_size);
    for (int i = 0; gracht_client_connect(c); i++) { if (i > 20000 || (errno != EAGAIN && errno != ECONNREFUSED && errno != ENOENT)) vt_viol("connect", "a client could not connect to a running server (errno %d)", errno); vt_usleep(200); }
    return c;
}
/* a datagram socket that has no name of its own cannot be answered over local paths */
/* The library listens with a backlog of two. On TCP, a kernel under load then answers with SYN cookies, which it may find invalid later, and resets connections
   that it had established (seen with a plain echo server, too). That is not what is judged here, so the queue is long enough to never overflow. */
int __wrap_listen(int fd, int n) { if (vt_fault(F_ADDRESS, "socket/", "listen", "refused")) { errno = EADDRINUSE; return -1; } int d = 0; socklen_t l = sizeof d; return __real_listen(fd, !getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &l) && d != AF_UNIX && n < 512 ? 512 : n); }
static int named_connect(int fd, const struct sockaddr* a, socklen_t l) {
    static atomic_int no; int t = 0; socklen_t tl = sizeof t; struct sockaddr_un u; socklen_t ul = sizeof u;
    if (a->sa_family == AF_UNIX && !getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &tl) && t == SOCK_DGRAM && !getsockname(fd, (void*)&u, &ul) && ul <= sizeof(sa_family_t)) {
        long_path(&u, 'c', atomic_fetch_add(&no, 1), (vt_rand() & 1) ? 107 : (int)vt_below(108));
        if (bind(fd, (void*)&u, (vt_rand() & 1) ? sizeof u : (socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(u.sun_path) + 1))) vt_internal("bind %s: %d", u.sun_path, errno);
    }
    return __real_connect(fd, a, l);
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) { if (vt_fault(F_ADDRESS, "socket/", "bind", "refused")) { errno = vt_rand() & 1 ? EADDRINUSE : ENOMEM; return -1; } return __real_bind(fd, a, l); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) { if (vt_fault(F_ADDRESS, "socket/", "connect", "refused")) { errno = vt_rand() & 1 ? ECONNREFUSED : ETIMEDOUT; return -1; } return named_connect(fd, a, l); }
int raw_dgram(struct srv* s) { int fd = socket(s->daddr.ss_family, SOCK_DGRAM, 0); if (fd < 0 || named_connect(fd, (void*)&s->daddr, s->dlen)) vt_internal("datagram socket: %d", errno); return fd; }
gracht_client_t* cl_connect_dgram(struct srv* s, int max_msg) {
    struct gracht_link_socket* link; gracht_client_configuration_t cfg; gracht_client_t* c = 0;
    if (gracht_link_socket_create(&link)) vt_internal("link create");
    gracht_link_socket_set_type(link, gracht_link_packet_based);
    gracht_link_socket_set_domain(link, s->daddr.ss_family);
    gracht_link_socket_set_address(link, &s->daddr, s->dlen);
    gracht_client_configuration_init(&cfg);
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)link);
    if (max_msg) { gracht_client_configuration_set_max_msg_size(&cfg, max_msg); cfg.recv_buffer_size = max_msg * 8 + 4096; }
    if (gracht_client_create(&cfg, &c)) vt_internal("client create %d", errno);
    if (gracht_client_connect(c)) vt_viol("connect", "datagram client could not connect (errno %d)", errno);
    return c;
}

/* ---- server ---- */
int srv_add_unix(struct srv* s, const char* path) {
    struct gracht_link_socket* link; struct sockaddr_storage ss; socklen_t l = unaddr(&ss, path);
    unlink(path); gracht_link_socket_create(&link);
    gracht_link_socket_set_type(link, gracht_link_stream_based); gracht_link_socket_set_domain(link, ss.ss_family);
    gracht_link_socket_set_address(link, &ss, l); gracht_link_socket_set_listen(link, 1);
    int st = gracht_server_add_link(s->s, (struct gracht_link*)link); if (st) { int e = errno; free(link); errno = e; }
    return st;
}
static int free_addr(struct srv* s, int no) {
    int fd = -1, ok = 0; memset(&s->daddr, 0, sizeof s->daddr);
    if (s->family == 2) { int q = 0; FILE* f = fopen("/proc/sys/net/unix/max_dgram_qlen", "r"); if (f) { if (fscanf(f, "%d", &q) != 1) q = 0; fclose(f); } if (q < 10) s->family = 0; }
    if (s->family == 2) { s->dlen = sizeof(struct sockaddr_un); long_path((struct sockaddr_un*)&s->daddr, 'd', no, 107); return 1; }
    if (s->family == 1) {
        struct sockaddr_in6* a = (void*)&s->daddr; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; s->dlen = sizeof *a;
        fd = socket(AF_INET6, SOCK_DGRAM, 0); socklen_t l = sizeof *a; ok = fd >= 0 && !bind(fd, (void*)a, l) && !getsockname(fd, (void*)a, &l);
        if (!ok) { s->family = 0; memset(&s->daddr, 0, sizeof s->daddr); if (fd >= 0) close(fd); fd = -1; }
    }
    if (s->family == 0) {
        struct sockaddr_in* a = (void*)&s->daddr; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); s->dlen = sizeof *a;
        fd = socket(AF_INET, SOCK_DGRAM, 0); socklen_t l = sizeof *a; if (fd < 0 || bind(fd, (void*)a, l) || getsockname(fd, (void*)a, &l)) vt_internal("no udp port");
    }
    close(fd); return 1;
}
static atomic_int g_linkno;
void srv_link_stream(struct srv* s, int tcp) {
    int ok = 0;
    for (int i = 0; tcp && !ok && i < 20; i++) { int p = tcp_port(tcp); if (!p) { tcp = tcp == 2 ? 1 : 0; continue; } snprintf(s->path, sizeof s->path, "tcp%d:%d", tcp == 2 ? 6 : 4, p); ok = !srv_add_unix(s, s->path); }
    if (!ok) snprintf(s->path, sizeof s->path, "%s/s%d", g_scratch, atomic_fetch_add(&g_linkno, 1)); else vt_n_tcp++;
    if (!ok && srv_add_unix(s, s->path)) vt_viol("addlink", "a stream link could not be added (errno %d)", errno);
}
void srv_link_dgram(struct srv* s) {
    int ok = 0;
    for (int i = 0; i < 20 && !ok; i++) {
        struct gracht_link_socket* link; free_addr(s, atomic_fetch_add(&g_linkno, 1));
        gracht_link_socket_create(&link); gracht_link_socket_set_type(link, gracht_link_packet_based); gracht_link_socket_set_domain(link, s->daddr.ss_family);
        gracht_link_socket_set_address(link, &s->daddr, s->dlen); gracht_link_socket_set_listen(link, 1);
        ok = gracht_server_add_link(s->s, (struct gracht_link*)link) == 0; if (!ok) { int e = errno; free(link); errno = e; }
    }
    if (!ok) vt_viol("addlink", "a datagram link could not be added (errno %d)", errno);
}
void srv_create(struct srv* s) {
    gracht_server_configuration_t cfg; gracht_server_configuration_init(&cfg);
    cfg.callbacks.clientConnected = s->connected; cfg.callbacks.clientDisconnected = s->disconnected;
    gracht_server_configuration_set_num_workers(&cfg, s->workers);
    if (s->max_msg) gracht_server_configuration_set_max_msg_size(&cfg, s->max_msg);
    s->epfd = -1;
    if (s->own_epoll) { s->epfd = epoll_create1(0); if (s->epfd > 0 && vt_below(4) == 0) { dup2(s->epfd, 0); close(s->epfd); s->epfd = 0; }   /* zero is a descriptor like any other */ gracht_server_configuration_set_aio_descriptor(&cfg, s->epfd); }
    if (gracht_server_create(&cfg, &s->s)) vt_internal("server create %d", errno);
    if (s->epfd < 0) s->epfd = gracht_server_get_aio_handle(s->s);
    if (s->stream) srv_link_stream(s, (int)vt_arg("tcp", 0));
    if (s->dgram) srv_link_dgram(s);
}
static void* srv_main(void* p) {
    struct srv* s = p; atomic_store(&s->running, 1);
    if (s->selfdriven) {
        int st = 0; struct epoll_event ev[8];
        for (;;) {
            int n = epoll_wait(s->epfd, ev, 8, -1), stop = 0;
            for (int i = 0; i < n && !stop; i++) if (gracht_server_handle_event(s->s, ev[i].data.fd, ev[i].events) == -1 && errno == EPIPE) stop = 1;
            if (stop) break;
        }
        atomic_store(&s->loop_status, st);
    } else atomic_store(&s->loop_status, gracht_server_main_loop(s->s));
    atomic_store(&s->returned, 1); vt_progress(); return 0;
}
void srv_start(struct srv* s) { atomic_store(&s->returned, 0); if (pthread_create(&s->thread, 0, srv_main, s)) vt_internal("thread"); }
void srv_poke(struct srv* s) {
    if (s->stream) { struct sockaddr_storage a; socklen_t l = unaddr(&a, s->path); int fd = socket(a.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0); if (connect(fd, (struct sockaddr*)&a, l)) {} close(fd); }
    else if (s->dgram) { int fd = socket(s->daddr.ss_family, SOCK_DGRAM, 0); char c = 0; if (__real_sendto(fd, &c, 1, MSG_DONTWAIT, (void*)&s->daddr, s->dlen) < 0) {} close(fd); }
}
void srv_stop(struct srv* s) {
    gracht_server_request_shutdown(s->s);
    srv_poke(s);
    /* a datagram may be consumed by the event that was being handled when shutdown was requested */
    for (int i = 0; !s->stream && i < 50 && !atomic_load(&s->returned); i++) { vt_msleep(20); srv_poke(s); }
    pthread_join(s->thread, 0);
    if (s->own_epoll && s->epfd >= 0) close(s->epfd);
    if (s->stream) unlink(s->path);
    if (s->dgram && s->family == 2) unlink(((struct sockaddr_un*)&s->daddr)->sun_path);
}

struct scenario { const char* name; void (*run)(void); };
extern struct scenario vt_scenarios[]; void rt_services(void); void rt_final(void);
int main(int argc, char** argv) {
    g_argc = argc; g_argv = argv; setvbuf(stdout, 0, _IOLBF, 0);
    if (argc < 2) return 12;
    g_scenario = argv[1];
    vt_seed = (uint64_t)vt_arg("seed", 1); vt_perturb_level = (int)vt_arg("perturb", 0); vt_io_level = (int)vt_arg("io", 0); vt_spurious = (int)vt_arg("spurious", 0);
    const char* base = getenv("VT_SCRATCH"); snprintf(g_scratch, sizeof g_scratch, "%s/vtXXXXXX", base ? base : "/tmp");
    if (!mkdtemp(g_scratch)) vt_internal("mkdtemp");
    pthread_t w; if (pthread_create(&w, 0, watch, 0)) vt_internal("watch"); pthread_detach(w);
    for (int i = 0; vt_scenarios[i].name; i++) if (!strcmp(vt_scenarios[i].name, argv[1]) && vt_scenarios[i].run) {
        wire_init(); rt_services(); vt_scenarios[i].run(); rt_final();
        if (vt_n_perturb) vt_stat("perturbations", vt_n_perturb);
        if (vt_n_tcp) vt_stat("tcp_servers", vt_n_tcp);
        if (vt_n_short_recv) vt_stat("short_reads", vt_n_short_recv);
        if (vt_n_short_send) vt_stat("short_writes", vt_n_short_send);
        if (vt_n_spurious) vt_stat("spurious_wakeups", vt_n_spurious);
        vt_stat("monitored_steps", atomic_load(&g_progress)); printf("TRACE %016llx\n", (unsigned long long)g_trace);
        printf("DONE\n"); fflush(stdout); cleanup_scratch();
        return 0;   /* leak check runs at exit */
    }
    vt_internal("unknown scenario");
}
