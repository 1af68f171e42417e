/* threads.h used when the library is built for monitoring: maps C11 threads to pthreads (which
 * the sanitizers intercept) and gives the schedule perturbation a hook at every operation. */
#ifndef VT_SHIM_THREADS_H
#define VT_SHIM_THREADS_H
#include <pthread.h>
#include <time.h>
#include <errno.h>
typedef pthread_mutex_t mtx_t;
typedef pthread_cond_t  cnd_t;
typedef pthread_t       thrd_t;
typedef pthread_key_t   tss_t;
typedef pthread_once_t  once_flag;
typedef int (*thrd_start_t)(void*);
typedef void (*tss_dtor_t)(void*);
#define ONCE_FLAG_INIT PTHREAD_ONCE_INIT
#define thread_local _Thread_local
enum { thrd_success = 0, thrd_busy = 1, thrd_error = 2, thrd_nomem = 3, thrd_timedout = 4 };
enum { mtx_plain = 0, mtx_recursive = 1, mtx_timed = 2 };
#ifdef __cplusplus
extern "C" {
#endif
void vt_perturb(int site);
int  vt_thrd_create(thrd_t* t, thrd_start_t f, void* arg);
int  vt_thrd_join(thrd_t t, int* res);
#ifdef __cplusplus
}
#endif
static inline int mtx_init(mtx_t* m, int type) {
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    if (type & mtx_recursive) pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
    int r = pthread_mutex_init(m, &a);
    pthread_mutexattr_destroy(&a);
    return r ? thrd_error : thrd_success;
}
static inline void mtx_destroy(mtx_t* m) { pthread_mutex_destroy(m); }
static inline int  mtx_lock(mtx_t* m) { vt_perturb(1); return pthread_mutex_lock(m) ? thrd_error : thrd_success; }
static inline int  mtx_trylock(mtx_t* m) { vt_perturb(2); int r = pthread_mutex_trylock(m); return r == 0 ? thrd_success : (r == EBUSY ? thrd_busy : thrd_error); }
static inline int  mtx_timedlock(mtx_t* m, const struct timespec* ts) { int r = pthread_mutex_timedlock(m, ts); return r == 0 ? thrd_success : (r == ETIMEDOUT ? thrd_timedout : thrd_error); }
static inline int  mtx_unlock(mtx_t* m) { int r = pthread_mutex_unlock(m); vt_perturb(3); return r ? thrd_error : thrd_success; }
static inline int  cnd_init(cnd_t* c) { return pthread_cond_init(c, 0) ? thrd_error : thrd_success; }
static inline void cnd_destroy(cnd_t* c) { pthread_cond_destroy(c); }
static inline int  cnd_signal(cnd_t* c) { vt_perturb(4); return pthread_cond_signal(c) ? thrd_error : thrd_success; }
static inline int  cnd_broadcast(cnd_t* c) { vt_perturb(5); return pthread_cond_broadcast(c) ? thrd_error : thrd_success; }
int vt_cnd_wait(cnd_t* c, mtx_t* m);
static inline int  cnd_wait(cnd_t* c, mtx_t* m) { return vt_cnd_wait(c, m); }
static inline int  cnd_timedwait(cnd_t* c, mtx_t* m, const struct timespec* ts) { int r = pthread_cond_timedwait(c, m, ts); return r == 0 ? thrd_success : (r == ETIMEDOUT ? thrd_timedout : thrd_error); }
static inline int  thrd_create(thrd_t* t, thrd_start_t f, void* a) { return vt_thrd_create(t, f, a); }
static inline int  thrd_join(thrd_t t, int* r) { return vt_thrd_join(t, r); }
static inline int  thrd_detach(thrd_t t) { return pthread_detach(t) ? thrd_error : thrd_success; }
static inline thrd_t thrd_current(void) { return pthread_self(); }
static inline int  thrd_equal(thrd_t a, thrd_t b) { return pthread_equal(a, b); }
static inline int  thrd_sleep(const struct timespec* d, struct timespec* r) { return nanosleep(d, r); }
#include <sched.h>
static inline void thrd_yield(void) { sched_yield(); }
static inline void call_once(once_flag* f, void (*fn)(void)) { pthread_once(f, fn); }
static inline int  tss_create(tss_t* k, tss_dtor_t d) { return pthread_key_create(k, d) ? thrd_error : thrd_success; }
static inline void tss_delete(tss_t k) { pthread_key_delete(k); }
static inline void* tss_get(tss_t k) { return pthread_getspecific(k); }
static inline int  tss_set(tss_t k, void* v) { return pthread_setspecific(k, v) ? thrd_error : thrd_success; }
#endif
