#include "rt.h"
#include <arena.h>
/* C10: shadow model of the message memory pool. */
struct blk { uint8_t* p; size_t n; uint64_t tok; };
static atomic_llong n_ops, n_alloc, n_refused, n_grow, n_grow_moved, n_shrink, n_free, n_full, n_pools, n_orders, n_thr_ops, n_maxlive;
#define EDGE 2048
static void fill(struct blk* b) { if (b->n <= 4 * EDGE) { vt_fill(b->p, (uint32_t)b->n, b->tok); return; } vt_fill(b->p, EDGE, b->tok); vt_fill(b->p + b->n - EDGE, EDGE, b->tok ^ 1); vt_fill(b->p + b->n / 2, 64, b->tok ^ 2); }
static void check_keep(struct blk* b, size_t keep, const char* when) { /* the first keep bytes as filled for size b->n */
    int ok; if (b->n <= 4 * EDGE) ok = vt_verify(b->p, (uint32_t)keep, b->tok); else { ok = vt_verify(b->p, keep < EDGE ? (uint32_t)keep : EDGE, b->tok); if (keep == b->n) ok = ok && vt_verify(b->p + b->n - EDGE, EDGE, b->tok ^ 1); if (keep >= b->n / 2 + 64) ok = ok && vt_verify(b->p + b->n / 2, 64, b->tok ^ 2); }
    VT_CHECK(ok, "contents", "a live block of %zu bytes changed its contents (%s)", b->n, when);
}
static size_t largest(struct gracht_arena* a, size_t size) { size_t lo = 0, hi = size; while (lo < hi) { size_t mid = lo + (hi - lo + 1) / 2; void* p = gracht_arena_allocate(a, NULL, mid); if (p) { gracht_arena_free(a, p, 0); lo = mid; } else hi = mid - 1; } return lo; }
static void overlap(struct blk* v, int n, int i) { for (int k = 0; k < n; k++) if (k != i && v[k].p) VT_CHECK(v[i].p + v[i].n <= v[k].p || v[k].p + v[k].n <= v[i].p, "overlap", "two live blocks share memory (%zu and %zu bytes)", v[i].n, v[k].n); }
static size_t pick(size_t size, int style, size_t fixed) { switch (style) { case 0: return 1 + vt_below(600); case 1: return fixed; case 2: return 1 + vt_below((uint32_t)(size / 3 > 1 ? size / 3 : 1)); case 3: return vt_rand() & 1 ? 1 + vt_below(20) : fixed; default: { size_t s = (size_t)1 << vt_below(25); s = s + vt_below(5); return s > 2 ? s - 2 : 1; } } }
#define MAXB 400
static void pool(size_t size, int ops) {
    struct gracht_arena* a; inc(&n_pools); if (gracht_arena_create(size, &a)) vt_viol("create", "a pool of %zu bytes can not be created", size);
    size_t L = largest(a, size); VT_CHECK(L > 0 && L <= size && L + 64 >= size, "capacity", "a new pool of %zu bytes satisfies at most %zu bytes", size, L);
    struct blk v[MAXB]; int nb = 0; memset(v, 0, sizeof v); int style = (int)vt_below(5); size_t fixed = size / (4 + vt_below(40)) + 1; uint8_t* lo = 0, *hi = 0; int live = 0; size_t livebytes = 0;
    { void* p = gracht_arena_allocate(a, NULL, L); VT_CHECK(p, "capacity", "the largest request is refused the second time"); lo = p; hi = lo + L; gracht_arena_free(a, p, 0); }
    for (int i = 0; i < ops; i++) {
        inc(&n_ops); if ((i & 63) == 0) vt_trace(vt_rand());
        unsigned r = vt_below(100); int k = nb ? (int)vt_below((uint32_t)nb) : -1;
        if (r < 42) {
            if (nb == MAXB) continue; size_t n = pick(size, style, fixed); if (n > size) { VT_CHECK(!gracht_arena_allocate(a, NULL, n), "too-large", "a request of %zu bytes is satisfied by a pool of %zu bytes", n, size); inc(&n_refused); continue; }
            struct blk b = { gracht_arena_allocate(a, NULL, n), n, vt_rand() };
            if (!b.p) { inc(&n_refused); VT_CHECK(live > 0 || n > L, "refused", "an empty pool of %zu bytes refuses %zu bytes although it satisfied %zu when new", size, n, L > n ? L : n); continue; }
            VT_CHECK(b.p >= lo && b.p + b.n <= hi, "bounds", "a block of %zu bytes lies outside the pool of %zu bytes", n, size); v[nb++] = b; overlap(v, nb, nb - 1); fill(&v[nb - 1]); inc(&n_alloc); live++; livebytes += n; if (live > ldl(&n_maxlive)) atomic_store(&n_maxlive, live);
        } else if (r < 57 && k >= 0) { /* grow */
            size_t ex = 1 + (vt_rand() & 1 ? vt_below(300) : vt_below((uint32_t)(fixed + 1))); check_keep(&v[k], v[k].n, "before growing"); uint8_t* q = gracht_arena_allocate(a, v[k].p, ex);
            if (!q) { inc(&n_refused); check_keep(&v[k], v[k].n, "after growing was refused"); continue; }
            struct blk old = v[k]; if (q != v[k].p) inc(&n_grow_moved); VT_CHECK(q >= lo && q + old.n + ex <= hi, "bounds", "a grown block of %zu bytes lies outside the pool", old.n + ex); v[k].p = q; check_keep(&v[k], v[k].n, "after growing"); v[k].n += ex; overlap(v, nb, k); v[k].tok = vt_rand(); fill(&v[k]); inc(&n_grow); livebytes += ex;
        } else if (r < 70 && k >= 0 && v[k].n > 1) { /* release the end */
            size_t d = 1 + vt_below((uint32_t)(v[k].n - 1 > 0xfffffff ? 0xfffffff : v[k].n - 1)); check_keep(&v[k], v[k].n, "before shrinking"); gracht_arena_free(a, v[k].p, d); size_t keep = v[k].n - d; check_keep(&v[k], keep, "after releasing its end"); v[k].n = keep; v[k].tok = vt_rand(); fill(&v[k]); inc(&n_shrink); livebytes -= d;
        } else if (k >= 0) { check_keep(&v[k], v[k].n, "before release"); gracht_arena_free(a, v[k].p, 0); livebytes -= v[k].n; v[k] = v[--nb]; live--; inc(&n_free); }
        if ((i % 40) == 0) for (int j = 0; j < nb; j++) check_keep(&v[j], v[j].n, "sweep");
        if (nb && vt_below(150) == 0) { /* release everything in some order: the whole pool is available again */
            int order = (int)vt_below(4); inc(&n_orders);
            for (int x = 0; x < nb; x++) for (int y = x + 1; y < nb; y++) if ((order == 0 && v[x].p > v[y].p) || (order == 1 && v[x].p < v[y].p) || (order == 2 && (vt_rand() & 1))) { struct blk t = v[x]; v[x] = v[y]; v[y] = t; }
            for (int x = 0; x < nb; x++) { check_keep(&v[x], v[x].n, "before release"); gracht_arena_free(a, v[x].p, 0); } nb = 0; live = 0; livebytes = 0; inc(&n_full);
            void* p = gracht_arena_allocate(a, NULL, L); VT_CHECK(p, "not-reclaimed", "after every block was released (order %d) a pool of %zu bytes refuses %zu bytes, which it satisfied when new", order, size, L); memset(p, 0x5a, L < 100000 ? L : 100000); ((uint8_t*)p)[L - 1] = 1; gracht_arena_free(a, p, 0);
        }
    }
    while (nb) { check_keep(&v[nb - 1], v[nb - 1].n, "at the end"); gracht_arena_free(a, v[--nb].p, 0); }
    void* p = gracht_arena_allocate(a, NULL, L); VT_CHECK(p, "not-reclaimed", "after every block was released a pool of %zu bytes refuses %zu bytes, which it satisfied when new", size, L); gracht_arena_free(a, p, 0); VT_CHECK(largest(a, size) == L, "not-reclaimed", "the capacity of the pool changed");
    gracht_arena_destroy(a);
}
/* how the server and the client use it: blocks of one size, cut to the message, released in another order, from several threads */
static struct gracht_arena* TA; static size_t t_sz; static int t_ops;
static void* user(void* x) {
    (void)x; struct blk v[24]; int nb = 0;
    for (int i = 0; i < t_ops; i++) {
        inc(&n_thr_ops); if ((i & 31) == 0) vt_trace(vt_rand());
        if (nb < 24 && vt_below(5) < 3) { uint8_t* p = gracht_arena_allocate(TA, NULL, t_sz); if (!p) { inc(&n_refused); if (nb) goto drop; vt_usleep(20); continue; } size_t keep = 1 + vt_below((uint32_t)t_sz); struct blk b = { p, t_sz, vt_rand() }; if (vt_rand() & 1) fill(&b); if (keep < t_sz) { gracht_arena_free(TA, p, t_sz - keep); } b.n = keep; fill(&b); v[nb++] = b; vt_perturb(30); }
        else if (nb) { drop:; int k = (int)vt_below((uint32_t)nb); check_keep(&v[k], v[k].n, "used by one thread while others allocate"); gracht_arena_free(TA, v[k].p, 0); v[k] = v[--nb]; }
    }
    while (nb) { nb--; check_keep(&v[nb], v[nb].n, "used by one thread while others allocate"); gracht_arena_free(TA, v[nb].p, 0); }
    return 0;
}
static void threads(void) {
    t_sz = 100 + vt_below(3000); size_t size = t_sz * (4 + vt_below(120)) + 64; if (gracht_arena_create(size, &TA)) vt_viol("create", "pool"); size_t L = largest(TA, size); int n = 2 + (int)vt_below(6); pthread_t t[8]; t_ops = (int)vt_arg("tops", 1500);
    for (int i = 0; i < n; i++) pthread_create(&t[i], 0, user, 0);
    for (int i = 0; i < n; i++) pthread_join(t[i], 0);
    void* p = gracht_arena_allocate(TA, NULL, L); VT_CHECK(p, "not-reclaimed", "after all threads released everything a pool of %zu bytes refuses %zu bytes", size, L); gracht_arena_free(TA, p, 0); gracht_arena_destroy(TA);
}
void scen_arena(void) {
    int rounds = (int)vt_arg("rounds", 12), ops = (int)vt_arg("ops", 3000); struct gracht_arena* a = 0;
    VT_CHECK(gracht_arena_create(0, &a) == -1, "create", "a pool of size 0 is created"); VT_CHECK(gracht_arena_create(100, NULL) == -1, "create", "a pool is created into nothing"); VT_CHECK(!gracht_arena_allocate(NULL, NULL, 10), "null", "a block of no pool"); gracht_arena_free(NULL, NULL, 0); gracht_arena_destroy(NULL);
    for (int i = 0; i < rounds; i++) {
        size_t size; switch (vt_below(8)) { case 0: size = 64 + vt_below(400); break; case 1: size = 512 * (1 + vt_below(64)); break; case 2: size = (2048 + 512) * 32 * (1 + vt_below(4)); break; case 3: size = 1000 + vt_below(1000000); break; case 4: size = (16u << 20) + vt_below(48u << 20); break; case 5: size = 4096 + 64; break; default: size = 2000 + vt_below(60000); break; }
        pool(size, size > (1u << 22) ? ops / 3 : ops); if (i % 3 == 0) threads();
    }
    { /* zero-sized requests and impossible ones */ size_t size = 5000; if (gracht_arena_create(size, &a)) vt_internal("pool"); size_t L = largest(a, size); VT_CHECK(!gracht_arena_allocate(a, NULL, L + 1), "too-large", "more than everything"); VT_CHECK(!gracht_arena_allocate(a, NULL, (size_t)1 << 32), "too-large", "a request of 4 GB is satisfied by a pool of %zu bytes", size); VT_CHECK(!gracht_arena_allocate(a, NULL, ((size_t)1 << 32) + 10), "too-large", "a request of 4 GB + 10 is satisfied by a pool of %zu bytes", size); VT_CHECK(!gracht_arena_allocate(a, NULL, ((size_t)1 << 24) + 10), "too-large", "a request of 16 MB + 10 is satisfied by a pool of %zu bytes", size); gracht_arena_free(a, NULL, 0); void* p = gracht_arena_allocate(a, NULL, L); VT_CHECK(p, "not-reclaimed", "refused requests cost capacity"); gracht_arena_free(a, p, 0); gracht_arena_destroy(a); }
    vt_stat("pools", ldl(&n_pools)); vt_stat("operations", ldl(&n_ops) + ldl(&n_thr_ops)); vt_stat("allocations", ldl(&n_alloc)); vt_stat("refused", ldl(&n_refused)); vt_stat("grown", ldl(&n_grow)); vt_stat("grown_by_moving", ldl(&n_grow_moved)); vt_stat("partial_releases", ldl(&n_shrink)); vt_stat("releases", ldl(&n_free)); vt_stat("full_reclaims", ldl(&n_full)); vt_stat("threaded_operations", ldl(&n_thr_ops)); vt_stat("most_live_blocks", ldl(&n_maxlive));
    vt_sample("arena: %lld pools, %lld operations, %lld grown (%lld moved), %lld partial releases, %lld full reclaims", ldl(&n_pools), ldl(&n_ops), ldl(&n_grow), ldl(&n_grow_moved), ldl(&n_shrink), ldl(&n_full));
}
