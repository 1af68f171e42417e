#include "rt.h"
#include <hashtable.h>
#include <queue.h>
#include <stack.h>
/* C11: map, queue and pool models. */
struct el { uint32_t key; uint64_t val; uint8_t pad[16]; };
static int g_dist; static atomic_llong n_ops, n_sets, n_repl, n_rem, n_miss, n_enum, n_grow, n_shrink, n_q, n_qfull, n_qempty, n_push, n_pop, n_maxel, n_tables;
static uint64_t h(uint32_t k) { switch (g_dist) { case 0: return k; case 1: return 0; case 2: return k & 3; case 3: return vt_mix(k); case 4: return (uint64_t)k << 4; case 5: return (uint64_t)k << 32; case 6: return k % 7 + 14; case 7: return ~(uint64_t)k; default: return (k & 1) ? 15 : vt_mix(k); } }
static uint64_t el_hash(const void* e) { return h(((const struct el*)e)->key); }
static int el_cmp(const void* a, const void* b) { return ((const struct el*)a)->key == ((const struct el*)b)->key ? 0 : 1; }
#define KEYS 4096
static uint64_t model[KEYS]; static uint8_t has[KEYS]; static int seen[KEYS]; static int nmodel; static int g_stamp, g_count;
static void mk(struct el* e, uint32_t k, uint64_t v) { memset(e, 0, sizeof *e); e->key = k; e->val = v; vt_fill(e->pad, sizeof e->pad, v ^ k); }
static int good(const struct el* e) { return vt_verify(e->pad, sizeof e->pad, e->val ^ e->key); }
static void en(int idx, const void* p, void* ctx) { (void)idx; (void)ctx; const struct el* e = p; g_count++; VT_CHECK(e->key < KEYS && has[e->key], "map-enumerate", "enumeration returns key %u which is not stored", e->key); VT_CHECK(good(e) && e->val == model[e->key], "map-enumerate", "enumeration returns another value for key %u", e->key); VT_CHECK(seen[e->key] != g_stamp, "map-enumerate", "enumeration returns key %u twice", e->key); seen[e->key] = g_stamp; }
static void full_check(gr_hashtable_t* t, uint32_t range) {
    g_stamp++; g_count = 0; gr_hashtable_enumerate(t, en, NULL); inc(&n_enum); VT_CHECK(g_count == nmodel, "map-enumerate", "enumeration returns %d of %d stored elements", g_count, nmodel);
    for (uint32_t k = 0; k < range; k++) { struct el e; mk(&e, k, 0); struct el* g = gr_hashtable_get(t, &e); VT_CHECK(!g == !has[k], "map-get", "key %u is %s but lookup says otherwise", k, has[k] ? "stored" : "not stored"); if (g) VT_CHECK(g->key == k && g->val == model[k] && good(g), "map-get", "lookup of key %u returns another value", k); }
}
static void table(int ops) {
    gr_hashtable_t t; g_dist = (int)vt_below(9); uint32_t range = g_dist == 1 || g_dist == 2 || g_dist == 6 ? 20 + vt_below(180) : vt_rand() & 1 ? 30 + vt_below(100) : 200 + vt_below(KEYS - 200); memset(has, 0, sizeof has); nmodel = 0; inc(&n_tables);
    static const size_t caps[] = { 0, 1, 16, 17, 100 }; if (gr_hashtable_construct(&t, caps[vt_below(5)], sizeof(struct el), el_hash, el_cmp)) vt_viol("construct", "hashtable");
    size_t cap = t.capacity; int phase = 0; /* 0 mixed 1 grow 2 shrink */
    for (int i = 0; i < ops; i++) {
        if (vt_below(120) == 0) phase = (int)vt_below(3); inc(&n_ops); if ((i & 255) == 0) vt_trace(vt_rand());
        uint32_t k = vt_below(range); unsigned r = vt_below(100); struct el e, *o; int setp = phase == 0 ? 40 : phase == 1 ? 75 : 8, remp = phase == 0 ? 75 : phase == 1 ? 82 : 85;
        if ((int)r < setp) { uint64_t v = vt_rand(); mk(&e, k, v); o = gr_hashtable_set(&t, &e); inc(&n_sets);
            if (has[k]) { inc(&n_repl); VT_CHECK(o && o->key == k && o->val == model[k] && good(o), "map-set", "replacing key %u does not return the previous element", k); } else { VT_CHECK(!o, "map-set", "inserting a new key %u returns an element", k); has[k] = 1; nmodel++; } model[k] = v; if (nmodel > ldl(&n_maxel)) atomic_store(&n_maxel, nmodel); }
        else if ((int)r < remp) { mk(&e, k, 1); o = gr_hashtable_remove(&t, &e); inc(&n_rem); if (has[k]) { VT_CHECK(o && o->key == k && o->val == model[k] && good(o), "map-remove", "removing key %u does not return its element", k); has[k] = 0; nmodel--; } else { VT_CHECK(!o, "map-remove", "removing a missing key %u returns an element", k); inc(&n_miss); } }
        else { mk(&e, k, 1); o = gr_hashtable_get(&t, &e); VT_CHECK(!o == !has[k], "map-get", "key %u is %s but lookup says otherwise", k, has[k] ? "stored" : "not stored"); if (o) VT_CHECK(o->key == k && o->val == model[k] && good(o), "map-get", "lookup of key %u returns another value", k); }
        if (t.capacity != cap) { inc(t.capacity > cap ? &n_grow : &n_shrink); cap = t.capacity; full_check(&t, range); }
        else if (vt_below(60) == 0) full_check(&t, range);
    }
    /* empty it completely and use it again */
    for (uint32_t k = 0; k < range; k++) { struct el e; mk(&e, k, 0); void* o = gr_hashtable_remove(&t, &e); VT_CHECK(!o == !has[k], "map-remove", "emptying: key %u", k); if (has[k]) { has[k] = 0; nmodel--; } } full_check(&t, range);
    struct el e; mk(&e, 3, 77); VT_CHECK(!gr_hashtable_set(&t, &e), "map-set", "an emptied table still has elements"); has[3] = 1; model[3] = 77; nmodel = 1; full_check(&t, range);
    gr_hashtable_destroy(&t);
}
/* how the client uses it: ids count up, each removed some time later */
static void sliding(void) {
    gr_hashtable_t t; g_dist = 0; gr_hashtable_construct(&t, 0, sizeof(struct el), el_hash, el_cmp); static uint32_t win[256]; int nw = 0; uint32_t id = vt_rand() & 1 ? 1 : 0xffffff00u;
    for (int i = 0; i < 4000; i++) { struct el e, *o; if (nw < 256 && (vt_below(2) || nw < 2)) { mk(&e, id, id * 3ULL); VT_CHECK(!gr_hashtable_set(&t, &e), "map-set", "a new id is already present"); win[nw++] = id++; } else { int k = (int)vt_below((uint32_t)nw); mk(&e, win[k], 0); o = gr_hashtable_remove(&t, &e); VT_CHECK(o && o->key == win[k] && o->val == win[k] * 3ULL && good(o), "map-remove", "an outstanding id is lost"); win[k] = win[--nw]; } inc(&n_ops); if (i % 50 == 0) for (int k = 0; k < nw; k++) { mk(&e, win[k], 0); o = gr_hashtable_get(&t, &e); VT_CHECK(o && o->key == win[k] && o->val == win[k] * 3ULL, "map-get", "an outstanding id is not found"); } }
    gr_hashtable_destroy(&t); vt_trace(vt_rand());
}
/* more items than the indices of the queue can count */
static void queue_long(void) {
    unsigned cap = 3 + vt_below(90) * 2; struct gr_queue q; memset(&q, 0, sizeof q); if (gr_queue_construct(&q, cap)) vt_viol("construct", "queue"); uintptr_t next = 1, expect = 1; unsigned half = cap / 2 + 1;
    for (unsigned i = 0; i < half; i++) if (gr_queue_enqueue(&q, (void*)next++)) vt_viol("queue-refused", "refused");
    while (next < (1ull << 32) + 100000) {
        for (int k = 0; k < 1000000; k++) { VT_CHECK(gr_queue_enqueue(&q, (void*)next) == 0, "queue-refused", "a queue of %u holding %u refuses item %lu", cap, half, (unsigned long)next); next++; void* p = gr_queue_dequeue(&q); VT_CHECK((uintptr_t)p == expect, "queue-order", "a queue of %u returns item %lu instead of %lu", cap, (unsigned long)(uintptr_t)p, (unsigned long)expect); expect++; }
        vt_progress();
    }
    gr_queue_destroy(&q); n_q += (long long)next;
}
static void queue(int ops) {
    static const unsigned caps[] = { 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 64, 100, 128 }; unsigned cap = caps[vt_below(14)]; struct gr_queue q; memset(&q, 0, sizeof q); if (gr_queue_construct(&q, cap)) vt_viol("construct", "queue"); uintptr_t next = 1, expect = 1; VT_CHECK(gr_queue_enqueue(&q, NULL) == -1, "queue", "nothing is accepted");
    for (int i = 0; i < ops; i++) {
        inc(&n_q); int bias = (i / 97) % 3; unsigned r = vt_below(100); unsigned held = (unsigned)(next - expect);
        if (r < (bias == 0 ? 50u : bias == 1 ? 75u : 25u)) { int st = gr_queue_enqueue(&q, (void*)next); if (held < cap) { VT_CHECK(st == 0, "queue-refused", "a queue of %u holding %u refuses an item", cap, held); next++; } else { VT_CHECK(st == -1, "queue-overflow", "a full queue of %u accepts an item", cap); inc(&n_qfull); } }
        else { void* p = gr_queue_dequeue(&q); if (held) { VT_CHECK((uintptr_t)p == expect, "queue-order", "a queue returns item %lu instead of %lu", (unsigned long)(uintptr_t)p, (unsigned long)expect); expect++; } else { VT_CHECK(!p, "queue-phantom", "an empty queue returns an item"); inc(&n_qempty); } }
    }
    gr_queue_destroy(&q); vt_trace(vt_rand());
}
static struct stack ST; static _Atomic uint8_t owned[1 << 16]; static int s_n;
static void* st_user(void* a) {
    int me = (int)(intptr_t)a; int mine[512], nm = 0; for (int i = 0; i < 128; i++) mine[nm++] = me * 128 + i + 1;
    for (int i = 0; i < s_n; i++) {
        if (nm && (nm >= 500 || vt_below(2))) { int k = (int)vt_below((uint32_t)nm), v = mine[k]; mine[k] = mine[--nm]; VT_CHECK(atomic_exchange_explicit(&owned[v], 0, memory_order_relaxed) == 1, "pool-model", "ownership"); stack_push(&ST, (void*)(intptr_t)v); inc(&n_push); vt_perturb(31); }
        else { int v = (int)(intptr_t)stack_pop(&ST); if (!v) continue; VT_CHECK(v > 0 && v < (1 << 16), "pool-corrupt", "the pool returns something that was never stored"); VT_CHECK(atomic_exchange_explicit(&owned[v], 1, memory_order_relaxed) == 0, "pool-duplicate", "the pool returned one item to two owners"); mine[nm++] = v; inc(&n_pop); vt_perturb(32); }
        if ((i & 63) == 0) vt_trace(vt_rand());
    }
    while (nm) { int v = mine[--nm]; atomic_store_explicit(&owned[v], 0, memory_order_relaxed); stack_push(&ST, (void*)(intptr_t)v); }
    return 0;
}
static void pool(void) {
    static const size_t caps[] = { 1, 2, 8, 3 }; if (stack_construct(&ST, caps[vt_below(4)])) vt_viol("construct", "stack"); int n = 1 + (int)vt_below(8); pthread_t t[8]; s_n = (int)vt_arg("sops", 1500); memset(owned, 0, sizeof owned); for (int i = 0; i < n * 128; i++) atomic_store(&owned[i + 1], 1);
    for (int i = 0; i < n; i++) pthread_create(&t[i], 0, st_user, (void*)(intptr_t)i);
    for (int i = 0; i < n; i++) pthread_join(t[i], 0);
    int got = 0, v; while ((v = (int)(intptr_t)stack_pop(&ST))) { VT_CHECK(v > 0 && v <= n * 128, "pool-corrupt", "the pool returns something that was never stored"); VT_CHECK(!atomic_exchange(&owned[v], 1), "pool-duplicate", "the pool returned an item twice"); got++; VT_CHECK(got <= n * 128, "pool-duplicate", "more items than stored"); }
    VT_CHECK(got == n * 128, "pool-lost", "the pool returned %d of %d stored items", got, n * 128); stack_destroy(&ST);
}
void scen_containers(void) {
    int rounds = (int)vt_arg("rounds", 14), ops = (int)vt_arg("ops", 4000);
    if (vt_arg("wrap", 0)) queue_long();
    for (int i = 0; i < rounds; i++) { table(ops); sliding(); for (int k = 0; k < 3; k++) queue(1500); if (i % 2 == 0) pool(); }
    vt_stat("map_operations", ldl(&n_ops)); vt_stat("tables", ldl(&n_tables)); vt_stat("replacements", ldl(&n_repl)); vt_stat("removals", ldl(&n_rem)); vt_stat("enumerations", ldl(&n_enum)); vt_stat("growths", ldl(&n_grow)); vt_stat("shrinks", ldl(&n_shrink)); vt_stat("largest_map", ldl(&n_maxel)); vt_stat("queue_operations", ldl(&n_q)); vt_stat("queue_full", ldl(&n_qfull)); vt_stat("queue_empty", ldl(&n_qempty)); vt_stat("pool_pushes", ldl(&n_push)); vt_stat("pool_pops", ldl(&n_pop));
    vt_sample("containers: %lld map operations, %lld growths, %lld shrinks, %lld queue operations, %lld pool pops", ldl(&n_ops), ldl(&n_grow), ldl(&n_shrink), ldl(&n_q), ldl(&n_pop));
}
