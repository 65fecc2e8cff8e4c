// Controlled execution of real threads at memory-access granularity.  The library is compiled with
// -fsanitize=thread, but the __tsan_* functions it calls are the ones below: every access is a step of the
// schedule, exactly one thread runs at a time, the plan says after which steps it is preempted, and vector
// clocks find every pair of conflicting accesses that the executed synchronization does not order.
#pragma once
#include "props.h"
#include <array>
#include <linux/futex.h>
#include <sys/syscall.h>
static const int T = 8;                                            // threads per execution
struct Th { bool used = false, finished = false, joined = false, detached = false; int wait_for = -1; void *wait_mu = nullptr; void *(*f)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; pthread_t os; std::atomic<int> go{0}; uint16_t vc[T]; char *lo = nullptr, *hi = nullptr; };
struct Acc { uint64_t key; uint32_t gen; uint16_t w[8][T], r[8][T]; };
static const uint32_t SHN = 1u << 15;
struct Race {
    bool on = false; Th th[T]; int n = 0, cur = 0; int mode = 0; std::vector<long> plan; size_t pi = 0; long step = 0, vstep = 0, since = 0, switches = 0; bool heap_visible = true;
    Acc *sh = nullptr; uint32_t gen = 0; std::map<void *, std::pair<int, std::array<uint16_t, T>>> mu; std::map<void *, std::array<uint16_t, T>> at; std::string found; long races = 0; void *pc = nullptr;
};
static Race X; static char *stacks; static const size_t STK = 1 << 20; static char *main_lo, *main_hi;
static __thread int my_id = -1;
static void fwait(std::atomic<int> &a) { for (int k = 0; k < 50; k++) if (a.load(std::memory_order_acquire)) goto out; while (!a.load(std::memory_order_acquire)) syscall(SYS_futex, (int *) &a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); out: a.store(0); }
static void fwake(std::atomic<int> &a) { a.store(1, std::memory_order_release); syscall(SYS_futex, (int *) &a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static bool runnable(int t) { Th &h = X.th[t]; if (!h.used || h.finished) return false; if (h.wait_for >= 0 && !X.th[h.wait_for].finished) return false; if (h.wait_mu) { auto q = X.mu.find(h.wait_mu); if (q != X.mu.end() && q->second.first >= 0) return false; } return true; }
static void switch_to(int t) { int me = X.cur; if (t == me) return; X.cur = t; X.since = 0; X.switches++; fwake(X.th[t].go); if (!X.th[me].finished) fwait(X.th[me].go); }
static int other(int from) { for (int k = 1; k <= X.n; k++) { int t = (from + k) % X.n; if (t != from && runnable(t)) return t; } return -1; }
static void block() {                                              // the current thread cannot go on
    if (runnable(X.cur)) return; int t = -1; for (int k = 0; k < X.n; k++) { int c = X.mode ? k : X.n - 1 - k; if (runnable(c)) { t = c; break; } }
    if (t < 0) { if (X.th[X.cur].finished) return; fprintf(stderr, "assertion failed: deadlock between the threads\n"); _exit(97); } switch_to(t); }
static void point(bool visible) {
    X.step++; if (++X.since > 3000000) { int t = other(X.cur); if (t >= 0) switch_to(t); X.since = 0; }
    if (!visible) return; long s = X.vstep++; if (X.pi < X.plan.size() && s == X.plan[X.pi]) { X.pi++; int t = other(X.cur); if (t >= 0) switch_to(t); } }
static Acc *cell(uint64_t key) { uint32_t k = (uint32_t) (key * 0x9E3779B97F4A7C15ull >> 40) & (SHN - 1); for (;; k = (k + 1) & (SHN - 1)) { Acc &a = X.sh[k]; if (a.gen == X.gen && a.key == key) return &a; if (a.gen != X.gen) { memset((void *) &a, 0, sizeof a); a.gen = X.gen; a.key = key; return &a; } } }
static std::string place(char *p) { char b[200]; if (p >= E.base && p < E.base + E.top) { for (size_t k = E.blocks.size(); k-- > 0;) if (E.blocks[k].p <= p && p < E.blocks[k].p + E.blocks[k].n) { snprintf(b, sizeof b, "byte %td of heap block %ld (%zu bytes)", p - E.blocks[k].p, E.blocks[k].seq, E.blocks[k].n); return b; } return "heap"; }
    for (int k = 0; k < X.n; k++) if (p >= X.th[k].lo && p < X.th[k].hi) { snprintf(b, sizeof b, "the stack of thread %d", k); return b; } return "static memory"; }
static std::string where(void *pc) { if (!loud) return ""; char c[300], e[300] = "/proc/self/exe"; ssize_t k = readlink("/proc/self/exe", e, sizeof e - 1); if (k > 0) e[k] = 0; snprintf(c, sizeof c, "addr2line -f -s -e %s %p", e, (char *) pc - 1); FILE *f = popen(c, "r"); std::string s = " at"; char l[200]; while (f && fgets(l, sizeof l, f)) { s += " " + std::string(l); s.pop_back(); } if (f) pclose(f); return s; }
static void access(void *addr, size_t n, bool wr, void *pc) {
    if (!X.on || X.n < 2) return; int me = X.cur; Th &h = X.th[me]; char *p = (char *) addr; bool own = p >= h.lo && p < h.hi;
    for (char *q = p; q < p + n;) { uint64_t key = (uint64_t) q >> 3; int a = (int) ((uint64_t) q & 7), e = (int) std::min<size_t>(8, a + (p + n - q)); Acc *A = cell(key);
        for (int b = a; b < e; b++) { for (int u = 0; u < X.n; u++) if (u != me) { bool cw = A->w[b][u] > h.vc[u], cr = wr && A->r[b][u] > h.vc[u]; if (cw || cr) { if (X.found.empty()) X.found = std::string(wr ? "write" : "read") + " by thread " + std::to_string(me) + where(pc) + " is not ordered with an earlier " + (cw ? "write" : "read") + " by thread " + std::to_string(u) + ": " + place(q); X.races++; } }
            (wr ? A->w : A->r)[b][me] = h.vc[me]; }
        q += e - a; }
    point(!own && (X.heap_visible || !(p >= E.base && p < E.base + E.cap))); }
static void env_step() { if (X.on && X.n >= 2) point(true); }
static void *trampoline(void *q) { int id = (int) (intptr_t) q; my_id = id; fwait(X.th[id].go); X.th[id].ret = X.th[id].f(X.th[id].arg); X.th[id].finished = true; block(); return nullptr; }
static int add_thread(void *(*f)(void *), void *a) {
    if (X.n == T) { env_fault("more than %d threads", T); return -1; } int id = X.n; Th &h = X.th[id]; h.used = true; h.finished = h.joined = h.detached = false; h.wait_for = -1; h.wait_mu = nullptr; h.f = f; h.arg = a; h.go = 0; memset(h.vc, 0, sizeof h.vc);
    Th &c = X.th[X.cur]; for (int k = 0; k < T; k++) h.vc[k] = c.vc[k]; h.vc[id] = 1; c.vc[X.cur]++; h.lo = stacks + STK * id; h.hi = h.lo + STK; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, h.lo, STK); if (pthread_create(&h.os, &at, trampoline, (void *) (intptr_t) id)) { env_fault("the explorer could not create a thread"); return -1; } pthread_attr_destroy(&at); X.n++; return id; }
static void join_thread(int id) { Th &h = X.th[X.cur]; h.wait_for = id; block(); h.wait_for = -1; for (int k = 0; k < T; k++) h.vc[k] = std::max(h.vc[k], X.th[id].vc[k]); X.th[id].joined = true; pthread_join(X.th[id].os, nullptr); }
static void race_begin(int mode, const std::vector<long> &plan, bool heap_visible) {
    if (!X.sh) { X.sh = (Acc *) calloc(SHN, sizeof(Acc)); stacks = (char *) mmap(0, STK * T, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void *lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); main_lo = (char *) lo; main_hi = main_lo + sz; pthread_attr_destroy(&a); }
    X.n = 1; X.cur = 0; for (auto &h : X.th) { h.used = false; h.vc[0] = 0; memset(h.vc, 0, sizeof h.vc); } X.th[0].used = true; X.th[0].finished = false; X.th[0].wait_for = -1; X.th[0].wait_mu = nullptr; X.th[0].vc[0] = 1; X.th[0].lo = main_lo; X.th[0].hi = main_hi; X.th[0].go = 0; X.gen++; X.mode = mode; X.plan = plan; X.pi = 0; X.step = X.vstep = X.since = X.switches = 0; X.mu.clear(); X.at.clear(); X.found.clear(); X.races = 0; X.heap_visible = heap_visible; X.on = true; }
// ends the execution; true if every helper had been waited for
static bool race_end() { bool ok = true; for (int k = 1; k < X.n; k++) if (!X.th[k].joined) { ok = false; join_thread(k); } X.on = false; return ok; }
static void sync_in(std::array<uint16_t, T> &m) { Th &h = X.th[X.cur]; for (int k = 0; k < T; k++) h.vc[k] = std::max(h.vc[k], m[k]); }
static void sync_out(std::array<uint16_t, T> &m) { Th &h = X.th[X.cur]; for (int k = 0; k < T; k++) m[k] = std::max(m[k], h.vc[k]); h.vc[X.cur]++; }
static void atomic_op(void *a) { if (!X.on) return; env_step(); auto &m = X.at[a]; sync_in(m); sync_out(m); }
extern "C" {
int mc_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) {
    if (!X.on) { E.threads++; *t = (pthread_t) (0x7e57 + E.threads); f(a); return 0; }
    env_step(); int id = add_thread(f, a); if (id < 0) return EAGAIN; *t = (pthread_t) (0x9e57 + id); E.threads++; if (X.mode == 0) switch_to(id); return 0; }
int mc_pthread_join(pthread_t t, void **r) {
    if (!X.on) { if (r) *r = nullptr; E.joins++; return 0; } long id = (long) t - 0x9e57; if (id < 1 || id >= X.n || X.th[id].joined) { env_fault("join of a thread that does not exist"); return ESRCH; }
    env_step(); join_thread((int) id); E.joins++; if (r) *r = X.th[id].ret; return 0; }
int mc_pthread_detach(pthread_t t) { if (X.on) { long id = (long) t - 0x9e57; if (id >= 1 && id < X.n) X.th[id].detached = true; } return 0; }
int mc_pthread_mutex_lock(pthread_mutex_t *m) { if (!X.on) return 0; env_step(); auto &q = X.mu.insert({m, {-1, {}}}).first->second; Th &h = X.th[X.cur]; while (q.first >= 0) { h.wait_mu = m; block(); h.wait_mu = nullptr; } q.first = X.cur; sync_in(q.second); return 0; }
int mc_pthread_mutex_trylock(pthread_mutex_t *m) { if (!X.on) return 0; auto q = X.mu.find(m); if (q != X.mu.end() && q->second.first >= 0) return EBUSY; return mc_pthread_mutex_lock(m); }
int mc_pthread_mutex_unlock(pthread_mutex_t *m) { if (!X.on) return 0; auto &q = X.mu[m]; q.first = -1; sync_out(q.second); env_step(); return 0; }
void mc_qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { void *pc = __builtin_return_address(0); access(b, n * s, false, pc); qsort(b, n, s, cmp); access(b, n * s, true, pc); }
// library functions with hidden state
static char hidden_state[4];
int mc_rand() { access(hidden_state, 1, true, __builtin_return_address(0)); return rand(); }
void mc_srand(unsigned s) { access(hidden_state, 1, true, __builtin_return_address(0)); srand(s); }
char *mc_strtok(char *s, const char *d) { access(hidden_state + 1, 1, true, __builtin_return_address(0)); return strtok(s, d); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define PC __builtin_return_address(0)
#define RW(N) void __tsan_read##N(void *a) { access(a, N, false, PC); } void __tsan_write##N(void *a) { access(a, N, true, PC); } void __tsan_read_write##N(void *a) { access(a, N, false, PC); access(a, N, true, PC); } \
    void __tsan_volatile_read##N(void *a) { access(a, N, false, PC); } void __tsan_volatile_write##N(void *a) { access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define UN(N) void __tsan_unaligned_read##N(void *a) { access(a, N, false, PC); } void __tsan_unaligned_write##N(void *a) { access(a, N, true, PC); } void __tsan_unaligned_read_write##N(void *a) { access(a, N, false, PC); access(a, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void *a) { access(a, N, false, PC); } void __tsan_unaligned_volatile_write##N(void *a) { access(a, N, true, PC); }
UN(2) UN(4) UN(8) UN(16)
void __tsan_vptr_update(void **a, void *) { access(a, 8, true, PC); } void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
void __tsan_read_range(void *a, size_t n) { access(a, n, false, PC); } void __tsan_write_range(void *a, size_t n) { access(a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access((void *) s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access((void *) s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }
#define AT(B, Y) Y __tsan_atomic##B##_load(const volatile Y *a, int) { atomic_op((void *) a); return *a; } void __tsan_atomic##B##_store(volatile Y *a, Y v, int) { atomic_op((void *) a); *a = v; } Y __tsan_atomic##B##_exchange(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = v; return o; } \
    Y __tsan_atomic##B##_fetch_add(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = o + v; return o; } Y __tsan_atomic##B##_fetch_sub(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = o - v; return o; } Y __tsan_atomic##B##_fetch_and(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = o & v; return o; } \
    Y __tsan_atomic##B##_fetch_or(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = o | v; return o; } Y __tsan_atomic##B##_fetch_xor(volatile Y *a, Y v, int) { atomic_op((void *) a); Y o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile Y *a, Y *c, Y v, int, int) { atomic_op((void *) a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } int __tsan_atomic##B##_compare_exchange_weak(volatile Y *a, Y *c, Y v, int, int) { atomic_op((void *) a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    Y __tsan_atomic##B##_compare_exchange_val(volatile Y *a, Y c, Y v, int, int) { atomic_op((void *) a); Y o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { atomic_op(nullptr); } void __tsan_atomic_signal_fence(int) {}
}
static void race_free_hook(void *p) { if (!X.on || !p) return; Hdr *h = env_hdr(p); if (h) access(p, h->n, true, nullptr); }
static bool race_report(const char *what) { if (!X.found.empty()) { V("%s: %s", what, X.found.c_str()); return true; } return false; }
// ---- C10: the two threads of a construction -------------------------------------------------------
static Hist c10_run(const LP &p, const Stg &g, int mode, const std::vector<long> &plan, bool &stop) {
    Hist h; stop = true; env_reset(); Case K(p, g); race_begin(mode, plan, true); h.built = K.build(REL); bool all = race_end(); cnt(N_SCHED); cnt(N_EVENTS, X.step);
    if (race_report("construction")) return h; if (!all) { V("construction returns while a helper thread is still running or not waited for"); return h; } if (!E.fault.empty()) { V("construction: %s", E.fault.c_str()); return h; } if (!h.built) { V("construction fails"); return h; }
    h.st = K.run(REL); h.d.u(h.st); dig_stats(h.d, K.P); if (is_lp_status(h.st) && sane(K.P)) { dig_reduced(h.d, K.P); K.post(REL, 0); dig_sol(h.d, K.P); } K.done(REL); stop = false; return h; }
static void run_c10(Ctx &C, const Stg &g, int depth) {
    const LP &p = *C.lp; env_reset(); X.on = false; Hist base = history(REL, p, g, 1); if (!base.built || !E.fault.empty()) return; bool stop;
    auto one = [&](int mode, std::vector<long> plan) { std::vector<long> v{mode}; for (long s : plan) v.push_back(s); if (!want(v)) return true; Hist h = c10_run(p, g, mode, plan, stop); if (stop) return false; cnt(N_COMPARE); if (h.d != base.d) { V("the presolver depends on the schedule (verdict %d instead of %d)", h.st, base.st); return false; } sh->beat++; return true; };
    if (g_only && !g_only->empty()) { one((int) (*g_only)[0], {g_only->begin() + 1, g_only->end()}); return; }
    for (int mode = 0; mode < 2; mode++) { if (!one(mode, {})) return; if (!depth) continue; long N = X.vstep;
        for (long i = 0; i < N; i++) { if (!one(mode, {i})) return; if (depth < 2) continue; long M = X.vstep; for (long j = i + 1; j < M; j++) if (!one(mode, {i, j})) return; } } }
// ---- C11: two instances in two threads ------------------------------------------------------------
struct Life { const LP *p; const Stg *g; Hist h; };
static void *life(void *q) { Life *L = (Life *) q; L->h = history(REL, *L->p, *L->g, 1); return nullptr; }
static void run_c11(Ctx &C, const Stg &g, int depth) {
    const LP &p = *C.lp; X.on = false; env_reset(); Hist hp = history(REL, p, g, 1); if (!hp.built || !E.fault.empty()) return;
    for (int o = -1; o < (depth ? 0 : (int) others.size()); o++) { const LP &q = o < 0 ? p : others[o]; Hist hq = hp; if (o >= 0) { env_reset(); hq = history(REL, q, g, 1); }
        auto one = [&](int mode, std::vector<long> plan) { std::vector<long> v{o, mode}; for (long s : plan) v.push_back(s); if (!want(v)) return true; env_reset(); static Life A, B; A.p = &p; B.p = &q; A.g = B.g = &g; A.h = B.h = Hist();
            race_begin(mode, plan, false); int a = add_thread(life, &A), b = add_thread(life, &B); join_thread(a); join_thread(b); bool all = race_end(); cnt(N_SCHED); cnt(N_EVENTS, X.step); sh->beat++;
            if (race_report("two instances")) return false; if (!all) { V("a helper thread outlives its construction"); return false; } if (!E.fault.empty()) { V("two instances: %s", E.fault.c_str()); return false; } cnt(N_COMPARE, 2);
            if (A.h.d != hp.d || B.h.d != hq.d) { V("an instance gives other results next to an instance in another thread (verdicts %d, %d instead of %d, %d)", A.h.st, B.h.st, hp.st, hq.st); return false; } return true; };
        if (g_only && !g_only->empty()) { if ((*g_only)[0] == o) one((int) (*g_only)[1], {g_only->begin() + 2, g_only->end()}); continue; }
        for (int mode = 0; mode < (depth < 2 ? 2 : 1); mode++) { if (!one(mode, {})) return; if (!depth) continue; long N = X.vstep;
            for (long i = 0; i < N; i++) { if (!one(mode, {i})) return; if (depth < 2) continue; long M = X.vstep; for (long j = i + 1; j < M; j++) if (!one(mode, {i, j})) return; } } } }
