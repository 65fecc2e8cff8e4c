// The environment PSLP runs in: heap, clock and helper thread are all decided by the explorer.
// build.sh redirects the library's calls to the mc_ functions below.
#pragma once
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <vector>
#ifdef SANITIZED
#include <sanitizer/asan_interface.h>
#endif

#ifdef RACE
static void env_step(); static void race_free_hook(void *);        // race.h: calls to the environment are steps of the schedule
#define ENV_STEP() env_step()
#else
#define ENV_STEP() ((void) 0)
#endif
struct Block { char *p; size_t n; bool live; long seq; };
struct Env {
    // heap: a bump arena that is never reused within a case; every block carries a red zone at both ends
    char *base = nullptr; size_t cap = 0, top = 0, start = 0;
    std::vector<Block> blocks; long live = 0, n_alloc = 0; int fill = 0xA5; bool strict = false;
    long fail_from = -1, fail_to = -1, fail2 = -1; long refused = 0;          // allocations [fail_from, fail_to) are refused
    // clock
    long clock_reads = 0, strike = -1; double step = 1e-6, strike_by = 1e6;
    // helper thread: 0 = runs at creation, 1 = runs when joined, 2 = creation is refused
    int thr_mode = 0; void *(*pend)(void *) = nullptr; void *pend_arg = nullptr; bool pend_set = false; int threads = 0, joins = 0;
    std::string fault;                                             // first misuse of the environment
    jmp_buf *on_assert = nullptr;
    std::string out;                                               // everything the library printed
};
static Env E;
static void env_fault(const char *fmt, ...) { if (!E.fault.empty()) return; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); E.fault = b; }
static const int RZ = 16;
static void env_init() { E.cap = 64u << 20; E.base = (char *) mmap(0, E.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static void env_reset(int fill = 0xA5, bool strict = false, size_t start = 0) {
#ifdef SANITIZED
    for (auto &b : E.blocks) if (b.live) free(b.p);
#endif
    E.blocks.clear(); E.live = 0; E.n_alloc = 0; E.fill = fill; E.strict = strict; E.top = E.start = start; E.fail_from = E.fail_to = E.fail2 = -1; E.refused = 0;
    E.clock_reads = 0; E.strike = -1; E.step = 1e-6; E.strike_by = 1e6; E.thr_mode = 0; E.pend_set = false; E.threads = E.joins = 0; E.fault.clear(); E.out.clear(); E.on_assert = nullptr;
}
static bool env_refuse() { ENV_STEP(); long k = E.n_alloc++; if ((k >= E.fail_from && k < E.fail_to) || k == E.fail2) { E.refused++; return true; } return false; }
#ifdef SANITIZED
static std::vector<Block>::iterator env_find(void *p) { for (size_t i = E.blocks.size(); i-- > 0;) if (E.blocks[i].p == p && E.blocks[i].live) return E.blocks.begin() + i; return E.blocks.end(); }
static void *env_alloc(size_t n, bool zero) {
    if (env_refuse()) { errno = ENOMEM; return nullptr; }
    if (n > (1u << 28)) { env_fault("allocation of %zu bytes", n); return nullptr; }
    char *p = (char *) malloc(n ? n : 1); if (!p) return p; if (!n) __asan_poison_memory_region(p, 1); memset(p, zero ? 0 : E.fill, n); E.blocks.push_back({p, n, true, E.n_alloc - 1}); E.live++; return p; }
static void env_free(void *p) { if (!p) return; auto b = env_find(p); if (b == E.blocks.end()) { free(p); env_fault("release of a block that is not live"); return; } b->live = false; E.live--; if (!b->n) __asan_unpoison_memory_region(p, 1); free(p); }
static size_t env_size(void *p) { auto b = env_find(p); return b == E.blocks.end() ? (size_t) -1 : b->n; }
static void env_verify() { if (E.live && E.fault.empty()) for (auto &b : E.blocks) if (b.live) { env_fault("block of %zu bytes (allocation %ld) is never released; %ld blocks are leaked", b.n, b.seq, E.live); break; } }
#else
struct Hdr { size_t n; uint64_t idx; uint64_t m1, m2; };            // 32 bytes, the last 16 are the front red zone
static const uint64_t M1 = 0xfdfdfdfdfdfdfdfdull, M2 = 0xfbfbfbfbfbfbfbfbull;
static void *env_alloc(size_t n, bool zero) {
    if (env_refuse()) { errno = ENOMEM; return nullptr; }
    size_t need = sizeof(Hdr) + ((n + 15) & ~(size_t) 15) + RZ; if (n > E.cap || E.top + need > E.cap) { env_fault("allocation of %zu bytes exhausts the heap", n); return nullptr; }
    Hdr *h = (Hdr *) (E.base + E.top); E.top += need; h->n = n; h->idx = E.blocks.size(); h->m1 = M1; h->m2 = M2;
    char *p = (char *) (h + 1); memset(p, zero ? 0 : E.fill, n); size_t tail = need - sizeof(Hdr) - n; memset(p + n, 0xfd, tail);
    E.blocks.push_back({p, n, true, E.n_alloc - 1}); E.live++; return p; }
static Hdr *env_hdr(void *p) { char *q = (char *) p; if (q < E.base + sizeof(Hdr) || q >= E.base + E.top || ((uintptr_t) q & 15)) return nullptr; Hdr *h = (Hdr *) q - 1; if (h->idx >= E.blocks.size() || E.blocks[h->idx].p != q) return nullptr; return h; }
static bool env_rz(const Block &b) { Hdr *h = (Hdr *) b.p - 1; if (h->m1 != M1 || h->m2 != M2) { env_fault("memory in front of block %ld (%zu bytes) was overwritten", b.seq, b.n); return false; }
    size_t tail = ((b.n + 15) & ~(size_t) 15) + RZ - b.n; for (size_t i = 0; i < tail; i++) if ((unsigned char) b.p[b.n + i] != 0xfd) { env_fault("memory behind block %ld (%zu bytes) was overwritten", b.seq, b.n); return false; } return true; }
static void env_free(void *p) { if (!p) return; Hdr *h = env_hdr(p); if (!h) { env_fault("release of a pointer that was never allocated"); return; } Block &b = E.blocks[h->idx]; if (!b.live) { env_fault("double release of block %ld (%zu bytes)", b.seq, b.n); return; }
    if (E.strict) { env_rz(b); memset(b.p, 0xDD, b.n); } b.live = false; E.live--; }
static size_t env_size(void *p) { Hdr *h = env_hdr(p); if (!h || !E.blocks[h->idx].live) return (size_t) -1; return h->n; }
// at the end of a case: red zones intact, released memory not written, nothing left
static void env_verify() {
    for (auto &b : E.blocks) { env_rz(b); if (!b.live) for (size_t i = 0; i < b.n; i++) if ((unsigned char) b.p[i] != 0xDD) { env_fault("block %ld (%zu bytes) was written after its release", b.seq, b.n); break; } if (!E.fault.empty()) return; }
    if (E.live) for (auto &b : E.blocks) if (b.live) { env_fault("block of %zu bytes (allocation %ld) is never released; %ld blocks are leaked", b.n, b.seq, E.live); break; } }
#endif
static const char *assert_msg; static char assert_buf[400];
extern "C" {
void *mc_malloc(size_t n) { return env_alloc(n, false); }
void *mc_calloc(size_t a, size_t b) { if (b && a > (size_t) -1 / b) return nullptr; return env_alloc(a * b, true); }
#ifdef RACE
void mc_free(void *p) { env_step(); race_free_hook(p); env_free(p); }
#else
void mc_free(void *p) { env_free(p); }
#endif
void *mc_realloc(void *p, size_t n) { if (!p) return env_alloc(n, false); size_t o = env_size(p); if (o == (size_t) -1) { env_fault("realloc of a block that is not live"); return nullptr; }
    void *q = env_alloc(n, false); if (!q) return q; memcpy(q, p, o < n ? o : n); env_free(p); return q; }    // always moves
void *mc_reallocarray(void *p, size_t a, size_t b) { return mc_realloc(p, a * b); }
void *mc_aligned_alloc(size_t, size_t n) { return env_alloc(n, false); }
void *mc_memalign(size_t, size_t n) { return env_alloc(n, false); }
void *mc_valloc(size_t n) { return env_alloc(n, false); }
int mc_posix_memalign(void **p, size_t, size_t n) { *p = env_alloc(n, false); return *p ? 0 : ENOMEM; }
char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) env_alloc(n, false); if (p) memcpy(p, s, n); return p; }
char *mc_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *) env_alloc(n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
static double env_now() { ENV_STEP(); long k = E.clock_reads++; double t = 1000.0 + E.step * (double) k; if (E.strike >= 0 && k >= E.strike) t += E.strike_by; return t; }
int mc_clock_gettime(clockid_t, struct timespec *ts) { double t = env_now(); ts->tv_sec = (time_t) t; ts->tv_nsec = (long) ((t - (double) ts->tv_sec) * 1e9); return 0; }
int mc_gettimeofday(struct timeval *tv, void *) { double t = env_now(); tv->tv_sec = (time_t) t; tv->tv_usec = (long) ((t - (double) tv->tv_sec) * 1e6); return 0; }
time_t mc_time(time_t *p) { time_t t = (time_t) env_now(); if (p) *p = t; return t; }
clock_t mc_clock() { return (clock_t) (env_now() * CLOCKS_PER_SEC); }
#ifndef RACE
int mc_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) {
    if (E.thr_mode == 2) return EAGAIN; E.threads++; *t = (pthread_t) (0x7e57 + E.threads); if (E.thr_mode == 0) { f(a); return 0; }
    if (E.pend_set) { E.pend(E.pend_arg); } E.pend = f; E.pend_arg = a; E.pend_set = true; return 0; }
int mc_pthread_join(pthread_t t, void **r) { if (E.threads == 0 || t < 0x7e57 + 1 || t > (pthread_t) 0x7e57 + E.threads) { env_fault("join of a thread that was never created"); return ESRCH; }
    if (E.pend_set) { E.pend_set = false; E.pend(E.pend_arg); } E.joins++; if (r) *r = nullptr; return 0; }
int mc_pthread_detach(pthread_t) { if (E.pend_set) { E.pend_set = false; E.pend(E.pend_arg); } return 0; }
#endif
static int env_vprint(const char *f, va_list ap) { char b[2000]; int k = vsnprintf(b, sizeof b, f, ap); if (E.out.size() < 20000) E.out += b; return k; }
int mc_printf(const char *f, ...) { va_list ap; va_start(ap, f); int k = env_vprint(f, ap); va_end(ap); return k; }
int mc_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int k = env_vprint(f, ap); va_end(ap); return k; }
int mc_dprintf(int, const char *f, ...) { va_list ap; va_start(ap, f); int k = env_vprint(f, ap); va_end(ap); return k; }
int mc_vprintf(const char *f, va_list ap) { return env_vprint(f, ap); }
int mc_vfprintf(FILE *, const char *f, va_list ap) { return env_vprint(f, ap); }
int mc_puts(const char *s) { E.out += s; E.out += "\n"; return 0; }
int mc_fputs(const char *s, FILE *) { E.out += s; return 0; }
void mc_perror(const char *s) { E.out += s ? s : ""; E.out += "\n"; }
int mc_putchar(int c) { E.out += (char) c; return c; }
int mc_fputc(int c, FILE *) { E.out += (char) c; return c; }
int mc_putc(int c, FILE *) { E.out += (char) c; return c; }
size_t mc_fwrite(const void *p, size_t a, size_t b, FILE *) { E.out.append((const char *) p, a * b); return b; }
ssize_t mc_write(int, const void *p, size_t n) { E.out.append((const char *) p, n); return (ssize_t) n; }
void mc___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); snprintf(assert_buf, sizeof assert_buf, "%s:%u %s: %s", b ? b + 1 : f, l, fn, e); assert_msg = assert_buf;
    if (E.on_assert) longjmp(*E.on_assert, 1); fprintf(stderr, "assertion failed: %s\n", assert_buf); _exit(97); }
void mc_abort() { mc___assert_fail("abort() called", "", 0, ""); abort(); }
void mc_exit(int) { mc___assert_fail("exit() called", "", 0, ""); abort(); }
}
