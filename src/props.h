// One function per property: runs all its variants on one LP under one setting (or only the variant asked for).
#pragma once
#include "verify.h"
#include <csetjmp>
typedef std::vector<long> Var;
static const Var *g_only = nullptr;                    // replay: the only variant to run (nullptr = all)
static bool want(const Var &v) { if (g_only && !g_only->empty() && *g_only != v) return false; set_variant(v); return true; }
static bool faulted(const char *when) { if (E.fault.empty()) return false; V("%s: %s", when, E.fault.c_str()); return true; }

struct Case { Input in; Settings s; Presolver *P = nullptr; int st = -1;
    Case(const LP &p, const Stg &g) { in.make(p); fill_settings(&s, g); } ~Case() { in.release(); }
    bool build(const Lib &L) { P = construct(L, in, &s); cnt(N_TRANS); cnt(N_STATES); return P != nullptr; }
    int run(const Lib &L) { st = L.run_presolver(P); cnt(N_TRANS); cnt(N_RUNS); return st; }
    void post(const Lib &L, int pat) { PostIn q((int) P->reduced_prob->m, (int) P->reduced_prob->n, pat); L.postsolve(P, q.x.data(), q.y.data(), q.z.data()); cnt(N_TRANS); cnt(N_POST); cnt(N_STATES); }
    void done(const Lib &L) { L.free_presolver(P); P = nullptr; cnt(N_TRANS); } };
static bool sane(const Presolver *P) { const PresolvedProblem *q = P->reduced_prob; return q && q->m < 10000 && q->n < 10000; }

// ---- C01-C05, C15 ---------------------------------------------------------------------------------
static void run_basic(Ctx &C, const Stg &g, unsigned props) {
    if (!want({0})) return;
    env_reset(); Case K(*C.lp, g);
    if (!K.build(REL)) { V("construction failed"); return; }
    K.run(REL); if (faulted("presolve")) return;
    verify_run(REL, C, K.P, K.st, props); faulted("postsolve"); K.done(REL);
}
// ---- digest of a complete history -----------------------------------------------------------------
struct Hist { Digest d; bool built = false; int st = -1; };
static Hist history(const Lib &L, const LP &p, const Stg &g, int posts = 2) {
    Hist h; Case K(p, g); if (!(h.built = K.build(L))) return h; h.st = K.run(L); h.d.u(h.st); dig_stats(h.d, K.P);
    if (is_lp_status(h.st) && sane(K.P)) { dig_reduced(h.d, K.P); for (int k = 0; k < posts; k++) { K.post(L, k); dig_sol(h.d, K.P); } }
    K.done(L); return h; }
// other LPs used as earlier or concurrent work: one that exercises every reduction, an infeasible and an unbounded one
static std::vector<LP> others;
// ---- C06 ------------------------------------------------------------------------------------------
static sigjmp_buf seg_jmp; static volatile int seg_armed = 0; static char *seg_lo, *seg_hi; static volatile long seg_addr;
static void seg_handler(int sig, siginfo_t *si, void *) { char *a = (char *) si->si_addr; if (seg_armed && a >= seg_lo && a < seg_hi) { seg_armed = 0; seg_addr = a - seg_lo; siglongjmp(seg_jmp, 1); } signal(sig, SIG_DFL); }
static const char *region_name(const Input &in, long off) { char *a = in.mem + off; struct R { const void *p; size_t n; const char *nm; } r[] = {{in.Ax, in.nnz * 8, "Ax"}, {in.Ai, in.nnz * 4, "Ai"}, {in.Ap, (size_t) (in.m + 1) * 4, "Ap"}, {in.lhs, (size_t) in.m * 8, "lhs"}, {in.rhs, (size_t) in.m * 8, "rhs"}, {in.lb, (size_t) in.n * 8, "lbs"}, {in.ub, (size_t) in.n * 8, "ubs"}, {in.c, (size_t) in.n * 8, "c"}};
    for (auto &x : r) if (a >= (char *) x.p && a < (char *) x.p + x.n) return x.nm; if (off >= 0x20000 && off < 0x21000) return "settings"; if (off >= 0x30000) return "the solution passed in"; return "caller memory"; }
static void run_c06(Ctx &C, const Stg &g) {
    static char *mem = nullptr; const size_t SZ = 0x40000;                  // arrays | settings page | solution pages
    if (!mem) { mem = (char *) mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); seg_lo = mem; seg_hi = mem + SZ; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = seg_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); }
    const LP &p = *C.lp; if (!want({0})) return;
    env_reset(); Hist base = history(REL, p, g); if (!base.built || faulted("reference run")) return;
    mprotect(mem, SZ, PROT_READ | PROT_WRITE); static Input in; in.region = true; in.mem = mem; in.top = 0; in.make(p);
    Settings *s = (Settings *) (mem + 0x20000); fill_settings(s, g); double *xyz = (double *) (mem + 0x30000);
    static const char *stage; static Presolver *P; static int st; P = nullptr; env_reset(); static Hist h; h = Hist(); stage = "construction";
    if (sigsetjmp(seg_jmp, 0)) { V("%s %s %s", stage, !strcmp(stage, "construction") || seg_addr >= 0x20000 ? "writes to" : "still uses", region_name(in, seg_addr)); mprotect(mem, SZ, PROT_READ | PROT_WRITE); return; }
    mprotect(mem, SZ, PROT_READ); seg_armed = 1;
    P = construct(REL, in, s); cnt(N_TRANS); cnt(N_STATES); if (!P) { V("construction from read-only arrays fails"); seg_armed = 0; return; }
    mprotect(mem, 0x20000, PROT_NONE); stage = "presolve"; st = REL.run_presolver(P); cnt(N_RUNS); cnt(N_TRANS); h.st = st; h.d.u(st); dig_stats(h.d, P);
    if (is_lp_status(st) && sane(P)) { dig_reduced(h.d, P);
        for (int k = 0; k < 2; k++) {                                      // two solutions at different addresses; each is inaccessible outside its own call
            int m = (int) P->reduced_prob->m, n = (int) P->reduced_prob->n; PostIn q(m, n, k); char *pg = (char *) xyz + 0x8000 * k; mprotect(pg, 0x8000, PROT_READ | PROT_WRITE);
            double *x = (double *) pg, *y = x + n + 1, *z = y + m + 1; memcpy(x, q.x.data(), 8 * (n + 1)); memcpy(y, q.y.data(), 8 * (m + 1)); memcpy(z, q.z.data(), 8 * (n + 1)); mprotect(pg, 0x8000, PROT_READ);
            stage = "postsolve"; REL.postsolve(P, x, y, z); cnt(N_TRANS); cnt(N_POST); cnt(N_STATES); mprotect(pg, 0x8000, PROT_NONE); dig_sol(h.d, P); } }
    if (is_lp_status(st) && sane(P))                                        // values as a numerical solver may return them: the arrays are only read
        for (int k = 0; k < 9; k++) { int m = (int) P->reduced_prob->m, n = (int) P->reduced_prob->n; static const double sp[] = {1e-12, -1e-11, -0.0, 1e-9, -1e-8, 3e-7, -1e-6, 1e21, 1e-300}; mprotect(xyz, 0x8000, PROT_READ | PROT_WRITE);
            double *x = xyz, *y = x + n + 1, *z = y + m + 1; for (int i = 0; i < 2 * n + m + 3; i++) x[i] = sp[(k + i) % 9]; mprotect(xyz, 0x8000, PROT_READ); stage = "postsolve"; REL.postsolve(P, x, y, z); cnt(N_TRANS); cnt(N_POST); mprotect(xyz, 0x8000, PROT_NONE); }
    stage = "release"; REL.free_presolver(P); cnt(N_TRANS); seg_armed = 0; mprotect(mem, SZ, PROT_READ | PROT_WRITE); cnt(N_COMPARE);
    Settings s2; fill_settings(&s2, g); if (memcmp(&s2, s, sizeof s2)) V("settings were modified");
    if (faulted("history with protected arrays")) return;
    if (h.d != base.d) V("results depend on the caller's arrays after construction (verdict %d, reference %d)", h.st, base.st);
}
// ---- C07 ------------------------------------------------------------------------------------------
static void run_c07(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; env_reset(0x00); Hist base = history(REL, p, g); if (!base.built || !E.fault.empty()) return; const long reads = E.clock_reads;
    static const int fills[] = {0xA5, 0xFF, 0x01, 0x7F, 0x3F};
    auto cmp = [&](const Hist &h, const char *what) { cnt(N_COMPARE); if (!E.fault.empty()) return; if (!h.built || h.st != base.st) V("verdict %d %s, otherwise %d", h.built ? h.st : -1, what, base.st); else if (h.d != base.d) V("results differ %s", what); };
    for (int f : fills) if (want({1, f})) { env_reset(f); char b[80]; snprintf(b, sizeof b, "when the heap initially contains bytes 0x%02x", f); cmp(history(REL, p, g), b); }
    if (want({2})) { env_reset(0xA5); E.thr_mode = 1; cmp(history(REL, p, g), "when the helper thread runs last"); }
    if (want({3})) { env_reset(0xA5, false, 4096 + 16); cmp(history(REL, p, g), "when the heap is placed elsewhere"); }
    for (size_t o = 0; o < others.size(); o++) if (want({4, (long) o})) { env_reset(0x00); Stg all; history(REL, others[o], all); cmp(history(REL, p, g), "after another problem was presolved"); }
    if (want({5})) { env_reset(0x00); Case K(others[0], mk(0xff)); if (K.build(REL)) { Hist h = history(REL, p, g); cmp(h, "while another instance exists"); K.done(REL); } }
    if (want({6})) { env_reset(0x00); E.step = 3e-3; cmp(history(REL, p, g), "when the clock runs faster"); }
    if (want({7})) { env_reset(0x00); Settings *d = REL.default_settings(); if (d) { REL.set_settings_false(d); REL.free_settings(d); } cmp(history(REL, p, g), "after other settings were created"); }
    // one slow step: at any single reading the clock is found to have advanced by nearly the time limit
    for (long k = 0; k < reads; k++) if (want({9, k})) { env_reset(0x00); E.strike = k; E.strike_by = 0.999 * g.max_time; char b[80]; snprintf(b, sizeof b, "when the step before clock reading %ld is slow", k); cmp(history(REL, p, g), b); }
#if !defined SANITIZED && !defined ONLY_REL
    if (want({8})) { env_reset(0x00); cmp(history(PAT, p, g), "when uninitialised automatic variables start with another value"); }
#endif
}
// ---- C08 ------------------------------------------------------------------------------------------
// histories: 0 construct/free; 1 +run; 2 +one postsolve; 3 +two postsolves; 4 two instances interleaved; 5 settings and NULL
static void run_c08(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; const Lib &L = REL;
    for (int tm = 0; tm < 2; tm++) for (int h = 0; h < 7; h++) {
        if (tm && h != 1) continue; if (!want({h, tm})) continue; env_reset(0xA5, true); E.thr_mode = tm; cnt(N_SCHED);
        if (h == 5) { Settings *d = L.default_settings(); if (!d) { V("no default settings"); continue; } L.set_settings_false(d); L.set_settings_true(d); Case K(p, g); d->verbose = false;
            Presolver *P = construct(L, K.in, d); L.free_presolver(nullptr); if (P) { L.run_presolver(P); L.free_presolver(P); } L.free_settings(d); L.free_settings(nullptr); cnt(N_TRANS, 8); }
        else if (h == 4) { Case A(p, g), B(p, g); Case O(others[0], mk(0xff)); if (!A.build(L) || !O.build(L) || !B.build(L)) { V("construction failed"); continue; }
            A.run(L); B.run(L); O.run(L); bool po = is_lp_status(A.st) && sane(A.P); if (po) B.post(L, 0); B.done(L); if (is_lp_status(O.st)) O.post(L, 0); O.done(L); if (po) A.post(L, 1); A.done(L); }
        else { Case K(p, g); K.s.verbose = h == 6; if (!K.build(L)) { V("construction failed"); continue; } if (h >= 1) K.run(L); if (h >= 2 && is_lp_status(K.st) && sane(K.P)) for (int k = 0; k < (h == 6 ? 1 : h - 1); k++) K.post(L, k); K.done(L); }
        cnt(N_STATES); env_verify(); static const char *nm[] = {"construct, free", "construct, run, free", "construct, run, postsolve, free", "construct, run, postsolve twice, free", "three instances interleaved", "default settings, free(NULL)", "construct, run, postsolve, free with messages"};
        if (faulted(nm[h])) continue;
        if (E.threads != E.joins) V("%s: %d helper threads created, %d joined", nm[h], E.threads, E.joins);
    }
}
// ---- C09 ------------------------------------------------------------------------------------------
// every single refused allocation, every "all from the k-th on", every pair, thread creation refused, both thread orders
static void run_c09(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; env_reset(0xA5, true); Hist base = history(REL, p, g); if (!base.built || faulted("reference run")) return;
    long N[2]; for (int tm = 0; tm < 2; tm++) { env_reset(0xA5, true); E.thr_mode = tm; Case K(p, g); K.build(REL); N[tm] = E.n_alloc; K.done(REL); }
    auto attempt = [&](long a, long b, long a2, int tm, const char *what) {
        env_reset(0xA5, true); E.thr_mode = tm; E.fail_from = a; E.fail_to = b; E.fail2 = a2; cnt(N_FAULTS); cnt(N_SCHED);
        Case K(p, g); bool ok = K.build(REL); E.fail_from = E.fail_to = E.fail2 = -1; char w[160]; snprintf(w, sizeof w, what, a, a2);
        if (!ok) { cnt(N_NULL); if (faulted(w)) return; env_verify(); if (faulted(w)) return; if (tm < 2 && E.threads != E.joins) V("%s: %d helper threads created, %d joined", w, E.threads, E.joins); return; }
        // construction claims success although something was refused: it has to work completely
        if (E.refused == 0 && tm != 2) { cnt(N_EXTRA1); }
        E.thr_mode = 0; Hist h; h.st = K.run(REL); h.d.u(h.st); dig_stats(h.d, K.P); if (is_lp_status(h.st) && sane(K.P)) { dig_reduced(h.d, K.P); for (int k = 0; k < 2; k++) { K.post(REL, k); dig_sol(h.d, K.P); } } K.done(REL);
        if (!faulted(w)) { env_verify(); faulted(w); } cnt(N_COMPARE);
        if (h.d != base.d) V("%s: construction succeeds but the presolver does not work (verdict %d, should be %d)", w, h.st, base.st); };
    for (int tm = 0; tm < 2; tm++) for (long k = 0; k < N[tm]; k++) {
        if (want({1, k, tm})) attempt(k, k + 1, -1, tm, "allocation %ld refused");
        if (want({2, k, tm})) attempt(k, 1L << 40, -1, tm, "all allocations from %ld refused"); }
    if (want({3})) attempt(-1, -1, -1, 2, "helper thread refused");
    for (long k = 0; k < N[0]; k++) if (want({4, k})) attempt(k, k + 1, -1, 2, "helper thread and allocation %ld refused");
    for (int tm = 0; tm < 2; tm++) for (long k = 0; k < N[tm]; k++) for (long l = k + 1; l < N[tm]; l++) if (want({5, k, l, tm})) attempt(k, k + 1, l, tm, "allocations %ld and %ld refused");
}
// ---- C12 ------------------------------------------------------------------------------------------
// all sequences of at most three operations from {postsolve a, b, c, presolve+postsolve+release another instance, postsolve of a standing second instance}
static void run_c12(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; env_reset(); Digest ref[3]; Digest red0;
    for (int a = 0; a < 3; a++) { env_reset(); Case K(p, g); if (!K.build(REL)) return; K.run(REL); if (!is_lp_status(K.st) || !sane(K.P)) return; if (a == 0) dig_reduced(red0, K.P); K.post(REL, a); dig_sol(ref[a], K.P); K.done(REL); if (!E.fault.empty()) return; }
    const int NOP = 5; static const char *nm[] = {"a", "b", "c", "another instance is used", "a second instance is postsolved"};
    for (int len = 2; len <= 3; len++) { int tot = 1; for (int k = 0; k < len; k++) tot *= NOP;
        for (int q = 0; q < tot; q++) {
            int ops[3], t = q; bool has = false; for (int k = 0; k < len; k++) { ops[k] = t % NOP; t /= NOP; if (ops[k] < 3) has = true; } if (ops[len - 1] > 2 || !has) continue;
            if (!want({len, q})) continue; env_reset(); cnt(N_SCHED); Case K(p, g), B(p, g); if (!K.build(REL)) continue; bool needB = false; for (int k = 0; k < len; k++) needB |= ops[k] == 4; if (needB) { if (!B.build(REL)) continue; }
            K.run(REL); if (needB) B.run(REL);
            bool bad = false; std::string trace;
            for (int k = 0; k < len && !bad; k++) { trace += std::string(k ? ", " : "") + nm[ops[k]];
                if (ops[k] < 3) { K.post(REL, ops[k]); Digest d; dig_sol(d, K.P); cnt(N_COMPARE); if (d != ref[ops[k]]) { V("after postsolving [%s] the result differs from a fresh postsolve", trace.c_str()); bad = true; } }
                else if (ops[k] == 3) { Case O(others[0], mk(0xff)); if (O.build(REL)) { O.run(REL); if (is_lp_status(O.st) && sane(O.P)) O.post(REL, 0); O.done(REL); } }
                else { B.post(REL, 1); Digest d; dig_sol(d, B.P); if (d != ref[1]) { V("after [%s] the second instance's result differs", trace.c_str()); bad = true; } }
                Digest d; dig_reduced(d, K.P); if (!bad && d != red0) { V("after [%s] the reduced problem has changed", trace.c_str()); bad = true; } }
            faulted(trace.c_str()); K.done(REL); if (needB) B.done(REL); } }
}
// ---- C13 ------------------------------------------------------------------------------------------
static long g_max_after = 0;
static void run_c13(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; long N; { env_reset(); Case K(p, g); if (!K.build(REL)) return; K.run(REL); N = E.clock_reads; K.done(REL); if (!E.fault.empty()) return; }
    for (int slow = 0; slow < 2; slow++) for (long k = 0; k < N; k++) {
        if (slow && k) break;
        if (!want({k, slow})) continue; env_reset(); Stg h = g; if (slow) { h.max_time = 0; } else E.strike = k; cnt(N_SCHED);
        Case K(p, h); if (!K.build(REL)) { V("construction fails when the time limit strikes"); continue; }
        bool in_init = E.strike >= 0 && E.clock_reads >= k; // the first reading of a run is its start time
        K.run(REL); long after = E.clock_reads - (slow ? 0 : std::max(k, 0L)); if (faulted("presolve")) continue;
        if (!in_init && after > 24) V("%ld clock readings after the limit of %g s was exceeded at reading %ld presolve still runs", after, h.max_time, k);
        if (!in_init && after > g_max_after) g_max_after = after;
        verify_run(REL, C, K.P, K.st, P_C01 | P_C02 | P_C03 | P_C04 | P_C05); faulted("postsolve"); K.done(REL); }
}
// ---- C14 ------------------------------------------------------------------------------------------
#if !defined SANITIZED && !defined ONLY_REL
// Postsolve is given optimal solutions of the reduced problem (its checks presuppose them).
static void run_c14(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; if (!want({0})) return;
    static std::vector<PostIn> ins; ins.clear(); static Hist base; base = Hist();
    { env_reset(); Case K(p, g); base.built = K.build(REL); if (!base.built) { V("construction fails"); return; } base.st = K.run(REL); base.d.u(base.st); dig_stats(base.d, K.P);
      if (is_lp_status(base.st) && sane(K.P)) { dig_reduced(base.d, K.P); LP r; std::string why; if (loud) { Stg q; if (reduced_to_lp(K.P, r, why)) printf("production build, status %d, reduced (offset %.17g):\n%s", base.st, r.off, lp_text(r, q).c_str()); }
        if (reduced_to_lp(K.P, r, why) && orig(C).st == O_OPT) { OResult q; oracle(r, q, true, 3, 0); if (q.st == O_OPT) { std::vector<std::vector<double>> X, Y; combine(q, r, false, X); combine(q, r, true, Y); std::vector<double> z;
            for (size_t k = 0; k < std::max(X.size(), Y.size()) && k < 4; k++) { PostIn in(r.m, r.n, 0); in.x = X[k % X.size()]; in.y = Y[k % Y.size()]; reduced_costs(r, in.y, in.z); if (!complementary(r, in.x, in.y, in.z)) continue; ins.push_back(in); REL.postsolve(K.P, in.x.data(), in.y.data(), in.z.data()); cnt(N_POST); cnt(N_TRANS); dig_sol(base.d, K.P); if (loud) { say("production x", K.P->sol->x, p.n); say("y", K.P->sol->y, p.m); say("z", K.P->sol->z, p.n); } } } } }
      K.done(REL); } if (faulted("production build")) return;
    static jmp_buf jb; env_reset(); static Hist h; h = Hist(); static Input in; in.make(p); static Settings s; fill_settings(&s, g); static Presolver *P; P = nullptr; static const char *stage; stage = "construction";
    if (setjmp(jb)) { V("internal consistency check fails during %s: %s", stage, assert_msg); in.release(); return; }
    E.on_assert = &jb; P = construct(DBG, in, &s); cnt(N_TRANS); cnt(N_STATES); h.built = P != nullptr;
    if (P) { stage = "presolve"; h.st = DBG.run_presolver(P); cnt(N_TRANS); cnt(N_RUNS); cnt(N_STATES); h.d.u(h.st); dig_stats(h.d, P);
        if (is_lp_status(h.st) && sane(P)) { dig_reduced(h.d, P); if (loud) { LP r; std::string why; Stg q; if (reduced_to_lp(P, r, why)) printf("development build, status %d, reduced (offset %.17g):\n%s", h.st, r.off, lp_text(r, q).c_str()); } stage = "postsolve"; if (h.st == base.st) for (auto &q : ins) { DBG.postsolve(P, q.x.data(), q.y.data(), q.z.data()); cnt(N_POST); cnt(N_TRANS); cnt(N_STATES); dig_sol(h.d, P); if (loud) { say("development x", P->sol->x, p.n); say("y", P->sol->y, p.m); say("z", P->sol->z, p.n); } } }
        stage = "release"; DBG.free_presolver(P); }
    E.on_assert = nullptr; in.release(); cnt(N_COMPARE); if (faulted("development build")) return;
    if (h.built != base.built || h.st != base.st) V("development build gives verdict %d, production build %d", h.st, base.st); else if (h.d != base.d) V("development and production build give different results");
}
#endif
// ---- C17 ------------------------------------------------------------------------------------------
static double g_c17_max[4];
static const double C17_C = 200;                        // admitted amplification of the error
static void run_c17(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; if (p.m * p.n > 1000) return; env_reset(); Case K(p, g); if (!K.build(REL)) return; K.run(REL); if (!is_lp_status(K.st)) { K.done(REL); return; }
    LP r; std::string why; if (!reduced_to_lp(K.P, r, why) || (r.n == 0 && r.m == 0)) { K.done(REL); return; }
    OResult &o = orig(C); OResult q; if (o.st == O_OPT) oracle(r, q, true, 4, 0); if (o.st != O_OPT || q.st != O_OPT || fabs(o.val - q.val) > 1e-6 * (1 + fabs(o.val))) { K.done(REL); return; }
    std::vector<std::vector<double>> X, Y; combine(q, r, false, X); combine(q, r, true, Y);
    double amin = PINF, amax = 0, spread = 1; for (double v : p.A) if (v != 0) { amin = std::min(amin, fabs(v)); amax = std::max(amax, fabs(v)); } if (amax > 10 * amin) spread = amax / (10 * amin);
    std::vector<double> z, x, y;
    static const double EPS[] = {1e-9, 1e-8};
    for (size_t a = 0; a < X.size() && a < 3; a++) for (size_t b = 0; b < Y.size() && b < 3; b++) { 
        // clean solution must already be fine, otherwise this is C03/C04
        reduced_costs(r, Y[b], z); if (!complementary(r, X[a], Y[b], z)) continue;
        double mag = 1;
        // the four errors of the recovered solution when the reduced one is off by eps in the given pattern
        auto measure = [&](int pat, double eps, double q[4]) { x = X[a]; y = Y[b]; reduced_costs(r, y, z);
            auto bump = [&](int v, double d) { if (v < r.n) x[v] += d; else if (v < r.n + r.m) y[v - r.n] += d; else z[v - r.n - r.m] += d; }; int NV = r.n + r.m + r.n;
            if (pat < 4) for (int v = 0; v < NV; v++) bump(v, (pat & 1 ? -1 : 1) * ((pat & 2) && (v & 1) ? -1 : 1) * eps); else bump((pat - 4) / 2, (pat & 1) ? eps : -eps);
            cnt(N_PERTURB); cnt(N_TRANS); cnt(N_POST); REL.postsolve(K.P, x.data(), y.data(), z.data()); cnt(N_STATES); const double *sx = K.P->sol->x, *sy = K.P->sol->y, *sz = K.P->sol->z;
            double pi = 0, di = 0, st = 0, pv = p.off, dv = p.off; bool fin = true;
            for (int j = 0; j < p.n; j++) { if (!std::isfinite(sx[j]) || !std::isfinite(sz[j])) fin = false; pi = std::max(pi, std::max(p.lb[j] - sx[j], sx[j] - p.ub[j])); pv += p.c[j] * sx[j]; double bd = sz[j] > 0 ? p.lb[j] : p.ub[j]; if (std::isinf(bd)) di = std::max(di, fabs(sz[j])); else dv += sz[j] * bd;
                double rr = p.c[j] - sz[j]; for (int i = 0; i < p.m; i++) rr -= p.a(i, j) * sy[i]; st = std::max(st, fabs(rr)); }
            for (int i = 0; i < p.m; i++) { if (!std::isfinite(sy[i])) fin = false; double s = 0; for (int j = 0; j < p.n; j++) s += p.a(i, j) * sx[j]; pi = std::max(pi, std::max(p.lhs[i] - s, s - p.rhs[i])); double bd = sy[i] > 0 ? p.lhs[i] : p.rhs[i]; if (std::isinf(bd)) di = std::max(di, fabs(sy[i])); else dv += sy[i] * bd; }
            mag = 1; for (int j = 0; j < p.n; j++) { if (std::isfinite(p.lb[j])) mag = std::max(mag, fabs(p.lb[j])); if (std::isfinite(p.ub[j])) mag = std::max(mag, fabs(p.ub[j])); mag = std::max(mag, std::max(fabs(p.c[j]), fabs(sx[j]))); } for (int i = 0; i < p.m; i++) { if (std::isfinite(p.lhs[i])) mag = std::max(mag, fabs(p.lhs[i])); if (std::isfinite(p.rhs[i])) mag = std::max(mag, fabs(p.rhs[i])); }
            mag *= spread; q[0] = pi; q[1] = di; q[2] = st; q[3] = fabs(pv - dv); return fin; };
        static const char *QN[] = {"primal infeasibility", "dual infeasibility", "stationarity residual", "duality gap"};
        for (int e = 0; e < 2; e++) for (int pat = 0; pat < 4 + 2 * (r.n + r.m + r.n); pat++) {
            if (!want({(long) a, (long) b, e, pat})) continue; double eps = EPS[e], q4[4], h4[4], z4[4]; if (!measure(pat, eps, q4)) { V("recovered solution is not finite"); continue; }
            double lim = C17_C * eps * mag; for (int t = 0; t < 4; t++) g_c17_max[t] = std::max(g_c17_max[t], q4[t] / (eps * mag));
            for (int t = 0; t < 4; t++) if (q4[t] > lim) {    // an ill-conditioned chain of substitutions amplifies errors, but in proportion: an error of a quarter gives a quarter
                double big = q4[t], m0 = mag; if (big <= 100 * lim && measure(pat, eps / 4, h4) && measure(pat, 0, z4)) { double d = big - z4[t], h = h4[t] - z4[t]; if (h > 0.2 * d && h < 0.3 * d) { cnt(N_EXTRA1); continue; } } mag = m0;
                V("error %g in the reduced solution gives %s %.3g", eps, QN[t], big); break; }
            if (!viols.empty()) { K.done(REL); return; } } }
    faulted("postsolve"); K.done(REL);
}
// ---- C20 ------------------------------------------------------------------------------------------
// every feasible vertex of the reduced problem (all of them are optimal for zero costs), and points far out on its rays
static void run_c20(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; if (p.m * p.n > 1000 || !want({0})) return; env_reset(); Case K(p, g); if (!K.build(REL)) return; K.run(REL); if (!is_lp_status(K.st)) { K.done(REL); return; }
    LP r; std::string why; if (!reduced_to_lp(K.P, r, why)) { K.done(REL); return; }
    LP f = r; f.off = 0; for (auto &v : f.c) v = 0; OResult q; oracle(f, q, true, 12, 3.0); if (q.st != O_OPT) { K.done(REL); return; }
    std::vector<std::vector<double>> X; combine(q, f, false, X); std::vector<double> y, z;
    for (size_t a = 0; a < X.size() && viols.empty(); a++) for (int w = 0; w < 4 && viols.empty(); w++) { auto &x = X[a]; y.assign(r.m + 1, w == 2 ? 1.0 : w == 3 ? -1.0 : 0.0); if (w) z.assign(r.n + 1, w == 2 ? -1.0 : w == 3 ? 1.0 : 0.0); else reduced_costs(r, y, z);
        double v = r.off; for (int j = 0; j < r.n; j++) v += r.c[j] * x[j];
        REL.postsolve(K.P, x.data(), y.data(), z.data()); cnt(N_POST); cnt(N_STATES); cnt(N_TRANS); cnt(N_COMPARE);
        if (loud) { say("reduced x", x.data(), r.n); say("x", K.P->sol->x, p.n); }
        check_x(p, K.P->sol->x, v); }
    faulted("postsolve"); K.done(REL);
}
// ---- C19 ------------------------------------------------------------------------------------------
static bool mentions(const std::string &s, const size_t (&v)[3]) {      // the three numbers one after the other
    std::vector<unsigned long> n; for (const char *q = s.c_str(); *q;) if (isdigit((unsigned char) *q)) { char *e; n.push_back(strtoul(q, &e, 10)); q = e; } else q++;
    for (size_t k = 0; k + 2 < n.size(); k++) if (n[k] == v[0] && n[k + 1] == v[1] && n[k + 2] == v[2]) return true; return false; }
static bool has_word(const std::string &s, const char *w) { std::string t; for (char c : s) t += (char) tolower(c); return t.find(w) != std::string::npos; }
static void run_c19(Ctx &C, const Stg &g) {
    const LP &p = *C.lp; size_t nnz = 0; for (double v : p.A) nnz += v != 0; Digest ref; int st0 = -1;
    // messages: off, on, on with clocks of different speed
    static const double STEP[] = {1e-6, 1e-6, 0.37, 2.5, 3e-9};
    for (int k = 0; k < 5; k++) { if (k && !want({k})) continue; if (!k) set_variant({0}); env_reset(0xA5); const double s = E.step = STEP[k];
        Stg h = g; h.max_time = 1e9; Case K(p, h); K.s.verbose = k > 0; long r0 = E.clock_reads; bool ok = K.build(REL); if (!ok) { V("construction fails"); continue; } long r1 = E.clock_reads; std::string o0 = E.out; K.run(REL); long r2 = E.clock_reads; std::string o1 = E.out.substr(o0.size()); Digest d; d.u(K.st); dig_stats(d, K.P); std::string o2; double tp = 0; long r3 = r2; bool lp = is_lp_status(K.st) && sane(K.P);
        const PresolveStats T = *K.P->stats;
        if (lp) { dig_reduced(d, K.P); for (int w = 0; w < 2; w++) { r3 = E.clock_reads; size_t z = E.out.size(); K.post(REL, w); dig_sol(d, K.P); tp = K.P->stats->time_postsolve; o2 = E.out.substr(z); double e = s * (double) (E.clock_reads - r3 - 1); if (!(tp >= e - 2 * s && tp <= e + 1e-6 + 1e-9 * e) || (e > 0 && !(tp > 0))) V("postsolve reports %.9g s, it took %.9g s", tp, e); } }
        const size_t orig3[3] = {(size_t) p.m, (size_t) p.n, nnz}, red3[3] = {lp ? K.P->reduced_prob->m : 0, lp ? K.P->reduced_prob->n : 0, lp ? K.P->reduced_prob->nnz : 0};
        K.done(REL); cnt(N_COMPARE); if (faulted("history with messages")) continue; if (!k) { ref = d; st0 = K.st; } else if (d != ref) { V("results with messages or another clock differ (verdict %d, otherwise %d)", K.st, st0); continue; }
        if (k == 0) { if (lp && !(o0 + o1 + o2).empty()) V("verbose is off, but presolve or postsolve prints '%.60s'", (o0 + o1 + o2).c_str()); }
        std::string all = o0 + o1; if (k && !mentions(all, orig3)) V("the messages do not give the original dimensions"); if (k && lp && !mentions(all, red3)) V("the messages do not give the reduced dimensions");
        bool inf = has_word(all, "infeasible"), unb = has_word(all, "unbounded"); if (k && (inf != !is_lp_status(K.st) || unb != (K.st == UNBNDORINFEAS))) V("the messages do not agree with verdict %d", K.st);
        auto span = [&](const char *what, double t, long n) { double e = s * (double) n; if (!(t >= 0 && t >= e - 2 * s && t <= e + 1e-6 + 1e-9 * e)) V("%s time is %.9g s, the clock advanced by %.9g s", what, t, e); };
        span("construction", T.time_init, r1 - r0 - 1); if (r1 - r0 > 1 && !(T.time_init > 0)) V("no construction time"); if (!lp) continue;
        span("presolve", T.time_presolve, r2 - r1 - 1); double in = T.time_primal_propagation + T.time_parallel_rows + T.time_parallel_cols, eps = 1e-6 + 1e-9 * T.time_presolve;
        for (double t : {T.time_fast_reductions, T.time_medium_reductions, T.time_primal_propagation, T.time_parallel_rows, T.time_parallel_cols}) if (!(t >= 0 && std::isfinite(t))) V("a time is %g s", t);
        if (in > T.time_medium_reductions + eps) V("parts of the medium reductions took %.9g s, all of them %.9g s", in, T.time_medium_reductions); if (T.time_fast_reductions + T.time_medium_reductions > T.time_presolve + eps) V("reductions took %.9g s, presolve %.9g s", T.time_fast_reductions + T.time_medium_reductions, T.time_presolve);
        if (T.time_primal_propagation > 0 && !(g.mask & S_PROP)) V("propagation is off but took %g s", T.time_primal_propagation); if (T.time_parallel_rows > 0 && !(g.mask & S_PROWS)) V("parallel rows are off but took %g s", T.time_parallel_rows); if (T.time_parallel_cols > 0 && !(g.mask & S_PCOLS)) V("parallel columns are off but took %g s", T.time_parallel_cols);
    }
}
