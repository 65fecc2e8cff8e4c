// Offline tool (not part of any check): searches for small LPs that drive the presolver along new paths.
// The selected LPs become the centres of the enumerated balls (bases/rich.lp).
#include <unistd.h>
// Build: tools/findbases.sh.  Usage: findbases SECONDS SEED OUT [IN...]
#include "../src/engine.h"
#include <random>
#include <unordered_set>
#include <fstream>
static uint32_t NG = 0; struct Mod { uint32_t *a, *b; }; static std::vector<Mod> mods;
static std::unordered_set<uint64_t> seen; static std::vector<uint16_t> cntr; static std::vector<uint32_t> touched;
static std::vector<uint64_t> feats; static uint32_t prevE, prevP, prevP2; static int tagv; static uint32_t postLo, postHi; static bool armed;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *x = a; x < b; x++) *x = ++NG; mods.push_back({a, b}); }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (!armed) return; uint32_t e = *g; if (!cntr[e]++) touched.push_back(e); feats.push_back(((uint64_t) 1 << 60) | ((uint64_t) prevE << 24) | e); prevE = e; }
static inline int bucket(int c) { return c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : 6; }
extern "C" int post_types(Presolver *, int *, int);
static std::mt19937_64 rng;
static int R(int n) { return (int) (rng() % n); }
static double coefv() { static const double T[] = {1, 1, 1, 1, -1, -1, 2, -2, 3, 0.5, -3, 4}; return T[R(12)]; }
static LP gen() {
    LP p; p.resize(1 + R(5), 1 + R(6)); if (R(6) == 0) p.resize(3 + R(4), 3 + R(5)); int dens = 30 + R(50);
    for (auto &v : p.A) if (R(100) < dens) v = coefv();
    for (int k = R(4); k > 0; k--) switch (R(7)) {                        // structure
        case 0: if (p.m > 1) { int a = R(p.m), b = R(p.m); if (a != b) { double f = coefv(); for (int j = 0; j < p.n; j++) p.a(b, j) = f * p.a(a, j); } } break;
        case 1: if (p.n > 1) { int a = R(p.n), b = R(p.n); if (a != b) { double f = coefv(); for (int i = 0; i < p.m; i++) p.a(i, b) = f * p.a(i, a); } } break;
        case 2: case 3: { int i = R(p.m), keep = 1 + R(2); for (int j = 0; j < p.n; j++) p.a(i, j) = 0; for (; keep; keep--) p.a(i, R(p.n)) = coefv(); break; }
        case 4: case 5: { int j = R(p.n); for (int i = 0; i < p.m; i++) p.a(i, j) = 0; p.a(R(p.m), j) = coefv(); if (R(3) == 0) p.a(R(p.m), j) = coefv(); break; }
        case 6: { int i = R(p.m); for (int j = 0; j < p.n; j++) p.a(i, j) = coefv(); break; } }
    std::vector<double> x(p.n);
    for (int j = 0; j < p.n; j++) { x[j] = R(5) - 1; p.c[j] = R(4) ? R(5) - 2 : 0; switch (R(8)) { case 0: case 1: case 2: p.lb[j] = std::min(0., x[j]); p.ub[j] = PINF; break; case 3: p.lb[j] = -PINF; p.ub[j] = PINF; break; case 4: p.lb[j] = -PINF; p.ub[j] = x[j] + R(2); break; case 5: p.lb[j] = x[j]; p.ub[j] = PINF; break; case 6: p.lb[j] = x[j] - R(3); p.ub[j] = p.lb[j] + 1 + R(4); if (p.ub[j] < x[j]) p.ub[j] = x[j]; break; case 7: p.lb[j] = p.ub[j] = x[j]; if (R(2)) p.ub[j] += 1; break; } }
    bool feas = R(8) != 0;
    for (int i = 0; i < p.m; i++) { double s = 0; for (int j = 0; j < p.n; j++) s += p.a(i, j) * x[j]; if (!feas) s += R(3) - 1;
        switch (R(7)) { case 0: case 1: p.lhs[i] = p.rhs[i] = s; break; case 2: p.lhs[i] = s - R(2); break; case 3: p.rhs[i] = s + R(2); break; case 4: p.lhs[i] = s - R(3); p.rhs[i] = s + 1 + R(2); break; case 5: p.lhs[i] = s; break; case 6: p.rhs[i] = s; if (R(6) == 0) p.rhs[i] = PINF; break; } }
    return p; }
static LP mutate(LP p) { for (int k = 1 + R(3); k; k--) { LP q = gen(); switch (R(6)) { case 0: p.a(R(p.m), R(p.n)) = R(3) ? coefv() : 0; break; case 1: { int i = R(p.m); int t = R(q.m); p.lhs[i] = q.lhs[t]; p.rhs[i] = q.rhs[t]; break; } case 2: { int j = R(p.n), t = R(q.n); p.lb[j] = q.lb[t]; p.ub[j] = q.ub[t]; break; } case 3: p.c[R(p.n)] = R(5) - 2; break;
        case 4: { int i = R(p.m), t = R(q.m); for (int j = 0; j < std::min(p.n, q.n); j++) p.a(i, j) = q.a(t, j); p.lhs[i] = q.lhs[t]; p.rhs[i] = q.rhs[t]; break; } case 5: { int j = R(p.n), t = R(q.n); for (int i = 0; i < std::min(p.m, q.m); i++) p.a(i, j) = q.a(i, t); p.lb[j] = q.lb[t]; p.ub[j] = q.ub[t]; p.c[j] = q.c[t]; break; } } } return p; }
static int evalLP(const LP &p, unsigned mask) {
    env_reset(0); Stg g; g.mask = mask; Input in; in.make(p); Settings s; fill_settings(&s, g); for (auto e : touched) cntr[e] = 0; touched.clear(); feats.clear(); prevE = 0; armed = true;
    Presolver *P = construct(REL, in, &s); int st = REL.run_presolver(P); armed = false; { int t[400]; int n = post_types(P, t, 400); for (int k = 0; k + 2 < n; k++) feats.push_back(((uint64_t) 3 << 60) | ((uint64_t) t[k] << 32) | ((uint64_t) t[k + 1] << 16) | t[k + 2]); for (int k = 0; k + 3 < n; k++) feats.push_back(((uint64_t) 4 << 60) | ((uint64_t) t[k] << 48) | ((uint64_t) t[k + 1] << 32) | ((uint64_t) t[k + 2] << 16) | t[k + 3]); } armed = true; if (is_lp_status(st)) { PostIn q((int) P->reduced_prob->m, (int) P->reduced_prob->n, 0); REL.postsolve(P, q.x.data(), q.y.data(), q.z.data()); } REL.free_presolver(P); armed = false; in.release();
    int nw = 0; for (auto e : touched) { uint64_t f = ((uint64_t) 2 << 60) | ((uint64_t) bucket(cntr[e]) << 32) | e; nw += seen.insert(f).second; } for (auto f : feats) nw += seen.insert(f).second; return nw; }
int main(int argc, char **argv) {
    env_init(); double T = atof(argv[1]); rng.seed(atoi(argv[2])); cntr.assign(NG + 2, 0); std::vector<LP> corp; LP p; Stg g;
    static const unsigned masks[] = {0xff, 0x7f, 0xfe, 0xfd, 0xbf, 0xef};
    for (int k = 4; k < (T == 0 ? 5 : argc); k++) { Tok t = tokenize(slurp(argv[k])); while (lp_parse(t, p, g)) for (unsigned mk : masks) evalLP(p, mk); }
    if (T == 0) {                                                          // merge: smallest LPs first, keep what adds a feature
        FILE *o = fopen(argv[3], "w"); std::vector<LP> all; for (int k = 5; k < argc; k++) { Tok t = tokenize(slurp(argv[k])); while (lp_parse(t, p, g)) all.push_back(p); } std::stable_sort(all.begin(), all.end(), [](const LP &a, const LP &b) { return a.m * a.n < b.m * b.n; });
        for (auto &q : all) { int nw = 0; for (unsigned mk : masks) nw += evalLP(q, mk); if (nw) { corp.push_back(q); fprintf(o, "%s\n", lp_text(q, g).c_str()); } } fclose(o); fprintf(stderr, "%zu of %zu LPs kept\n", corp.size(), all.size()); return 0; }
    FILE *o = fopen(argv[3], "w"); time_t t0 = time(0); long it = 0; 
    while (time(0) - t0 < T) { for (int r = 0; r < 1000; r++, it++) { LP q = (corp.empty() || R(2)) ? gen() : mutate(corp[R((int) corp.size())]); int nw = 0; for (unsigned mk : masks) { nw += evalLP(q, mk); if (mk == 0x7f && !nw && R(4)) break; } if (nw) { corp.push_back(q); fprintf(o, "# new %d\n%s\n", nw, lp_text(q, g).c_str()); fflush(o); } }
        if (it % 100000 == 0) fprintf(stderr, "%ld LPs, corpus %zu, features %zu\n", it, corp.size(), seen.size()); }
}
