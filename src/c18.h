// C18: a disabled reduction is not performed.  An independent model of the always-on clean-up and the
// applicability conditions of every reduction decide, for each LP, which settings must leave it alone.
#pragma once
#include "props.h"
struct Trivial { LP r; std::vector<int> rows, cols; OStat verdict = O_OPT; bool undefined = false; bool late_ston = false; };   // verdict: O_INFEAS/O_UNB = some clean-up step proves it
// fixed variables, empty rows, singleton rows, unconstrained variables, until nothing applies
static void trivial_model(const LP &p, Trivial &T) {
    LP w = p; std::vector<char> ra(p.m, 1), ca(p.n, 1); T.verdict = O_OPT; T.undefined = false; bool inf = false, unb = false, ch = true;
    auto fix = [&](int j, double v) { ca[j] = 0; w.off += w.c[j] * v; for (int i = 0; i < w.m; i++) if (ra[i] && w.a(i, j) != 0) { double d = w.a(i, j) * v; w.lhs[i] -= d; w.rhs[i] -= d; } };
    while (ch) { ch = false;
        for (int j = 0; j < w.n; j++) if (ca[j]) { if (w.lb[j] > w.ub[j]) inf = true; else if (w.lb[j] == w.ub[j]) { fix(j, w.lb[j]); ch = true; } }
        for (int i = 0; i < w.m; i++) if (ra[i]) { int k = 0, col = -1; for (int j = 0; j < w.n; j++) if (ca[j] && w.a(i, j) != 0) { k++; col = j; }
            if (k == 0) { if (w.lhs[i] > 0 || w.rhs[i] < 0) inf = true; ra[i] = 0; ch = true; }
            else if (k == 1) { double a = w.a(i, col), l = w.lhs[i] / a, u = w.rhs[i] / a; if (a < 0) std::swap(l, u); w.lb[col] = std::max(w.lb[col], l); w.ub[col] = std::min(w.ub[col], u); ra[i] = 0; ch = true; if (w.lb[col] > w.ub[col]) inf = true; } }
        if (inf) break;
        for (int j = 0; j < w.n; j++) if (ca[j]) { int k = 0; for (int i = 0; i < w.m; i++) k += ra[i] && w.a(i, j) != 0; if (k) continue;
            double v = w.c[j] > 0 ? w.lb[j] : w.c[j] < 0 ? w.ub[j] : 0; if (std::isinf(v)) { unb = true; ca[j] = 0; ch = true; continue; } ca[j] = 0; w.off += w.c[j] * v; ch = true; } }
    if (inf || unb) { T.verdict = inf ? O_INFEAS : O_UNB; T.undefined = inf && unb; return; }
    // a column fixed on the way may have been a singleton column before
    T.late_ston = false; for (int j = 0; j < p.n; j++) if (!ca[j] && p.lb[j] != p.ub[j]) { int k = 0; for (int i = 0; i < p.m; i++) k += ra[i] && p.a(i, j) != 0; if (k == 1) T.late_ston = true; }
    T.rows.clear(); T.cols.clear(); for (int i = 0; i < w.m; i++) if (ra[i]) T.rows.push_back(i); for (int j = 0; j < w.n; j++) if (ca[j]) T.cols.push_back(j);
    T.r.resize((int) T.rows.size(), (int) T.cols.size()); T.r.off = w.off;
    for (int a = 0; a < T.r.m; a++) { int i = T.rows[a]; T.r.lhs[a] = w.lhs[i]; T.r.rhs[a] = w.rhs[i]; for (int b = 0; b < T.r.n; b++) T.r.a(a, b) = w.a(i, T.cols[b]); }
    for (int b = 0; b < T.r.n; b++) { int j = T.cols[b]; T.r.lb[b] = w.lb[j]; T.r.ub[b] = w.ub[j]; T.r.c[b] = w.c[j]; }
}
// which reductions could possibly do something on a cleaned LP (over-approximation, from the definition of each reduction)
static unsigned applicable(const LP &r) {
    unsigned S = 0;
    std::vector<int> cs(r.n, 0); for (int i = 0; i < r.m; i++) { int k = 0, ninf_min = 0, ninf_max = 0; for (int j = 0; j < r.n; j++) { double a = r.a(i, j); if (a == 0) continue; k++; cs[j]++; if (std::isinf(a > 0 ? r.lb[j] : r.ub[j])) ninf_min++; if (std::isinf(a > 0 ? r.ub[j] : r.lb[j])) ninf_max++; }
        bool eq = r.lhs[i] == r.rhs[i]; if (eq && k == 2) S |= S_DTON; if (ninf_min <= 1 || ninf_max <= 1) S |= S_PROP; if (std::isinf(r.lhs[i]) && std::isinf(r.rhs[i])) S |= S_PROP; }
    for (int j = 0; j < r.n; j++) { if (cs[j] <= 1) S |= S_STON; bool up = false, dn = false;   // up: increasing x_j may violate something
        for (int i = 0; i < r.m; i++) { double a = r.a(i, j); if (a == 0) continue; if (r.rhs[i] < PINF) (a > 0 ? up : dn) = true; if (r.lhs[i] > -PINF) (a > 0 ? dn : up) = true; }
        if ((!up && r.c[j] <= 0) || (!dn && r.c[j] >= 0)) S |= S_DFIX; }
    auto par = [](const std::vector<double> &a, const std::vector<double> &b) { double f = 0; for (size_t k = 0; k < a.size(); k++) { if ((a[k] == 0) != (b[k] == 0)) return false; if (a[k] == 0) continue; double q = b[k] / a[k]; if (f == 0) f = q; else if (fabs(q - f) > 1e-9 * fabs(f)) return false; } return true; };
    for (int i = 0; i < r.m; i++) for (int k = i + 1; k < r.m; k++) { std::vector<double> a, b; for (int j = 0; j < r.n; j++) { a.push_back(r.a(i, j)); b.push_back(r.a(k, j)); } if (par(a, b)) S |= S_PROWS; }
    for (int j = 0; j < r.n; j++) for (int k = j + 1; k < r.n; k++) { std::vector<double> a, b; for (int i = 0; i < r.m; i++) { a.push_back(r.a(i, j)); b.push_back(r.a(i, k)); } if (par(a, b)) S |= S_PCOLS; }
    return S;
}
static bool near(double a, double b) { if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= 1e-9 * (1 + fabs(a)); }
// the setting relax_bounds may drop one bound of a column, provided some row implies it
static bool implied(const LP &t, int j, bool lower) { for (int i = 0; i < t.m; i++) { double a = t.a(i, j); if (a == 0) continue; bool useL = (a > 0) == lower; double s = useL ? t.lhs[i] : t.rhs[i]; if (std::isinf(s)) continue; double act = 0; for (int k = 0; k < t.n; k++) if (k != j && t.a(i, k) != 0) act += t.a(i, k) * ((t.a(i, k) > 0) == useL ? t.ub[k] : t.lb[k]); if (!std::isfinite(act)) continue; double b = (s - act) / a; if (lower ? b >= t.lb[j] - 1e-7 : b <= t.ub[j] + 1e-7) return true; } return false; }
static void compare_with_trivial(const Trivial &T, const LP &r, const char *what, bool relax) {
    const LP &t = T.r; cnt(N_COMPARE);
    if (r.m != t.m || r.n != t.n) { V("%s: result has %d rows and %d columns, the clean-up alone leaves %d and %d", what, r.m, r.n, t.m, t.n); return; }
    for (int i = 0; i < r.m; i++) { if (!near(r.lhs[i], t.lhs[i]) || !near(r.rhs[i], t.rhs[i])) { V("%s: sides of row %d are [%g, %g], the clean-up alone leaves [%g, %g]", what, T.rows[i], r.lhs[i], r.rhs[i], t.lhs[i], t.rhs[i]); return; }
        for (int j = 0; j < r.n; j++) if (r.a(i, j) != t.a(i, j)) { V("%s: coefficient (%d,%d) is %g, was %g", what, T.rows[i], T.cols[j], r.a(i, j), t.a(i, j)); return; } }
    for (int j = 0; j < r.n; j++) { if (r.c[j] != t.c[j]) { V("%s: cost of column %d is %g, was %g", what, T.cols[j], r.c[j], t.c[j]); return; }
        if (relax && r.ub[j] == t.ub[j] && r.lb[j] == -PINF && r.lb[j] != t.lb[j] && implied(t, j, true)) continue; if (relax && near(r.lb[j], t.lb[j]) && r.ub[j] == PINF && r.ub[j] != t.ub[j] && implied(t, j, false)) continue;
        if (!near(r.lb[j], t.lb[j]) || !near(r.ub[j], t.ub[j])) { V("%s: bounds of column %d are [%g, %g], the clean-up alone leaves [%g, %g]", what, T.cols[j], r.lb[j], r.ub[j], t.lb[j], t.ub[j]); return; } }
    if (fabs(r.off - t.off) > 1e-6 * (1 + fabs(t.off))) V("%s: objective offset %g, the clean-up alone gives %g", what, r.off, t.off);
}
// order-preserving embedding of r's matrix into p's (rows and columns keep their order)
static bool submatrix(const LP &r, const LP &p) {
    if (r.m == 0 || r.n == 0) return true; if (r.m > p.m || r.n > p.n) return false;
    std::vector<int> cs(r.n); std::function<bool(int, int)> rec = [&](int k, int from) { if (k == r.n) { int i = 0; for (int a = 0; a < r.m; a++) { bool f = false; for (; i < p.m && !f; i++) { f = true; for (int b = 0; b < r.n; b++) if (r.a(a, b) != p.a(i, cs[b])) { f = false; break; } } if (!f) return false; } return true; }
        for (int j = from; j <= p.n - (r.n - k); j++) { cs[k] = j; if (rec(k + 1, j + 1)) return true; } return false; };
    return rec(0, 0); }
static void same_shape(const LP &t, const LP &r, unsigned M, const char *what);
static void run_c18_mask(Ctx &C, const Stg &g, const Trivial &T, unsigned S, bool all_vs_trivial) {
    const LP &p = *C.lp; char what[80]; snprintf(what, sizeof what, "with settings 0x%02x (reductions that could apply: 0x%02x)", g.mask, S);
    if (!want({(long) g.mask})) return; env_reset(); Case K(p, g); if (!K.build(REL)) return; K.run(REL); cnt(N_STATES); if (!E.fault.empty()) return;
    if (all_vs_trivial && T.verdict != O_OPT) { if (!T.undefined && K.st != (T.verdict == O_INFEAS ? INFEASIBLE : UNBNDORINFEAS) && !(K.st == UNBNDORINFEAS)) V("%s: verdict %d, but the clean-up finds the problem %s", what, K.st, T.verdict == O_INFEAS ? "infeasible" : "unbounded"); K.done(REL); return; }
    if (!is_lp_status(K.st)) { if (all_vs_trivial) V("%s: verdict %d, but the clean-up alone proves nothing", what, K.st); K.done(REL); return; }
    const PresolveStats *s = K.P->stats; unsigned M = g.mask;
    if (!(M & (S_STON | S_DTON)) && s->nnz_removed_fast) V("%s: %zu removed non-zeros attributed to singleton columns and doubleton equations", what, s->nnz_removed_fast);
    if (!(M & S_PROP) && s->nnz_removed_primal_propagation) V("%s: %zu removed non-zeros attributed to primal propagation", what, s->nnz_removed_primal_propagation);
    if (!(M & S_PROWS) && s->nnz_removed_parallel_rows) V("%s: %zu removed non-zeros attributed to parallel rows", what, s->nnz_removed_parallel_rows);
    if (!(M & S_PCOLS) && s->nnz_removed_parallel_cols) V("%s: %zu removed non-zeros attributed to parallel columns", what, s->nnz_removed_parallel_cols);
    LP r; std::string why; if (!reduced_to_lp(K.P, r, why)) { K.done(REL); return; }
    if (loud) { Stg q; printf("reduced (offset %g):\n%s", r.off, lp_text(r, q).c_str()); }
    if (all_vs_trivial) compare_with_trivial(T, r, what, M & S_RELAX);
    if (!(M & S_DTON) && !submatrix(r, p)) V("%s: the remaining matrix is not a part of the original one", what);
    if (T.verdict == O_OPT && r.m == T.r.m && r.n == T.r.n && T.r.m == p.m && T.r.n == p.n) same_shape(T.r, r, M, what);
    K.done(REL);
}
// nothing but the clean-up removed anything: what may have changed nevertheless, by the definition of each reduction
static void same_shape(const LP &t, const LP &r, unsigned M, const char *what) {
    cnt(N_COMPARE);
    for (int i = 0; i < r.m; i++) { for (int j = 0; j < r.n; j++) if (r.a(i, j) != t.a(i, j)) { V("%s: a coefficient of row %d changes from %g to %g although nothing is removed", what, i, t.a(i, j), r.a(i, j)); return; }
        bool dl = r.lhs[i] != t.lhs[i] && !near(r.lhs[i], t.lhs[i]), dr = r.rhs[i] != t.rhs[i] && !near(r.rhs[i], t.rhs[i]); if (!dl && !dr) continue;
        bool drop = (!dl || std::isinf(r.lhs[i])) && (!dr || std::isinf(r.rhs[i])), eq = r.lhs[i] == r.rhs[i];      // a redundant side is dropped (propagation), a side is known to be active (singleton columns)
        if (!((drop && (M & S_PROP)) || (eq && (M & S_STON)))) { V("%s: the sides of row %d change from [%g, %g] to [%g, %g]", what, i, t.lhs[i], t.rhs[i], r.lhs[i], r.rhs[i]); return; } }
    for (int j = 0; j < r.n; j++) { if (r.c[j] != t.c[j]) { V("%s: the cost of column %d changes from %g to %g", what, j, t.c[j], r.c[j]); return; }
        for (int u = 0; u < 2; u++) { double a = u ? t.ub[j] : t.lb[j], b = u ? r.ub[j] : r.lb[j]; if (near(a, b)) continue; if (std::isinf(b) ? M & S_RELAX : M & S_PROP && (std::isinf(a) || M & S_FIN)) continue; if (std::isinf(a) && M & S_PROP) continue;
            V("%s: the %s bound of column %d changes from %g to %g", what, u ? "upper" : "lower", j, a, b); return; } }
}
// a reduction that finds nothing changes nothing: the result is bit for bit that without it
static void run_c18_pair(Ctx &C, const Stg &g, const Trivial &T, unsigned S) {
    const LP &p = *C.lp; bool two = false; for (int i = 0; i < T.r.m; i++) { int k = 0; for (int j = 0; j < T.r.n; j++) k += T.r.a(i, j) != 0; two |= k == 2; }
    static const unsigned with[] = {0xff, 0x7f, 0x10, 0x30};
    for (unsigned M : with) for (unsigned R : {S_STON, S_DTON, S_PROWS, S_PCOLS}) {
        if (S & R) continue; if (R == S_DTON && two && S & M & S_STON) continue; Stg a = g, b = g; a.mask = M & ~R; b.mask = M | R; if (!want({(long) a.mask, (long) b.mask})) continue;
        Digest d[2]; bool same = true; for (int k = 0; k < 2; k++) { env_reset(); Case K(p, k ? b : a); if (!K.build(REL)) return; K.run(REL); cnt(N_STATES); d[k].u(K.st); LP r; std::string why; if (!is_lp_status(K.st)) { same = same && k; K.done(REL); if (!same) break; continue; } if (!reduced_to_lp(K.P, r, why)) { K.done(REL); return; } if (!k) same = r.m == T.r.m && r.n == T.r.n; dig_reduced(d[k], K.P); K.done(REL); if (!same) break; }
        if (!same) continue; cnt(N_COMPARE); if (d[0] != d[1]) { V("settings 0x%02x give another result than 0x%02x, but reduction 0x%02x has nothing to work on", b.mask, a.mask, R); return; } } }
// the helpers switch every reduction, whatever the settings were before, and leave the limits alone
static unsigned mask_of(const Settings &s) { return (s.ston_cols ? S_STON : 0) | (s.dton_eq ? S_DTON : 0) | (s.parallel_rows ? S_PROWS : 0) | (s.parallel_cols ? S_PCOLS : 0) | (s.primal_propagation ? S_PROP : 0) | (s.finite_bound_tightening ? S_FIN : 0) | (s.dual_fix ? S_DFIX : 0) | (s.relax_bounds ? S_RELAX : 0); }
static void run_c18_helpers() {
    for (long M = 0; M < 256; M++) for (long verbose = 0; verbose < 2; verbose++) for (long op = 0; op < 3; op++) { if (!want({7, M, verbose, op})) continue; env_reset(M & 1 ? 0xFF : 0x00); cnt(N_TRANS); cnt(N_STATES); cnt(N_COMPARE);
        if (op == 2) { Settings *d = REL.default_settings(); if (!d) { V("no default settings"); continue; } if (mask_of(*d) != 0xff) V("default settings have reductions 0x%02x", mask_of(*d)); if (!(d->max_time > 0 && d->max_shift >= 0)) V("default limits are %g s and %d moves", d->max_time, d->max_shift); REL.free_settings(d); continue; }
        Settings s; fill_settings(&s, mk((unsigned) M)); s.verbose = verbose; s.max_shift = 17; s.max_time = 3.25; if (op) REL.set_settings_true(&s); else REL.set_settings_false(&s);
        if (mask_of(s) != (op ? 0xffu : 0u)) V("set_settings_%s leaves 0x%02x of 0x%02lx", op ? "true" : "false", mask_of(s), M); if (s.max_shift != 17 || s.max_time != 3.25) V("set_settings_%s changes a limit", op ? "true" : "false"); } }
static void run_c18(Ctx &C, const Stg &g) {
    if (C.lp->m * C.lp->n > 1000) return; if (C.lp->m == 1 && C.lp->n == 1 && g.mask == 0xff && (!g_only || g_only->size() == 4)) { run_c18_helpers(); if (g_only) return; }
    Trivial T; trivial_model(*C.lp, T); unsigned S = T.verdict == O_OPT ? applicable(T.r) | (T.late_ston ? S_STON : 0) : 0xff & ~S_RELAX;
    if (T.verdict == O_OPT && T.r.m == C.lp->m && T.r.n == C.lp->n && (!g_only || g_only->size() == 2)) run_c18_pair(C, g, T, S); if (g_only && g_only->size() == 2) return;
    if (g_only && !g_only->empty()) { Stg h = g; h.mask = (unsigned) (*g_only)[0]; bool triv = !(h.mask & S); run_c18_mask(C, h, T, S, triv); return; }
    // every setting that enables nothing applicable (finite_bound_tightening acts only inside primal propagation)
    unsigned freeb = 0xff & ~S & ~(S_FIN | S_RELAX);
    for (unsigned M = freeb;; M = (M - 1) & freeb) { for (unsigned x = 0; x < 4; x++) { Stg h = g; h.mask = M | (x & 1 ? S_FIN : 0) | (x & 2 ? S_RELAX : 0); if ((h.mask & S_RELAX) && M != freeb) continue; run_c18_mask(C, h, T, S, true); } if (!M) break; }
    // attribution and substitution rules for the settings that switch one reduction off, and those with a single one on
    static const unsigned more[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xbf, 0xfc, 0x01, 0x02, 0x04, 0x08, 0x10, 0x30, 0x1d, 0x9f, 0x40, 0xcc, 0xc1};
    for (unsigned M : more) if (M & S) { Stg h = g; h.mask = M; run_c18_mask(C, h, T, S, false); }
}
