// The oracle checks of one presolve run and its postsolves (C01-C05, C15, used by C13 and C09 as well).
#pragma once
#include "driver.h"
#include "engine.h"
#include "spaces.h"
enum { P_C01 = 1, P_C02 = 2, P_C03 = 4, P_C04 = 8, P_C05 = 16, P_C15 = 32 };
static bool loud = false;
struct Ctx { const LP *lp; bool have = false; OResult o; };      // per-LP cache of the oracle's answer
static OResult &orig(Ctx &c) { if (!c.have) { oracle(*c.lp, c.o, false); c.have = true; } return c.o; }
static const char *on(int s) { return s == O_OPT ? "has an optimum" : s == O_INFEAS ? "is infeasible" : s == O_UNB ? "is unbounded" : "unknown"; }

static void check_x(const LP &p, const double *x, double opt, double tol = 1) {
    double v = p.off;
    for (int j = 0; j < p.n; j++) { if (!std::isfinite(x[j])) { V("recovered x[%d] = %g", j, x[j]); return; }
        double t = tol * 1e-5 * (1 + fabs(x[j])); if (x[j] < p.lb[j] - t || x[j] > p.ub[j] + t) { V("recovered x[%d] = %.9g violates its bounds [%g, %g]", j, x[j], p.lb[j], p.ub[j]); return; } v += p.c[j] * x[j]; }
    for (int i = 0; i < p.m; i++) { double s = 0, sc = 1; for (int j = 0; j < p.n; j++) { s += p.a(i, j) * x[j]; sc += fabs(p.a(i, j) * x[j]); } double t = tol * 1e-5 * sc;
        if (s < p.lhs[i] - t || s > p.rhs[i] + t) { V("recovered x: row %d has value %.9g outside [%g, %g]", i, s, p.lhs[i], p.rhs[i]); return; } }
    if (fabs(v - opt) > tol * 2e-5 * (1 + fabs(opt))) V("recovered x has objective %.9g, optimum is %.9g", v, opt);
}
static void check_yz(const LP &p, const double *y, const double *z, double opt, double tol = 1) {
    double dv = p.off; const double T = tol * 2e-5;
    for (int i = 0; i < p.m; i++) { if (!std::isfinite(y[i])) { V("recovered y[%d] = %g", i, y[i]); return; }
        double s = y[i] > 0 ? p.lhs[i] : p.rhs[i]; if (fabs(y[i]) > T && std::isinf(s)) { V("recovered y[%d] = %.9g has the wrong sign for sides [%g, %g]", i, y[i], p.lhs[i], p.rhs[i]); return; } if (std::isfinite(s)) dv += y[i] * s; }
    for (int j = 0; j < p.n; j++) { if (!std::isfinite(z[j])) { V("recovered z[%d] = %g", j, z[j]); return; }
        double s = z[j] > 0 ? p.lb[j] : p.ub[j]; if (fabs(z[j]) > T && std::isinf(s)) { V("recovered z[%d] = %.9g has the wrong sign for bounds [%g, %g]", j, z[j], p.lb[j], p.ub[j]); return; } if (std::isfinite(s)) dv += z[j] * s;
        double r = p.c[j] - z[j], sc = 1 + fabs(p.c[j]) + fabs(z[j]); for (int i = 0; i < p.m; i++) { r -= p.a(i, j) * y[i]; sc += fabs(p.a(i, j) * y[i]); }
        if (fabs(r) > tol * 1e-5 * sc) { V("recovered z[%d] = %.9g differs from c - A'y by %.3g", j, z[j], r); return; } }
    if (fabs(dv - opt) > tol * 5e-5 * (1 + fabs(opt))) V("recovered multipliers have dual objective %.9g, optimum is %.9g (complementary slackness fails)", dv, opt);
}
static void check_c05(const LP &p, const Presolver *P, const LP &r, int status) {
    const PresolveStats *s = P->stats; size_t nnz0 = 0; for (double v : p.A) nnz0 += v != 0;
    if (r.m > p.m || r.n > p.n || P->reduced_prob->nnz > nnz0) V("reduced problem is %dx%d with %zu non-zeros, original %dx%d with %zu", r.m, r.n, P->reduced_prob->nnz, p.m, p.n, nnz0);
    if (s->n_rows_original != (size_t) p.m || s->n_cols_original != (size_t) p.n || s->nnz_original != nnz0) V("statistics misreport the original dimensions");
    if (s->n_rows_reduced != (size_t) r.m || s->n_cols_reduced != (size_t) r.n || s->nnz_reduced != P->reduced_prob->nnz) V("statistics misreport the reduced dimensions");
    bool same = r.m == p.m && r.n == p.n && P->reduced_prob->nnz == nnz0;
    if (same != (status == UNCHANGED)) V("status %d but dimensions %s", status, same ? "are unchanged" : "changed");
    size_t tot = s->nnz_removed_trivial + s->nnz_removed_fast + s->nnz_removed_primal_propagation + s->nnz_removed_parallel_rows + s->nnz_removed_parallel_cols;
    if (tot != nnz0 - P->reduced_prob->nnz) V("statistics attribute %zu removed non-zeros, %zu were removed", tot, nnz0 - P->reduced_prob->nnz);
    for (int j = 0; j < r.n; j++) { if (std::isnan(r.lb[j]) || std::isnan(r.ub[j]) || !(r.lb[j] <= r.ub[j]) || r.lb[j] == PINF || r.ub[j] == -PINF) V("reduced bounds of column %d are [%g, %g]", j, r.lb[j], r.ub[j]); if (!std::isfinite(r.c[j])) V("reduced cost %g", r.c[j]); }
    for (int i = 0; i < r.m; i++) if (std::isnan(r.lhs[i]) || std::isnan(r.rhs[i]) || !(r.lhs[i] <= r.rhs[i]) || r.lhs[i] == PINF || r.rhs[i] == -PINF) V("reduced sides of row %d are [%g, %g]", i, r.lhs[i], r.rhs[i]);
    if (!std::isfinite(r.off)) V("objective offset %g", r.off);
    if (P->sol) { if (P->sol->dim_x != (size_t) p.n || P->sol->dim_y != (size_t) p.m) V("solution dimensions %zu, %zu for a %dx%d problem", P->sol->dim_x, P->sol->dim_y, p.m, p.n); } else V("no solution structure");
}
static void check_c15(const LP &r) {
    for (int i = 0; i < r.m; i++) { int k = 0; for (int j = 0; j < r.n; j++) k += r.a(i, j) != 0; if (k < 2) V("reduced row %d has %d entries", i, k); }
    for (int j = 0; j < r.n; j++) { int k = 0; for (int i = 0; i < r.m; i++) k += r.a(i, j) != 0; if (k == 0) V("reduced column %d has no entries", j); if (r.lb[j] == r.ub[j]) V("reduced column %d is fixed at %g", j, r.lb[j]); }
}
// primal points: k-th optimal point of every component, for all k; plus the centroid
static void combine(const OResult &q, const LP &r, bool dual, std::vector<std::vector<double>> &out) {
    size_t K = 1; for (auto &c : q.comps) K = std::max(K, dual ? c.dy.size() : c.px.size());
    int d = dual ? r.m : r.n;
    for (size_t k = 0; k <= K; k++) {
        if (k == K && K == 1) break;
        std::vector<double> v(d + 1, 0.0);
        for (auto &c : q.comps) { auto &L = dual ? c.dy : c.px; auto &I = dual ? c.rows : c.cols; if (L.empty()) continue;
            if (k < K) for (size_t t = 0; t < I.size(); t++) v[I[t]] = L[k % L.size()][t];
            else for (auto &w : L) for (size_t t = 0; t < I.size(); t++) v[I[t]] += w[t] / (double) L.size(); }
        out.push_back(v);
    }
}
static void reduced_costs(const LP &r, const std::vector<double> &y, std::vector<double> &z) { z.assign(r.n + 1, 0.0); for (int j = 0; j < r.n; j++) { z[j] = r.c[j]; for (int i = 0; i < r.m; i++) z[j] -= r.a(i, j) * y[i]; if (fabs(z[j]) < 1e-11) z[j] = 0; } }
// (an optimal x and an optimal y need not belong together exactly: where presolve has moved a bound by its margin two vertices
// can have the same value up to rounding although one is not complementary to the multipliers of the other)
static bool complementary(const LP &r, const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &z) {
    for (int j = 0; j < r.n; j++) if (fabs(z[j]) > 1e-9) { double b = z[j] > 0 ? r.lb[j] : r.ub[j]; if (!(fabs(x[j] - b) <= 2e-7)) return false; }
    for (int i = 0; i < r.m; i++) if (fabs(y[i]) > 1e-9) { double b = y[i] > 0 ? r.lhs[i] : r.rhs[i], s = 0, sc = 1; for (int j = 0; j < r.n; j++) { s += r.a(i, j) * x[j]; sc += fabs(r.a(i, j)); } if (!(fabs(s - b) <= 2e-7 * sc)) return false; }
    return true; }
static void say(const char *nm, const double *v, int k) { printf("  %s =", nm); for (int i = 0; i < k; i++) printf(" %.17g", v[i]); printf("\n"); }

// everything the oracle can say about a finished presolve run (and the postsolves it makes)
static void verify_run(const Lib &L, Ctx &C, Presolver *P, int st, unsigned props) {
    const LP &p = *C.lp;
    cnt(N_STATES);
    if (!is_lp_status(st)) {
        if (st == INFEASIBLE) cnt(N_INFEAS); else cnt(N_UNBND);
        if (props & P_C01) {
            if (st != INFEASIBLE && st != UNBNDORINFEAS) { V("undocumented status %d", st); return; }
            OResult &o = orig(C); if (o.st == O_UNKNOWN) cnt(N_UNKNOWN);
            if (st == INFEASIBLE && o.st != O_INFEAS && o.st != O_UNKNOWN) V("declared infeasible but the problem %s", on(o.st));
            if (st != INFEASIBLE && o.st == O_OPT) V("declared infeasible or unbounded but the problem %s (%.9g)", on(o.st), o.val);
        }
        return;
    }
    cnt(st == REDUCED ? N_REDUCED : N_UNCHANGED);
    LP r; std::string why;
    if (!reduced_to_lp(P, r, why)) { V("reduced problem: %s", why.c_str()); return; }
    if (loud) { Stg g; printf("reduced (offset %g):\n%s", r.off, lp_text(r, g).c_str()); }
    if (props & P_C05) check_c05(p, P, r, st);
    if (props & P_C15) check_c15(r);
    if (!(props & (P_C02 | P_C03 | P_C04))) return;
    OResult &o = orig(C); OResult q; bool post = props & (P_C03 | P_C04);
    if (!post && r.m == p.m && r.n == p.n && r.off == p.off && r.A == p.A && r.lhs == p.lhs && r.rhs == p.rhs && r.lb == p.lb && r.ub == p.ub && r.c == p.c) return;
    oracle(r, q, post, 16, post ? 3.0 : 0.0);
    if (o.st == O_UNKNOWN || q.st == O_UNKNOWN) { cnt(N_UNKNOWN); return; }
    cnt(N_COMPARE);
    if (props & P_C02) {
        if (o.st != q.st) V("original %s, reduced problem %s", on(o.st), on(q.st));
        else if (o.st == O_OPT && fabs(o.val - q.val) > 2e-5 * (1 + fabs(o.val))) V("original optimum %.9g, reduced optimum (with offset) %.9g", o.val, q.val);
    }
    if (!(post && o.st == O_OPT && q.st == O_OPT && fabs(o.val - q.val) < 1e-4 * (1 + fabs(o.val)))) return;
    std::vector<std::vector<double>> X, Y; combine(q, r, false, X); combine(q, r, true, Y);
    std::vector<double> z;
    auto one = [&](std::vector<double> &x, std::vector<double> &y) {
        reduced_costs(r, y, z); if (!complementary(r, x, y, z)) return; L.postsolve(P, x.data(), y.data(), z.data()); cnt(N_POST); cnt(N_STATES); cnt(N_TRANS);
        if (loud) { say("reduced x", x.data(), r.n); say("reduced y", y.data(), r.m); say("reduced z", z.data(), r.n); say("x", P->sol->x, p.n); say("y", P->sol->y, p.m); say("z", P->sol->z, p.n); }
        if (props & P_C03) check_x(p, P->sol->x, o.val);
        if (props & P_C04) check_yz(p, P->sol->y, P->sol->z, o.val); };
    if (props & P_C04) { for (auto &x : X) for (auto &y : Y) { one(x, y); if (!viols.empty()) return; } }
    else for (size_t k = 0; k < std::max(X.size(), Y.size()); k++) { one(X[k % X.size()], Y[k % Y.size()]); if (!viols.empty()) return; }
}
