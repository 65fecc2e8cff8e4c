// Runs the real presolver on one LP.  Two builds of the library are linked in, told apart by a prefix.
#pragma once
#include "env.h"
#include "lp.h"
extern "C" {
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
}
#define DECL(P) extern "C" { Settings *P##default_settings(); void P##free_settings(Settings *); void P##set_settings_true(Settings *); void P##set_settings_false(Settings *); \
    Presolver *P##new_presolver(const double *, const int *, const int *, size_t, size_t, size_t, const double *, const double *, const double *, const double *, const double *, const Settings *); \
    void P##free_presolver(Presolver *); PresolveStatus P##run_presolver(Presolver *); void P##postsolve(Presolver *, const double *, const double *, const double *); }
struct Lib { const char *name; Settings *(*default_settings)(); void (*free_settings)(Settings *); void (*set_settings_true)(Settings *); void (*set_settings_false)(Settings *);
    Presolver *(*new_presolver)(const double *, const int *, const int *, size_t, size_t, size_t, const double *, const double *, const double *, const double *, const double *, const Settings *);
    void (*free_presolver)(Presolver *); PresolveStatus (*run_presolver)(Presolver *); void (*postsolve)(Presolver *, const double *, const double *, const double *); };
#define LIB(P, N) Lib{N, P##default_settings, P##free_settings, P##set_settings_true, P##set_settings_false, P##new_presolver, P##free_presolver, P##run_presolver, P##postsolve}
DECL(rel_)
static const Lib REL = LIB(rel_, "production build");
#if !defined SANITIZED && !defined ONLY_REL
DECL(dbg_)
DECL(pat_)
static const Lib DBG = LIB(dbg_, "development build");
static const Lib PAT = LIB(pat_, "build with patterned stack");
#endif

// caller-owned arrays, each in a block of exactly its CSR size; optionally in one protectable region
struct Input {
    double *Ax = 0, *lhs = 0, *rhs = 0, *lb = 0, *ub = 0, *c = 0; int *Ai = 0, *Ap = 0; size_t nnz = 0; int m = 0, n = 0; bool region = false;
    char *mem = 0; size_t top = 0;
    template <class T> T *get(size_t k) { if (!region) return (T *) malloc(k * sizeof(T)); T *q = (T *) (mem + top); top += (k * sizeof(T) + 15) & ~(size_t) 15; return q; }
    void alloc(const LP &p) { m = p.m; n = p.n; nnz = 0; for (double v : p.A) if (v != 0) nnz++;
        Ax = get<double>(nnz); Ai = get<int>(nnz); Ap = get<int>(m + 1); lhs = get<double>(m); rhs = get<double>(m); lb = get<double>(n); ub = get<double>(n); c = get<double>(n); }
    void fill(const LP &p) {
        size_t k = 0;
        for (int i = 0; i < m; i++) { Ap[i] = (int) k; for (int j = 0; j < n; j++) { double v = p.a(i, j); if (v != 0) { Ax[k] = v; Ai[k] = j; k++; } } lhs[i] = p.lhs[i]; rhs[i] = p.rhs[i]; }
        Ap[m] = (int) k;
        for (int j = 0; j < n; j++) { lb[j] = p.lb[j]; ub[j] = p.ub[j]; c[j] = p.c[j]; }
    }
    void make(const LP &p) { alloc(p); fill(p); }
    void release() { if (region) { top = 0; return; } free(Ax); free(Ai); free(Ap); free(lhs); free(rhs); free(lb); free(ub); free(c); Ax = 0; }
};
static inline void fill_settings(Settings *s, const Stg &g) {
    memset((void *) s, 0, sizeof *s);
    s->ston_cols = g.mask & S_STON; s->dton_eq = g.mask & S_DTON; s->parallel_rows = g.mask & S_PROWS; s->parallel_cols = g.mask & S_PCOLS;
    s->primal_propagation = g.mask & S_PROP; s->finite_bound_tightening = g.mask & S_FIN; s->dual_fix = g.mask & S_DFIX; s->relax_bounds = g.mask & S_RELAX;
    s->max_shift = g.max_shift; s->max_time = g.max_time; s->verbose = false;
}
static inline Presolver *construct(const Lib &L, const Input &in, const Settings *s) {
    return L.new_presolver(in.Ax, in.Ai, in.Ap, in.m, in.n, in.nnz, in.lhs, in.rhs, in.lb, in.ub, in.c, s);
}
// converts the reduced problem to a dense LP; returns false (with a reason) if it is not valid CSR
static inline bool reduced_to_lp(const Presolver *P, LP &r, std::string &why) {
    const PresolvedProblem *q = P->reduced_prob; char b[200];
    if (!q) { why = "no reduced problem"; return false; }
    if (q->m > 10000 || q->n > 10000) { why = "absurd reduced dimensions"; return false; }
    r.resize((int) q->m, (int) q->n); r.off = q->obj_offset;
    if (!q->Ap) { why = "no row pointers"; return false; }
    if (q->Ap[0] != 0) { snprintf(b, sizeof b, "Ap[0]=%d", q->Ap[0]); why = b; return false; }
    for (size_t i = 0; i < q->m; i++) if (q->Ap[i + 1] < q->Ap[i]) { snprintf(b, sizeof b, "row pointers decrease at row %zu", i); why = b; return false; }
    if ((size_t) q->Ap[q->m] != q->nnz) { snprintf(b, sizeof b, "Ap[m]=%d but nnz=%zu", q->Ap[q->m], q->nnz); why = b; return false; }
    for (size_t i = 0; i < q->m; i++) {
        int last = -1;
        for (int k = q->Ap[i]; k < q->Ap[i + 1]; k++) {
            int j = q->Ai[k]; double v = q->Ax[k];
            if (j < 0 || (size_t) j >= q->n) { snprintf(b, sizeof b, "column index %d out of range in row %zu", j, i); why = b; return false; }
            if (j <= last) { snprintf(b, sizeof b, "column indices not increasing in row %zu", i); why = b; return false; }
            if (!(fabs(v) > 0) || !std::isfinite(v)) { snprintf(b, sizeof b, "coefficient %g in row %zu", v, i); why = b; return false; }
            last = j; r.a((int) i, j) = v;
        }
        r.lhs[i] = q->lhs[i]; r.rhs[i] = q->rhs[i];
    }
    for (size_t j = 0; j < q->n; j++) { r.lb[j] = q->lbs[j]; r.ub[j] = q->ubs[j]; r.c[j] = q->c[j]; }
    return true;
}

// ---- digests: everything observable, bit for bit --------------------------------------------------
struct Digest { uint64_t h[2] = {0x9ae16a3b2f90404full, 0xc3a5c85c97cb3127ull};
    void add(const void *p, size_t n) { const unsigned char *q = (const unsigned char *) p; for (size_t i = 0; i < n; i++) { h[0] = (h[0] ^ q[i]) * 1099511628211ull; h[1] = (h[1] + q[i] + 1) * 6364136223846793005ull; h[1] ^= h[1] >> 29; } }
    void u(uint64_t v) { add(&v, sizeof v); }
    bool operator==(const Digest &o) const { return h[0] == o.h[0] && h[1] == o.h[1]; } bool operator!=(const Digest &o) const { return !(*this == o); } };
static inline void dig_reduced(Digest &d, const Presolver *P) { const PresolvedProblem *q = P->reduced_prob; d.u(q->m); d.u(q->n); d.u(q->nnz); if (!q->Ap || q->m > 10000 || q->n > 10000 || q->nnz > 1000000) return;
    d.add(q->Ax, q->nnz * 8); d.add(q->Ai, q->nnz * 4); d.add(q->Ap, (q->m + 1) * 4); d.add(q->lhs, q->m * 8); d.add(q->rhs, q->m * 8); d.add(q->c, q->n * 8); d.add(q->lbs, q->n * 8); d.add(q->ubs, q->n * 8); d.add(&q->obj_offset, 8); }
static inline void dig_stats(Digest &d, const Presolver *P) { const PresolveStats *s = P->stats; size_t v[] = {s->n_rows_original, s->n_cols_original, s->nnz_original, s->n_rows_reduced, s->n_cols_reduced, s->nnz_reduced, s->nnz_removed_trivial, s->nnz_removed_fast, s->nnz_removed_primal_propagation, s->nnz_removed_parallel_rows, s->nnz_removed_parallel_cols}; d.add(v, sizeof v); }
static inline void dig_sol(Digest &d, const Presolver *P) { const Solution *s = P->sol; d.u(s->dim_x); d.u(s->dim_y); if (s->dim_x > 10000 || s->dim_y > 10000) return; d.add(s->x, s->dim_x * 8); d.add(s->y, s->dim_y * 8); d.add(s->z, s->dim_x * 8); }
// deterministic postsolve inputs, the same for every run on the same reduced dimensions
static inline double post_val(int k, int which, int pat) { static const double T[3][7] = {{1, 0, 2, -1, 0.5, 3, -2}, {0, 0, 0, 0, 0, 0, 0}, {-1, 2, -0.5, 0, 1, 1, 4}}; return T[pat][(k * 3 + which * 2) % 7]; }
struct PostIn { std::vector<double> x, y, z; PostIn(int m, int n, int pat) : x(n + 1), y(m + 1), z(n + 1) { for (int j = 0; j < n; j++) { x[j] = post_val(j, 0, pat); z[j] = post_val(j, 2, pat); } for (int i = 0; i < m; i++) y[i] = post_val(i, 1, pat); } };
static inline bool is_lp_status(int st) { return st == UNCHANGED || st == REDUCED; }
