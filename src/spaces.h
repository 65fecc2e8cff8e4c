// Finite spaces of LPs.  A space is a base LP plus slots; each slot lists the values one entry may take
// (option 0 = default).  FULL: the product of all slots.  DEV k: all assignments that differ from the
// defaults in at most k slots.  Every element has an index; the spaces are enumerated completely.
#pragma once
#include "lp.h"
#include <functional>
#include <array>
typedef std::pair<double, double> Opt;
struct Slot { char type; int i, j; std::vector<Opt> o; };   // type: a coefficient, r row sides, b column bounds, c cost
struct Space {
    std::string name, group; LP base; std::vector<Slot> slots; int depth = 0, k = -1;       // k<0: FULL
    std::vector<Stg> stgs;
    bool canon_cols = false, canon_rows = false;     // FULL only: skip all but one representative of column/row orders
    std::vector<std::vector<uint64_t>> W; uint64_t count = 0;
    void finish() {
        if (k < 0) { count = 1; for (auto &s : slots) count *= s.o.size(); return; }
        int S = (int) slots.size(); W.assign(S + 1, std::vector<uint64_t>(k + 1, 0));
        for (int r = 0; r <= k; r++) W[S][r] = 1;      // W[p][r] = number of assignments of slots p.. with at most r deviations
        for (int p = S - 1; p >= 0; p--) for (int r = 0; r <= k; r++) W[p][r] = W[p + 1][r] + (r ? (slots[p].o.size() - 1) * W[p + 1][r - 1] : 0);
        count = W[0][k];
    }
    static void put(LP &p, const Slot &s, const Opt &o) {
        switch (s.type) { case 'a': p.a(s.i, s.j) = o.first; break; case 'r': p.lhs[s.i] = o.first; p.rhs[s.i] = o.second; break;
            case 'b': p.lb[s.j] = o.first; p.ub[s.j] = o.second; break; case 'c': p.c[s.j] = o.first; break; } }
    bool decode(uint64_t idx, LP &p) const {
        p = base;
        if (k < 0) { for (auto &s : slots) { put(p, s, s.o[idx % s.o.size()]); idx /= s.o.size(); } }
        else { int r = k; for (size_t q = 0; q < slots.size(); q++) {
                if (idx < W[q + 1][r]) { put(p, slots[q], slots[q].o[0]); continue; }
                idx -= W[q + 1][r]; uint64_t per = W[q + 1][r - 1]; put(p, slots[q], slots[q].o[1 + idx / per]); idx %= per; r--; } }
        if (canon_cols) for (int j = 0; j + 1 < p.n; j++) if (cmp_col(p, j, j + 1) > 0) return false;
        if (canon_rows) for (int i = 0; i + 1 < p.m; i++) if (cmp_row(p, i, i + 1) > 0) return false;
        return true;
    }
    static int c3(double a, double b) { return a < b ? -1 : a > b; }
    static int cmp_col(const LP &p, int j, int k) { int r; if ((r = c3(p.c[j], p.c[k]))) return r; if ((r = c3(p.lb[j], p.lb[k]))) return r; if ((r = c3(p.ub[j], p.ub[k]))) return r;
        for (int i = 0; i < p.m; i++) if ((r = c3(p.a(i, j), p.a(i, k)))) return r; return 0; }
    static int cmp_row(const LP &p, int i, int k) { int r; if ((r = c3(p.lhs[i], p.lhs[k]))) return r; if ((r = c3(p.rhs[i], p.rhs[k]))) return r;
        std::vector<double> a, b; for (int j = 0; j < p.n; j++) { a.push_back(p.a(i, j)); b.push_back(p.a(k, j)); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        for (int j = 0; j < p.n; j++) if ((r = c3(a[j], b[j]))) return r; return 0; }
    void coef(int i, int j, const std::vector<double> &v) { Slot s{'a', i, j, {}}; for (double x : v) s.o.push_back({x, 0}); slots.push_back(s); }
    void cost(int j, const std::vector<double> &v) { Slot s{'c', 0, j, {}}; for (double x : v) s.o.push_back({x, 0}); slots.push_back(s); }
    void sides(int i, const std::vector<Opt> &v) { slots.push_back(Slot{'r', i, 0, v}); }
    void bnds(int j, const std::vector<Opt> &v) { slots.push_back(Slot{'b', 0, j, v}); }
};
static inline Stg mk(unsigned mask, int shift = 10) { Stg s; s.mask = mask; s.max_shift = shift; return s; }
static inline std::vector<Stg> stg_all() { std::vector<Stg> v; for (unsigned k = 0; k < 256; k++) v.push_back(mk(255 - k)); return v; }
// everything; each single reduction alone; everything but one
static inline std::vector<Stg> stg_main() { std::vector<Stg> v{mk(0xff)}; for (int b = 0; b < 8; b++) v.push_back(mk(0xff & ~(1u << b)));
    for (int b = 0; b < 7; b++) if (b != 5) v.push_back(mk(1u << b)); v.push_back(mk(S_PROP | S_FIN)); v.push_back(mk(0)); return v; }
// one LP in which every initial work list outgrows its minimal capacity
static inline LP large_lp() {
    struct R { double l, r; std::vector<std::pair<int, double>> e; }; std::vector<R> rows; std::vector<std::array<double, 3>> cols; const double I = PINF;
    auto col = [&](double l, double u, double c) { cols.push_back({l, u, c}); return (int) cols.size() - 1; };
    for (int k = 0; k < 120; k++) rows.push_back({1, I, {{col(0, I, 1), 1}}});
    for (int k = 0; k < 60; k++) rows.push_back({-1, 1, {}});
    for (int k = 0; k < 110; k++) { int a = col(0, 10, 1), b = col(0, 10, 2); rows.push_back({2, 2, {{a, 1}, {b, 1}}}); }
    for (int k = 0; k < 60; k++) col(0, 1, 1);
    for (int k = 0; k < 12; k++) { R r{5, I, {}}; for (int t = 0; t < 10; t++) r.e.push_back({col(0, 2, 1), 1 + t % 3}); rows.push_back(r); }
    for (int k = 0; k < 1010; k++) rows.push_back({0, 5. + k, {{0, 1}, {1, 1}, {120, 1. + k % 7}}});
    LP p; p.resize((int) rows.size(), (int) cols.size()); for (int i = 0; i < p.m; i++) { p.lhs[i] = rows[i].l; p.rhs[i] = rows[i].r; for (auto &e : rows[i].e) p.a(i, e.first) = e.second; }
    for (int j = 0; j < p.n; j++) { p.lb[j] = cols[j][0]; p.ub[j] = cols[j][1]; p.c[j] = cols[j][2]; } return p; }
static inline Space large_space(const std::vector<Stg> &stgs) { Space s; s.name = "large"; s.base = large_lp(); s.k = 0; s.stgs = stgs; s.finish(); return s; }
