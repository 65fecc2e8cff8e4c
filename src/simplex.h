// Dense bounded-variable primal simplex (Bland) for components too large for basis enumeration.
// Starts with slack basis; phase 1 minimises the sum of infeasibilities. Used only as an oracle.
#pragma once
#include "lp.h"
static OStat simplex_core(BasisEnum &E, std::vector<double> &X, std::vector<double> &Y, long &iters) {
    const int m = E.m, n = E.n, N = n + m; const double FT = 1e-9, DT = 1e-9, PV = 1e-9;
    // variables 0..n-1 structural, n..N-1 row activities; T = B^-1 [A -I]
    std::vector<double> l(N), u(N), x(N); std::vector<int> basic(m), pos(N, -1);
    for (int j = 0; j < n; j++) { l[j] = E.lb[j]; u[j] = E.ub[j]; if (l[j] > u[j] + 1e-7) return O_INFEAS; }
    for (int i = 0; i < m; i++) { l[n + i] = E.lhs[i]; u[n + i] = E.rhs[i]; if (l[n + i] > u[n + i] + 1e-7) return O_INFEAS; }
    std::vector<double> T((size_t)m * N, 0.0);   // rows: basic_i = sum over nonbasic  T[i][v] * x_v
    for (int i = 0; i < m; i++) { basic[i] = n + i; pos[n + i] = i; for (int j = 0; j < n; j++) T[(size_t)i * N + j] = E.A[(size_t)i * n + j]; }
    for (int v = 0; v < N; v++) if (pos[v] < 0) x[v] = l[v] > -PINF ? l[v] : u[v] < PINF ? u[v] : 0.0;
    auto recompute = [&] { for (int i = 0; i < m; i++) { double s = 0; for (int v = 0; v < N; v++) if (pos[v] < 0) s += T[(size_t)i * N + v] * x[v]; x[basic[i]] = s; } };
    recompute();
    std::vector<double> d(N);
    for (iters = 0; iters < 20000; iters++) {
        bool feas = true; std::vector<double> w(m, 0.0);
        for (int i = 0; i < m; i++) { int b = basic[i]; if (x[b] < l[b] - FT) { w[i] = -1; feas = false; } else if (x[b] > u[b] + FT) { w[i] = 1; feas = false; } }
        for (int v = 0; v < N; v++) { if (pos[v] >= 0) { d[v] = 0; continue; }
            double s = (feas && v < n) ? E.c[v] : 0.0;
            for (int i = 0; i < m; i++) { double t = T[(size_t)i * N + v]; if (t == 0) continue; if (feas) { if (basic[i] < n) s += E.c[basic[i]] * t; } else s += w[i] * t; }
            d[v] = s; }
        int q = -1; double dir = 0;
        for (int v = 0; v < N; v++) if (pos[v] < 0) {
            bool up = x[v] < u[v] && d[v] < -DT, dn = x[v] > l[v] && d[v] > DT;
            if (l[v] == u[v]) continue;
            if (up) { q = v; dir = 1; break; } if (dn) { q = v; dir = -1; break; } }
        if (q < 0) {
            if (!feas) return O_INFEAS;
            X.assign(x.begin(), x.begin() + n); Y.assign(m, 0.0);
            for (int i = 0; i < m; i++) if (pos[n + i] < 0) Y[i] = d[n + i];
            return O_OPT;
        }
        // ratio test
        double best = u[q] - l[q]; int r = -1; double rto = 0;   // own bound flip
        if (std::isinf(best) || std::isnan(best)) best = PINF;
        for (int i = 0; i < m; i++) {
            double t = T[(size_t)i * N + q] * dir; int b = basic[i]; if (fabs(t) < PV) continue;
            double lim = PINF, to = 0;
            if (t > 0) { if (x[b] < l[b] - FT) { lim = (l[b] - x[b]) / t; to = l[b]; } else if (x[b] > u[b] + FT) continue; else if (u[b] < PINF) { lim = (u[b] - x[b]) / t; to = u[b]; } }
            else { if (x[b] > u[b] + FT) { lim = (u[b] - x[b]) / t; to = u[b]; } else if (x[b] < l[b] - FT) continue; else if (l[b] > -PINF) { lim = (l[b] - x[b]) / t; to = l[b]; } }
            if (lim < 0) lim = 0;
            if (lim < best - 1e-12 || (lim <= best + 1e-12 && r >= 0 && basic[i] < basic[r])) { best = lim; r = i; rto = to; }
        }
        if (best == PINF) return feas ? O_UNB : O_UNKNOWN;
        if (r < 0) { x[q] = dir > 0 ? u[q] : l[q]; recompute(); continue; }
        int b = basic[r]; double piv = T[(size_t)r * N + q];
        // x_b = piv*x_q + rest  ->  x_q = x_b/piv - rest/piv
        double *Tr = &T[(size_t)r * N]; for (int v = 0; v < N; v++) Tr[v] = -Tr[v] / piv; Tr[q] = 0; Tr[b] = 1.0 / piv;
        for (int i = 0; i < m; i++) if (i != r) { double *Ti = &T[(size_t)i * N]; double f = Ti[q]; if (f == 0) continue; Ti[q] = 0; for (int v = 0; v < N; v++) Ti[v] += f * Tr[v]; }
        basic[r] = q; pos[q] = r; pos[b] = -1; x[b] = rto; recompute();
    }
    return O_UNKNOWN;
}
OStat simplex_solve(BasisEnum &E) {
    std::vector<double> X, Y; long it = 0; OStat s = simplex_core(E, X, Y, it); E.bases += it;
    if (s == O_OPT) { E.val = 0; for (int j = 0; j < E.n; j++) E.val += E.c[j] * X[j]; if (E.all) { E.px.push_back(X); E.dy.push_back(Y); } }
    return s;
}
