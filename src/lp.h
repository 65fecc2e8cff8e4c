// Dense LP container, text form, and the exact oracle (enumeration of all bases).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>

static const double PINF = INFINITY;

struct LP {
    int m = 0, n = 0;
    std::vector<double> A;              // row major m x n
    std::vector<double> lhs, rhs, lb, ub, c;
    double off = 0;
    // explicit non-zero pattern handed to the presolver: by default the non-zeros of A
    void resize(int m_, int n_) {
        m = m_; n = n_;
        A.assign((size_t)m * n, 0.0);
        lhs.assign(m, -PINF); rhs.assign(m, PINF);
        lb.assign(n, 0.0); ub.assign(n, PINF); c.assign(n, 0.0);
        off = 0;
    }
    double &a(int i, int j) { return A[(size_t)i * n + j]; }
    double a(int i, int j) const { return A[(size_t)i * n + j]; }
};

// 8 switches + max_shift
struct Stg {
    unsigned mask = 0xff;               // bit order: ston dton prows pcols prop finite dualfix relax
    int max_shift = 10;
    double max_time = 60.0;
};
enum { S_STON = 1, S_DTON = 2, S_PROWS = 4, S_PCOLS = 8, S_PROP = 16, S_FIN = 32, S_DFIX = 64, S_RELAX = 128 };

static inline void put_num(std::string &s, double v) {
    char b[64];
    if (v == PINF) s += "inf"; else if (v == -PINF) s += "-inf";
    else { snprintf(b, sizeof b, "%.17g", v); s += b; }
    s += ' ';
}
static inline std::string lp_text(const LP &p, const Stg &st) {
    std::string s; char b[128];
    snprintf(b, sizeof b, "lp %d %d\nsettings %u %d %.17g\n", p.m, p.n, st.mask, st.max_shift, st.max_time); s += b;
    for (int i = 0; i < p.m; i++) { s += "row "; put_num(s, p.lhs[i]); put_num(s, p.rhs[i]);
        for (int j = 0; j < p.n; j++) put_num(s, p.a(i, j)); s += '\n'; }
    for (int j = 0; j < p.n; j++) { s += "col "; put_num(s, p.lb[j]); put_num(s, p.ub[j]); put_num(s, p.c[j]); s += '\n'; }
    return s;
}
static inline double get_num(const char *t) {
    if (!strcmp(t, "inf")) return PINF; if (!strcmp(t, "-inf")) return -PINF; return atof(t);
}
// parses one lp from a token stream; returns false at the end
struct Tok { std::vector<std::string> t; size_t k = 0;
    bool end() const { return k >= t.size(); }
    const std::string &next() { static std::string e; if (k >= t.size()) { fprintf(stderr, "lp file: unexpected end\n"); exit(2);} return t[k++]; } };
static inline Tok tokenize(const std::string &s) {
    Tok T; size_t i = 0; while (i < s.size()) {
        if (isspace((unsigned char)s[i])) { i++; continue; }
        if (s[i] == '#') { while (i < s.size() && s[i] != '\n') i++; continue; }
        size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++;
        T.t.push_back(s.substr(i, j - i)); i = j; }
    return T;
}
static inline bool lp_parse(Tok &T, LP &p, Stg &st) {
    if (T.end() || T.t[T.k] != "lp") return false;
    T.next(); int m = atoi(T.next().c_str()), n = atoi(T.next().c_str()); p.resize(m, n);
    if (!T.end() && T.t[T.k] == "settings") { T.next(); st.mask = atoi(T.next().c_str()); st.max_shift = atoi(T.next().c_str()); st.max_time = atof(T.next().c_str()); }
    for (int i = 0; i < m; i++) { if (T.next() != "row") { fprintf(stderr, "lp file: row expected\n"); exit(2);} 
        p.lhs[i] = get_num(T.next().c_str()); p.rhs[i] = get_num(T.next().c_str());
        for (int j = 0; j < n; j++) p.a(i, j) = get_num(T.next().c_str()); }
    for (int j = 0; j < n; j++) { if (T.next() != "col") { fprintf(stderr, "lp file: col expected\n"); exit(2);} 
        p.lb[j] = get_num(T.next().c_str()); p.ub[j] = get_num(T.next().c_str()); p.c[j] = get_num(T.next().c_str()); }
    return true;
}
static inline std::string slurp(const char *path) {
    FILE *f = fopen(path, "rb"); if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(2); }
    std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s;
}

// ---------------------------------------------------------------------------------------------
// Oracle
// ---------------------------------------------------------------------------------------------
enum OStat { O_OPT = 0, O_INFEAS = 1, O_UNB = 2, O_UNKNOWN = 3 };

struct Comp {                            // a connected component of an LP
    std::vector<int> rows, cols;
    std::vector<std::vector<double>> px; // primal optimal points (component coordinates)
    std::vector<std::vector<double>> dy; // dual optimal row multipliers
};
struct OResult {
    OStat st = O_UNKNOWN;
    double val = 0;
    std::vector<Comp> comps;
    long bases = 0;                      // bases inspected
};

struct BasisEnum {
    const double PT = 1e-7, DT = 1e-9, ST = 1e-8;
    int m, n; std::vector<double> A, lhs, rhs, lb, ub, c;
    bool all; int cap;
    double box;                          // if >0: also use +-box for infinite bounds with zero reduced cost
    long bases = 0; bool dualfeas = false, primfeas = false, opt = false; double val = 0;
    std::vector<std::vector<double>> px, dy;
    int R[32], S[32]; double inv[16][16];
    bool invert(int k) {
        double M[16][32];
        for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) { M[i][j] = A[R[i] * n + S[j]]; M[i][k + j] = (i == j); } }
        for (int q = 0; q < k; q++) {
            int p = q; for (int i = q + 1; i < k; i++) if (fabs(M[i][q]) > fabs(M[p][q])) p = i;
            if (fabs(M[p][q]) < ST) return false;
            if (p != q) for (int j = 0; j < 2 * k; j++) std::swap(M[p][j], M[q][j]);
            double f = 1.0 / M[q][q]; for (int j = 0; j < 2 * k; j++) M[q][j] *= f;
            for (int i = 0; i < k; i++) if (i != q && M[i][q] != 0) { double g = M[i][q]; for (int j = 0; j < 2 * k; j++) M[i][j] -= g * M[q][j]; }
        }
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) inv[i][j] = M[i][k + j];
        return true;
    }
    bool inS[64], inR[64];
    // try all values for nonbasic variables; opts[v] = list of candidate values
    void primal(int k, std::vector<std::vector<double>> &optv, const std::vector<double> *y) {
        // optv: first (n-k) nonbasic columns in order, then k rows of R
        int T = (int)optv.size(); std::vector<int> idx(T, 0); std::vector<double> x(n);
        for (;;) {
            int t = 0; for (int j = 0; j < n; j++) if (!inS[j]) { x[j] = optv[t][idx[t]]; t++; }
            double b[16];
            for (int i = 0; i < k; i++) { double v = optv[t + i][idx[t + i]]; for (int j = 0; j < n; j++) if (!inS[j]) v -= A[R[i] * n + j] * x[j]; b[i] = v; }
            bool ok = true;
            for (int i = 0; i < k && ok; i++) { double v = 0; for (int j = 0; j < k; j++) v += inv[i][j] * b[j]; int q = S[i]; x[q] = v; if (v < lb[q] - PT || v > ub[q] + PT) ok = false; }
            if (ok) for (int i = 0; i < m && ok; i++) if (!inR[i]) { double v = 0; for (int j = 0; j < n; j++) v += A[i * n + j] * x[j]; if (v < lhs[i] - PT || v > rhs[i] + PT) ok = false; }
            if (ok) {
                primfeas = true;
                if (y) {
                    double v = 0; for (int j = 0; j < n; j++) v += c[j] * x[j];
                    if (!opt) { opt = true; val = v; }
                    if (all) { add(px, x); add(dy, *y); }
                }
                if (!all) return;
            }
            int q = 0; while (q < T && ++idx[q] == (int)optv[q].size()) idx[q++] = 0;
            if (q == T) return;
        }
    }
    void add(std::vector<std::vector<double>> &L, const std::vector<double> &v) {
        if ((int)L.size() >= cap) return;
        for (auto &w : L) { bool same = true; for (size_t i = 0; i < v.size(); i++) if (fabs(v[i] - w[i]) > 1e-7) { same = false; break; } if (same) return; }
        L.push_back(v);
    }
    static void bounds_opts(std::vector<double> &o, double l, double u, double d, double DT, double box) {
        o.clear();
        bool fl = l > -PINF, fu = u < PINF;
        if (d > DT) { o.push_back(l); return; }
        if (d < -DT) { o.push_back(u); return; }
        if (fl) o.push_back(l);
        if (fu && !(fl && l == u)) o.push_back(u);
        if (!fl && !fu) o.push_back(0.0);
        if (box > 0) { if (!fl) o.push_back(fu ? std::min(-box, u - box) : -box); if (!fu) o.push_back(fl ? std::max(box, l + box) : box); }
    }
    void visit(int k) {
        if (!invert(k)) return;
        bases++;
        std::vector<double> y(m, 0.0);
        for (int i = 0; i < k; i++) { double v = 0; for (int j = 0; j < k; j++) v += inv[j][i] * c[S[j]]; y[R[i]] = v; }
        bool df = true;
        double z[64];
        for (int i = 0; i < k && df; i++) { double d = y[R[i]]; if ((d > DT && lhs[R[i]] == -PINF) || (d < -DT && rhs[R[i]] == PINF)) df = false; }
        for (int j = 0; j < n && df; j++) if (!inS[j]) { double d = c[j]; for (int i = 0; i < k; i++) d -= A[R[i] * n + j] * y[R[i]]; z[j] = d; if ((d > DT && lb[j] == -PINF) || (d < -DT && ub[j] == PINF)) df = false; }
        if (df) {
            dualfeas = true;
            std::vector<std::vector<double>> o; o.reserve(n);
            for (int j = 0; j < n; j++) if (!inS[j]) { o.emplace_back(); bounds_opts(o.back(), lb[j], ub[j], z[j], DT, all ? box : 0); }
            for (int i = 0; i < k; i++) { o.emplace_back(); bounds_opts(o.back(), lhs[R[i]], rhs[R[i]], y[R[i]], DT, all ? box : 0); }
            primal(k, o, &y);
        }
    }
    void visit_feas(int k) {
        if (!invert(k)) return;
        std::vector<std::vector<double>> o;
        for (int j = 0; j < n; j++) if (!inS[j]) { o.emplace_back(); bounds_opts(o.back(), lb[j], ub[j], 0, DT, 0); }
        for (int i = 0; i < k; i++) { o.emplace_back(); bounds_opts(o.back(), lhs[R[i]], rhs[R[i]], 0, DT, 0); }
        bool sv = all; all = false; primal(k, o, nullptr); all = sv;
    }
    template <class F> void each_subset(int N, int k, int *out, bool *in, int pos, int start, F f, bool &stop) {
        if (stop) return;
        if (pos == k) { f(); return; }
        for (int i = start; i <= N - (k - pos) && !stop; i++) { out[pos] = i; in[i] = true; each_subset(N, k, out, in, pos + 1, i + 1, f, stop); in[i] = false; }
    }
    OStat run() {
        memset(inS, 0, sizeof inS); memset(inR, 0, sizeof inR);
        for (int j = 0; j < n; j++) if (lb[j] > ub[j] + PT) return O_INFEAS;
        for (int i = 0; i < m; i++) if (lhs[i] > rhs[i] + PT) return O_INFEAS;
        bool stop = false; int K = std::min(std::min(m, n), 15);
        for (int k = 0; k <= K && !stop; k++)
            each_subset(m, k, R, inR, 0, 0, [&] { each_subset(n, k, S, inS, 0, 0, [&] { visit(k); if (opt && !all) stop = true; }, stop); }, stop);
        if (opt) return O_OPT;
        if (dualfeas) return O_INFEAS;
        stop = false;
        for (int k = 0; k <= K && !stop; k++)
            each_subset(m, k, R, inR, 0, 0, [&] { each_subset(n, k, S, inS, 0, 0, [&] { visit_feas(k); if (primfeas) stop = true; }, stop); }, stop);
        return primfeas ? O_UNB : O_INFEAS;
    }
};

static inline double choose_d(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }

OStat simplex_solve(BasisEnum &E);       // large components (simplex.h)

// all=true: collect optimal points (up to cap per component)
static inline void oracle(const LP &p, OResult &res, bool all, int cap = 24, double box = 0) {
    res.comps.clear(); res.val = p.off; res.bases = 0;
    // union-find over rows/cols
    std::vector<int> uf(p.m + p.n); for (size_t i = 0; i < uf.size(); i++) uf[i] = (int)i;
    auto find = [&](int v) { while (uf[v] != v) v = uf[v] = uf[uf[v]]; return v; };
    for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) if (p.a(i, j) != 0) uf[find(i)] = find(p.m + j);
    std::vector<int> id(p.m + p.n, -1);
    for (int v = 0; v < p.m + p.n; v++) { int r = find(v); if (id[r] < 0) { id[r] = (int)res.comps.size(); res.comps.emplace_back(); }
        if (v < p.m) res.comps[id[r]].rows.push_back(v); else res.comps[id[r]].cols.push_back(v - p.m); }
    bool inf = false, unb = false, unk = false;
    for (auto &C : res.comps) {
        BasisEnum E; E.m = (int)C.rows.size(); E.n = (int)C.cols.size(); E.all = all; E.cap = cap; E.box = box;
        E.A.resize((size_t)E.m * E.n);
        for (int i = 0; i < E.m; i++) { for (int j = 0; j < E.n; j++) E.A[i * E.n + j] = p.a(C.rows[i], C.cols[j]); E.lhs.push_back(p.lhs[C.rows[i]]); E.rhs.push_back(p.rhs[C.rows[i]]); }
        for (int j : C.cols) { E.lb.push_back(p.lb[j]); E.ub.push_back(p.ub[j]); E.c.push_back(p.c[j]); }
        OStat s;
        if (E.m <= 20 && E.n <= 20 && choose_d(E.m + E.n, E.m) <= 8000) s = E.run(); else s = simplex_solve(E);
        res.bases += E.bases;
        if (s == O_OPT) { res.val += E.val; C.px.swap(E.px); C.dy.swap(E.dy); }
        else if (s == O_INFEAS) inf = true; else if (s == O_UNB) unb = true; else unk = true;
        if (inf) break;
    }
    res.st = inf ? O_INFEAS : unk ? O_UNKNOWN : unb ? O_UNB : O_OPT;
}
