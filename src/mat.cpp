// C16: the row store against a map model.  Every layout (pattern x distribution of spare space) within the
// bounds is a state; every edit of every state is executed on the real code.  Since every successor of a
// layout is again a layout, checking all single edits of all layouts covers edit sequences of any length
// that stay within the bounds.
#include "driver.h"
#ifdef SANITIZED
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=98:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=4"; }
#endif
struct RowRange { int start, end; };
struct Matrix { size_t m, n, nnz, n_alloc; int *i; RowRange *p; double *x; };     // mirrors Mir in matshim.c
extern "C" { int shim_new(Matrix *, int, const double *, const int *, const int *, size_t, size_t, size_t); int shim_transpose(Matrix *, const Matrix *, int *); int shim_shift(Matrix *, int, int, int); double shim_set(Matrix *, int, int, double, int *);
int shim_can_remove(); void shim_remove(Matrix *, int, int, int *); int shim_can_count(); void shim_count(const Matrix *, int *); int shim_can_tight(); void shim_compact(Matrix *, const int *, const int *, int *); void shim_free(Matrix *); }
static Matrix *fresh() { return (Matrix *) mc_malloc(sizeof(Matrix)); }
static std::string here = "/verif", self; static bool loud;
struct Shape { int m, n, G, X, S; };                     // rows, columns, gaps 0..G, requests 1..X, shift limits 0..S
static int g_m, g_n; static Shape H; static uint64_t g_pat, g_gap; static const std::vector<long> *g_only = nullptr;
static bool want(std::vector<long> v) { if (g_only && *g_only != v) return false; set_variant(v); return true; }
static double val0(int i, int j) { return (i * 7 + j + 1) * ((i + j) & 1 ? -1.0 : 1.0); }
typedef std::vector<std::map<int, double>> Rows;
struct Lay { Rows r; std::vector<int> st, en; int total = 0; };
static Lay layout() { Lay L; L.r.resize(g_m); uint64_t g = g_gap; int pos = 0; for (int i = 0; i < g_m; i++) { L.st.push_back(pos); for (int j = 0; j < g_n; j++) if (g_pat >> (i * g_n + j) & 1) { L.r[i][j] = val0(i, j); pos++; } L.en.push_back(pos); pos += (int) (g % (H.G + 1)); g /= (H.G + 1); } L.total = pos; return L; }
static Matrix *build(const Lay &L) {
    Matrix *A = (Matrix *) mc_malloc(sizeof(Matrix)); A->m = g_m; A->n = g_n; A->n_alloc = L.total; A->nnz = 0; A->i = (int *) mc_malloc(L.total * sizeof(int)); A->x = (double *) mc_malloc(L.total * sizeof(double)); A->p = (RowRange *) mc_malloc((g_m + 1) * sizeof(RowRange));
    for (int i = 0; i < g_m; i++) { int k = L.st[i]; A->p[i].start = k; for (auto &e : L.r[i]) { A->i[k] = e.first; A->x[k] = e.second; k++; A->nnz++; } A->p[i].end = k; } A->p[g_m].start = A->p[g_m].end = L.total; return A; }
// the store as a list of maps; false if it is not well formed
static bool read_store(const Matrix *A, int m, int n, int total, Rows &out, const char *what) {
    out.assign(m, {}); int prev = 0;
    for (int i = 0; i < m; i++) { int s = A->p[i].start, e = A->p[i].end; if (s < prev || e < s || e > total) { V("%s: row %d is stored in [%d, %d), the row before ends at %d, storage %d", what, i, s, e, prev, total); return false; } prev = e;
        int last = -1; for (int k = s; k < e; k++) { if (A->i[k] <= last || A->i[k] >= n) { V("%s: row %d is not sorted or holds column %d", what, i, A->i[k]); return false; } last = A->i[k]; out[i][last] = A->x[k]; } }
    if (A->p[m].start < prev) { V("%s: the end of the storage is at %d, the last row ends at %d", what, A->p[m].start, prev); return false; }
    return true; }
static void same(const Rows &a, const Rows &b, const char *what) { for (size_t i = 0; i < b.size(); i++) if (a[i] != b[i]) { std::string s, t; char q[60]; for (auto &e : a[i]) { snprintf(q, sizeof q, " %d:%g", e.first, e.second); s += q; } for (auto &e : b[i]) { snprintf(q, sizeof q, " %d:%g", e.first, e.second); t += q; } V("%s: row %zu is {%s }, should be {%s }", what, i, s.c_str(), t.c_str()); return; } }
static void finish(Matrix *A, const char *what) { shim_free(A); if (E.fault.empty()) env_verify(); if (!E.fault.empty()) V("%s: %s", what, E.fault.c_str()); cnt(N_TRANS); }
static void check_state() {
    Lay L = layout(); Rows R; char w[200]; cnt(N_STATES);
    for (int row = 0; row < g_m; row++) for (int x = 1; x <= H.X; x++) for (int s = 0; s <= H.S; s++) {
        int have = (row + 1 < g_m ? L.st[row + 1] : L.total) - L.en[row]; if (x <= have && s) continue; if (!want({1, row, x, s})) continue;
        env_reset(0xA5, true); Matrix *A = build(L); snprintf(w, sizeof w, "room for %d more in row %d, at most %d moves", x, row, s); bool ok = shim_shift(A, row, x, s); if (loud) printf("%s: %d\n", w, ok);
        if (read_store(A, g_m, g_n, L.total, R, w)) { same(R, L.r, w); int mv = 0; for (int i = 0; i < g_m; i++) { if (A->p[i].start != L.st[i]) { mv += L.en[i] - L.st[i]; if (!ok) V("%s: refused, but row %d was moved", w, i); } if (A->p[i].end - A->p[i].start != L.en[i] - L.st[i]) V("%s: length of row %d changed", w, i); }
            if (A->p[g_m].start != L.total) V("%s: the end of the storage moved", w); int now = A->p[row + 1].start - A->p[row].end; if (ok && now < x) V("%s: granted, but there is room for %d only", w, now); if (mv > s) V("%s: %d entries were moved", w, mv);
            if (!ok && x <= have) V("%s: refused although the room is there", w);
            if (ok) { cnt(N_EXTRA1); int sz = L.en[row] - L.st[row]; Rows M = L.r; int put = 0; for (int j = 0; j < g_n && put < x; j++) if (!M[row].count(j)) { put++; M[row][j] = 100 + j; shim_set(A, row, j, 100 + j, &sz); } if (read_store(A, g_m, g_n, L.total, R, w)) same(R, M, w); if (sz != (int) M[row].size()) V("%s: row size %d after insertions", w, sz); } }
        finish(A, w); }
    for (int row = 0; row < g_m; row++) for (int col = 0; col < g_n; col++) {
        bool ex = L.r[row].count(col); int have = (row + 1 < g_m ? L.st[row + 1] : L.total) - L.en[row];
        static const double vals[] = {5.5, -1e-3, 0.0, 1e-12}; 
        for (int q = 0; q < 4; q++) { if (!ex && (q >= 2 || have < 1)) continue; if (!want({2, row, col, q})) continue;
            env_reset(0xA5, true); Matrix *A = build(L); snprintf(w, sizeof w, "setting (%d,%d) to %g", row, col, vals[q]); int sz = L.en[row] - L.st[row]; double old = shim_set(A, row, col, vals[q], &sz); Rows M = L.r; if (q < 2) M[row][col] = vals[q]; else M[row].erase(col); (void) old;
            if (q < 2 && old != (ex ? L.r[row][col] : 0.0)) V("%s: returns %g as the old value", w, old); if (sz != (int) M[row].size()) V("%s: row size %d", w, sz); size_t nn = 0; for (auto &r : M) nn += r.size(); if (A->nnz != nn) V("%s: %zu non-zeros counted, %zu are there", w, A->nnz, nn);
            if (read_store(A, g_m, g_n, L.total, R, w)) same(R, M, w); finish(A, w); }
        if (ex && shim_can_remove() && want({3, row, col})) { env_reset(0xA5, true); Matrix *A = build(L); snprintf(w, sizeof w, "removing (%d,%d)", row, col); int sz = L.en[row] - L.st[row]; shim_remove(A, row, col, &sz); Rows M = L.r; M[row].erase(col); if (sz != (int) M[row].size()) V("%s: row size %d", w, sz); if (read_store(A, g_m, g_n, L.total, R, w)) same(R, M, w); finish(A, w); } }
    // compaction: every set of deleted rows, every set of deleted (then empty) columns
    for (int dr = 0; dr < 1 << g_m; dr++) { uint64_t used = 0; for (int i = 0; i < g_m; i++) if (!(dr >> i & 1)) for (auto &e : L.r[i]) used |= 1ull << e.first;
        for (int dc = 0; dc < 1 << g_n; dc++) { if (dc & used) continue; if (!want({4, dr, dc})) continue; env_reset(0xA5, true); Matrix *A = build(L); snprintf(w, sizeof w, "compaction without rows 0x%x and columns 0x%x", dr, dc);
            int rs[16], cs[16], map[16]; int keptc = 0, mp[16]; for (int i = 0; i < g_m; i++) rs[i] = dr >> i & 1 ? -1 : L.en[i] - L.st[i]; for (int j = 0; j < g_n; j++) { int k = 0; for (int i = 0; i < g_m; i++) k += !(dr >> i & 1) && L.r[i].count(j); cs[j] = dc >> j & 1 ? -1 : k; mp[j] = dc >> j & 1 ? -1 : keptc++; map[j] = -7; }
            Rows M; int nn = 0; for (int i = 0; i < g_m; i++) if (!(dr >> i & 1)) { std::map<int, double> r; for (auto &e : L.r[i]) { r[mp[e.first]] = e.second; nn++; } M.push_back(r); }
            shim_compact(A, rs, cs, map); if (A->m != M.size() || (int) A->n != keptc) V("%s: leaves %zux%zu", w, A->m, A->n); else { for (int j = 0; j < g_n; j++) if (map[j] != mp[j]) V("%s: column %d is mapped to %d", w, j, map[j]);
                if (read_store(A, (int) M.size(), keptc, nn, R, w)) { same(R, M, w); for (size_t i = 0; i < M.size(); i++) if (A->p[i].end != A->p[i + 1].start || A->p[0].start != 0) { V("%s: spare space remains", w); break; } } } finish(A, w); } }
    if (want({5})) { env_reset(0xA5, true); Matrix *A = build(L); int wk[16]; Matrix *T = fresh(); if (!shim_transpose(T, A, wk)) { mc_free(T); T = nullptr; } Rows M(g_n); size_t nn = 0; for (int i = 0; i < g_m; i++) for (auto &e : L.r[i]) { M[e.first][i] = e.second; nn++; }
        if (!T) V("transpose fails"); else { if ((int) T->m != g_n || (int) T->n != g_m || T->nnz != nn) V("transpose is %zux%zu with %zu non-zeros", T->m, T->n, T->nnz); else if (read_store(T, g_n, g_m, (int) T->n_alloc, R, "transpose")) same(R, M, "transpose"); if (T->p[g_n].start > (int) T->n_alloc) V("transpose ends behind its storage"); shim_free(T); }
        if (read_store(A, g_m, g_n, L.total, R, "transpose (its argument)")) same(R, L.r, "transpose (its argument)"); finish(A, "transpose"); }
    if (g_gap == 0 && want({6})) { std::vector<double> Ax; std::vector<int> Ai, Ap{0}; for (auto &r : L.r) { for (auto &e : r) { Ai.push_back(e.first); Ax.push_back(e.second); } Ap.push_back((int) Ai.size()); } Ax.shrink_to_fit();
        for (int k = 0; k < 2; k++) { if (k && !shim_can_tight()) continue; env_reset(0xA5, true); Matrix *A = fresh(); if (!shim_new(A, k, Ax.data(), Ai.data(), Ap.data(), g_m, g_n, Ax.size())) { mc_free(A); A = nullptr; } const char *q = k ? "construction without spare space" : "construction"; if (!A) { V("%s fails", q); continue; }
            if (read_store(A, g_m, g_n, (int) A->n_alloc, R, q)) same(R, L.r, q); if (A->nnz != Ax.size() || (int) A->m != g_m || (int) A->n != g_n) V("%s: wrong dimensions", q); if (shim_can_count()) { int rs[16]; shim_count(A, rs); for (int i = 0; i < g_m; i++) if (rs[i] != (int) L.r[i].size()) V("size of row %d is counted as %d", i, rs[i]); } finish(A, q); } }
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static bool confirm(const std::string &f) { fflush(stdout); pid_t pid = fork(); if (!pid) { alarm(60); execl(self.c_str(), self.c_str(), "--replay", f.c_str(), (char *) nullptr); _exit(127); } int st; waitpid(pid, &st, 0); return !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 127)); }
int main(int argc, char **argv) {
    std::string tier = "quick", evid; const char *rep = nullptr; double limit = 0; { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) self.assign(b, k); } if (getenv("VERIF_HOME")) here = getenv("VERIF_HOME");
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--replay") rep = argv[++i]; else if (a == "--tier") tier = argv[++i]; else if (a == "--evidence") evid = argv[++i]; else if (a == "--limit") limit = atof(argv[++i]); }
    env_init(); only_prop = "C16";
    if (rep) { FILE *f = fopen(rep, "r"); if (!f) return 2; int nv; unsigned long pat, gap; if (fscanf(f, "property C16 matrix %d %d gaps %d requests %d moves %d pattern %lu spare %lu variant %d", &H.m, &H.n, &H.G, &H.X, &H.S, &pat, &gap, &nv) != 8) return 2; std::vector<long> v(nv); for (auto &x : v) if (fscanf(f, "%ld", &x) != 1) return 2; fclose(f);
        g_m = H.m; g_n = H.n; g_pat = pat; g_gap = gap; loud = true; Shared d; memset((void *) &d, 0, sizeof d); sh = &d; g_only = &v; if (v.empty()) g_only = nullptr; check_state(); Lay L = layout(); for (int i = 0; i < g_m; i++) { printf("row %d at [%d, %d):", i, L.st[i], L.en[i]); for (auto &e : L.r[i]) printf(" %d:%g", e.first, e.second); printf("\n"); } for (auto &x : viols) printf("REPLAY C16: %s\n", x.msg.c_str()); fflush(stdout); _exit(viols.empty() ? 0 : 1); }
    double t0 = wall(); g_deadline = limit > 0 ? t0 + limit : 0; std::vector<Shape> shapes{{1, 3, 3, 4, 3}, {2, 3, 3, 5, 7}, {3, 2, 3, 5, 6}, {3, 3, 3, 5, 7}, {2, 4, 3, 5, 6}, {4, 2, 3, 5, 8}, {5, 1, 3, 5, 5}, {4, 3, 1, 4, 8}}; if (tier == "thorough") for (Shape s : std::vector<Shape>{{4, 3, 2, 5, 9}, {5, 2, 2, 5, 8}, {6, 1, 3, 6, 6}, {3, 4, 3, 5, 9}}) shapes.push_back(s);
    uint64_t tot[N_COUNTERS] = {0}; std::vector<Candidate> cands; std::string per, sample;
    for (auto &s : shapes) { H = s; g_m = s.m; g_n = s.n; uint64_t pats = 1ull << (s.m * s.n), gaps = ipow(s.G + 1, s.m); Domain D; D.name = "matrices"; D.items = pats * gaps; D.chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, D.items / 200)); D.open = [&](uint64_t x) { g_pat = x % pats; g_gap = x / pats; return true; }; D.run = [&](uint64_t, int) { check_state(); };
        D.text = [&](uint64_t x, int, const std::vector<long> &v) { char b[300]; snprintf(b, sizeof b, "property C16 matrix %d %d gaps %d requests %d moves %d pattern %lu spare %lu variant %zu", H.m, H.n, H.G, H.X, H.S, x % pats, x / pats, v.size()); std::string t = b; for (long q : v) t += " " + std::to_string(q); return t + "\n"; };
        enumerate(D, tot, cands, stderr); char b[200]; snprintf(b, sizeof b, "%s\"%dx%d, spare space 0..%d per row: %lu layouts\"", per.empty() ? "" : ", ", s.m, s.n, s.G, D.items); per += b; sample = D.text(D.items / 2 + 3, 0, {1, 0, 1, 2}); sample.pop_back(); if ((int) cands.size() >= g_maxviol || g_capped) break; }
    std::vector<std::pair<std::string, std::string>> conf; for (auto &c : cands) { if (conf.size() >= 6) break; mkdir((here + "/replay").c_str(), 0777); std::string f = here + "/replay/C16-" + std::to_string(conf.size() + 1) + ".txt"; FILE *o = fopen(f.c_str(), "w"); if (!o) return 2; fputs(c.text.c_str(), o); fclose(o); int dn = open("/dev/null", 1), sv = dup(1); fflush(stdout); dup2(dn, 1); bool ok = confirm(f); fflush(stdout); dup2(sv, 1); close(dn); close(sv); if (ok) conf.push_back({f, c.msg}); else remove(f.c_str()); }
    for (auto &v : conf) printf("VIOLATION property=C16 replay=%s\n  %s\n", v.first.c_str(), v.second.c_str());
    if (!evid.empty()) { FILE *o = fopen(evid.c_str(), "w"); if (!o) return 2; fprintf(o, "{\"property\": \"C16\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\", \"coverage\": {\"states\": %lu, \"transitions\": %lu, \"traces_validated_against_impl\": %lu, \"exhaustive\": %s, \"explored\": \"every layout of the row store within the bounds; every edit, request for room, compaction and transposition of it, executed on the real code and compared with a map model\", \"spaces\": [%s], \"granted_requests\": %lu, \"samples\": [\"%s\"]}, \"wall_s\": %.2f, \"violations\": %zu}\n", tier.c_str(), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, tot[N_STATES], tot[N_TRANS], tot[N_TRANS], g_capped || !conf.empty() ? "false" : "true", per.c_str(), tot[N_EXTRA1], sample.c_str(), wall() - t0, conf.size()); fclose(o); }
    printf("C16 %s: %lu layouts, %lu edits, %.1f s%s\n", conf.empty() ? "holds" : "BROKEN", tot[N_STATES], tot[N_TRANS], wall() - t0, g_capped ? " (time limit reached, not exhaustive)" : ""); return conf.empty() ? 0 : 1;
}
