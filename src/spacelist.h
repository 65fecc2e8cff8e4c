static std::vector<Space> make_spaces(int tier) {
    std::vector<Space> v; const double I = PINF;
    std::vector<Opt> B1 = {{0, I}, {-I, I}, {-I, 0}, {0, 1}, {-1, 1}, {1, 2}, {0, 0}}, B2 = {{0, I}, {-I, I}, {0, 1}, {-1, 1}, {-I, 1}};
    std::vector<Opt> R1 = {{1, I}, {-I, 1}, {1, 1}, {0, 0}, {0, 1}, {-I, -1}, {-I, I}}, R2 = {{1, I}, {-I, 1}, {1, 1}, {0, 1}};
    for (int n = 1; n <= 3; n++) { Space s; s.name = "full1x" + std::to_string(n); s.base.resize(1, n); for (int j = 0; j < n; j++) { s.coef(0, j, {1, 0, -1, 2}); s.bnds(j, n == 3 ? B2 : B1); s.cost(j, {1, 0, -1}); } s.sides(0, R1);
        s.stgs = n < 3 ? stg_all() : stg_main(); s.canon_cols = true; s.finish(); v.push_back(s); }
    for (int m = 2; m <= 3; m++) { Space s; s.name = "full" + std::to_string(m) + "x2"; s.base.resize(m, 2); for (int j = 0; j < 2; j++) { for (int i = 0; i < m; i++) s.coef(i, j, m == 2 ? std::vector<double>{1, 0, -1, 2} : std::vector<double>{1, 0, -1}); s.bnds(j, m == 2 ? B1 : B2); s.cost(j, {1, 0, -1}); } for (int i = 0; i < m; i++) s.sides(i, m == 2 ? R1 : R2);
        s.stgs = stg_main(); s.canon_cols = true; s.finish(); v.push_back(s); }
    { Space s; s.name = "full2x3"; s.base.resize(2, 3); for (int j = 0; j < 3; j++) { for (int i = 0; i < 2; i++) s.coef(i, j, {1, 0, -1}); s.bnds(j, {{0, I}, {-I, I}, {0, 1}}); s.cost(j, {1, 0, -1}); } for (int i = 0; i < 2; i++) s.sides(i, R2);
        s.stgs = stg_main(); s.canon_cols = true; s.finish(); v.push_back(s); }
    { // the same shapes with values that are not small integers
      Space s; s.name = "fractions2x2"; s.base.resize(2, 2); for (int j = 0; j < 2; j++) { for (int i = 0; i < 2; i++) s.coef(i, j, {1, 0, -0.3, 0.7, 3}); s.bnds(j, {{0, I}, {-0.1, 2.3}, {-2e7, 2e7}, {-I, 0.7}}); s.cost(j, {0.1, 0, -0.7}); } for (int i = 0; i < 2; i++) s.sides(i, {{0.1, I}, {0.3, 0.3}, {-I, 0.7}, {-2e7, 1.1}});
      s.stgs = stg_main(); s.canon_cols = true; s.finish(); v.push_back(s); }
    // no rows, no columns, neither
    for (int q = 0; q < 4; q++) { Space s; s.group = "nothing"; s.name = "nothing" + std::to_string(q); s.base.resize(q == 0 ? 2 : 0, q == 1 ? 1 : q == 2 ? 3 : 0); if (q == 0) for (int i = 0; i < 2; i++) s.sides(i, R1); for (int j = 0; j < s.base.n; j++) { s.bnds(j, B1); s.cost(j, {1, 0, -1}); } s.stgs = stg_all(); s.canon_cols = true; s.finish(); v.push_back(s); }
    return v;
}
// rows and columns that the hash functions of the parallel searches cannot tell apart: supports {a,b} and {c,d} with 33a+b = 33c+d (likewise of length 3),
// and coefficients (1, .67) and (.99, 1)
static std::vector<Space> make_hash_spaces() {
    std::vector<Space> v; const double I = PINF; const std::vector<double> K = {1, 2, -1}; std::vector<Stg> g = {mk(0xff), mk(0xfc), mk(S_PROWS | S_PCOLS)};
    { Space s; s.name = s.group = "hash-rows"; s.base.resize(3, 36); int q[4] = {0, 35, 1, 2}; for (int j = 0; j < 36; j++) { s.base.lb[j] = 0; s.base.ub[j] = I; s.base.c[j] = 0; } s.base.a(0, 0) = s.base.a(0, 35) = 1; s.coef(1, 1, K); s.coef(1, 2, K);
      for (int j = 0; j < 4; j++) { s.base.a(2, q[j]) = j == 1 ? 2 : 1; if (j % 2 == 0) s.bnds(q[j], {{0, I}, {-1, 1}}); s.cost(q[j], {1, -1}); } for (int i = 0; i < 2; i++) s.sides(i, {{1, I}, {-I, 1}, {1, 1}, {0, 2}}); s.sides(2, {{1, I}, {-I, 3}}); s.stgs = g; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "hash-rows3"; s.base.resize(3, 37); int q[5] = {0, 1, 36, 2, 3}; for (int j = 0; j < 37; j++) { s.base.lb[j] = 0; s.base.ub[j] = I; s.base.c[j] = 0; } s.base.a(0, 0) = s.base.a(0, 1) = s.base.a(0, 36) = 1; s.coef(1, 0, K); s.coef(1, 2, K); s.coef(1, 3, K);
      for (int j = 0; j < 5; j++) { s.base.a(2, q[j]) = j == 1 ? 2 : 1; if (j == 0 || j == 3) s.bnds(q[j], {{0, I}, {-1, 1}}); s.cost(q[j], {1, -1}); } for (int i = 0; i < 2; i++) s.sides(i, {{1, I}, {-I, 1}, {1, 1}}); s.sides(2, {{1, I}, {-I, 3}}); s.stgs = g; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "hash-columns"; s.base.resize(36, 4); for (int i = 0; i < 36; i++) { s.base.lhs[i] = -I; s.base.rhs[i] = 5; } for (int j = 0; j < 4; j++) { s.base.lb[j] = 0; s.base.ub[j] = I; s.base.c[j] = 1; } int q[4] = {0, 35, 1, 2};
      s.base.a(0, 0) = s.base.a(35, 0) = 1; s.coef(1, 1, K); s.coef(2, 1, K); for (int i = 0; i < 4; i++) { s.base.a(q[i], 2) = i == 1 ? 2 : 1; if (i % 2 == 0) s.base.a(q[i], 3) = -1; s.sides(q[i], {{1, I}, {-I, 3}, {1, 1}}); } s.cost(0, {1, -1}); s.cost(1, K); for (int j = 0; j < 2; j++) s.bnds(j, {{0, I}, {0, 1}, {-I, I}}); s.stgs = g; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "hash-coefficients"; s.base.resize(3, 2); for (int i = 0; i < 3; i++) { s.coef(i, 0, {1, .99, 2, 1.98}); s.coef(i, 1, {.67, 1, 1.34, 2}); if (i < 2) s.sides(i, {{1, I}, {-I, 1}, {1, 1}, {0, 1.5}}); else s.sides(i, {{1, I}, {-I, 1}}); } s.base.lb = {0, 0}; s.base.ub = {3, I}; s.base.c = {1, -1}; s.stgs = g; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "hash-coefficients-columns"; s.base.resize(2, 3); for (int j = 0; j < 3; j++) { s.coef(0, j, {1, .99, 2}); s.coef(1, j, {.67, 1, 1.34}); s.bnds(j, {{0, I}, {-1, 1}}); s.cost(j, {0, 1}); } for (int i = 0; i < 2; i++) s.sides(i, {{1, I}, {-I, 1}}); s.stgs = g; s.finish(); v.push_back(s); }
    // nearly parallel rows and columns, nearly parallel costs: differences of 1e-2, 1e-3, 1e-4
    { Space s; s.name = s.group = "near-parallel-rows"; s.base.resize(2, 2); s.base.a(0, 0) = s.base.a(0, 1) = 1; s.coef(1, 0, {1, -2, 3}); s.coef(1, 1, {1, 1.01, 1.001, 1.0001, -2, -2.01, -1.999, -1.9999, 3, 3.03, 3.001, 2.9998}); s.sides(0, {{1, 2}, {-I, 100}, {100, 100}}); s.sides(1, {{-200, -150}, {-I, 101}, {-I, -202}, {301, I}, {300, 300}});
      for (int j = 0; j < 2; j++) { s.bnds(j, {{0, I}, {0, 1000}, {-1000, 1000}, {-I, I}}); s.cost(j, {1, -1}); } s.stgs = {mk(0xff), mk(0xfc), mk(S_PROWS), mk(0xcf)}; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "near-parallel-columns"; s.base.resize(2, 3); s.base.a(0, 0) = s.base.a(1, 0) = 1; s.coef(0, 1, {1, -2, 3}); s.coef(1, 1, {1, 1.01, 1.001, 1.0001, -2, -2.01, -1.999, -1.9999, 3, 3.03, 3.001, 2.9998}); s.base.a(0, 2) = 1; s.base.a(1, 2) = -1; for (int i = 0; i < 2; i++) s.sides(i, {{10, I}, {-I, 10}, {10, 10}});
      for (int j = 0; j < 2; j++) s.bnds(j, {{0, I}, {0, 100}, {-I, I}}); s.bnds(2, {{0, I}, {-1, 1}}); s.cost(0, {1, -1}); s.cost(1, {1, 1.001, -1, 2, -2, -1.999, 3, 2.9998, -3}); s.cost(2, {1, 0}); s.stgs = {mk(0xff), mk(0xfc), mk(S_PCOLS), mk(0xcf)}; s.finish(); v.push_back(s); }
    return v;
}
// contradictory input: one side or bound beyond its partner (one row or column at a time, k = 1)
static inline Space crossed(const LP &b, const std::string &name) {
    Space s; s.name = name; s.base = b; s.k = 1;
    auto menu = [&](double l, double u) { std::vector<Opt> o{{l, u}}; double f = std::isfinite(l) ? l : std::isfinite(u) ? u : 1; o.push_back({f + 1, f}); o.push_back({f, f - 0.01}); if (std::isfinite(l) && std::isfinite(u) && l < u) o.push_back({u, l}); return o; };
    for (int i = 0; i < b.m; i++) s.sides(i, menu(b.lhs[i], b.rhs[i])); for (int j = 0; j < b.n; j++) s.bnds(j, menu(b.lb[j], b.ub[j]));
    s.stgs = stg_main(); s.finish(); return s;
}
// long rows and columns: two long rows (columns) that are parallel except for one entry, or exactly; a doubleton equation whose columns occur in many rows
static std::vector<Space> make_long_spaces() {
    std::vector<Space> v; const double I = PINF; std::vector<Stg> g = {mk(0xff), mk(0xfc), mk(S_PROWS | S_PCOLS)};
    for (int L : {5, 17, 34, 70}) for (double f : {1.0, -2.0, 0.5}) for (int at : {-1, 0, 1, L / 2, L - 2, L - 1}) for (int kind = 0; kind < 2; kind++) {
        Space s; s.name = "long-parallel-" + std::to_string(L) + "-" + std::to_string(f) + "-" + std::to_string(at) + "-" + std::to_string(kind); s.group = "long-parallel";
        if (kind == 0) { s.base.resize(3, L + 1); for (int j = 0; j < L; j++) { double a = j % 3 == 0 ? 1 : j % 3 == 1 ? -2 : 3; s.base.a(0, j) = a; s.base.a(1, j) = f * a + (j == at ? 1 : 0); if (j % 4 == 0) s.base.a(2, j) = 1; s.base.lb[j] = 0; s.base.ub[j] = j % 5 == 0 ? I : 2; s.base.c[j] = j % 7 == 0 ? 1 : j % 7 == 1 ? -1 : 0.5; } if (at >= 0 && s.base.a(1, at) == 0) continue;
            s.base.a(2, L) = 1; s.base.lb[L] = 0; s.base.ub[L] = I; s.base.c[L] = 1; s.base.lhs[2] = 3; s.base.rhs[2] = I; double lo = 2 * f, hi = 5 * f; if (lo > hi) std::swap(lo, hi); s.sides(0, {{2, 5}, {-I, 5}, {3, 3}, {2, I}}); s.sides(1, {{lo, hi}, {-I, hi - .5}, {lo + .5, I}, {3 * f, 3 * f}, {3 * f + 1, 3 * f + 1}}); }
        else { s.base.resize(L + 1, 4); for (int i = 0; i < L; i++) { double a = i % 3 == 0 ? 1 : i % 3 == 1 ? -2 : 3; s.base.a(i, 0) = a; s.base.a(i, 1) = f * a + (i == at ? 1 : 0); s.base.a(i, 2) = i % 2 ? 1 : -1; s.base.a(i, 3) = 1; s.base.lhs[i] = i % 2 ? -I : -3; s.base.rhs[i] = i % 2 ? 10 : i % 3 ? I : 20; } if (at >= 0 && s.base.a(at, 1) == 0) continue;
            s.base.a(L, 2) = s.base.a(L, 3) = 1; s.base.lhs[L] = 1; s.base.rhs[L] = I; s.bnds(0, {{0, I}, {0, 2}}); s.bnds(1, {{0, I}, {-1, 1}, {-I, 0}}); s.base.lb[2] = 0; s.base.ub[2] = I; s.base.lb[3] = -1; s.base.ub[3] = 4; s.base.c[0] = 1; s.cost(1, {f, f + 1, f - 1, 0}); s.base.c[2] = 1; s.base.c[3] = 2; }
        s.stgs = g; s.finish(); v.push_back(s); }
    for (int L : {6, 20, 45}) for (int other = 1; other <= 4; other++) { Space s; s.name = "long-doubleton-" + std::to_string(L) + "-" + std::to_string(other); s.group = "long-doubleton"; int n = 2 + 3 + L; s.base.resize(L + 2, n); // columns: a block before, x, a block between, y, a block behind
        int x = L / 3, y = x + 2 + L / 3; for (int j = 0; j < n; j++) { s.base.lb[j] = j % 3 ? 0 : -2; s.base.ub[j] = j % 2 ? 6 : 9; s.base.c[j] = j % 4 - 1.5; }
        s.base.a(0, x) = 1; s.coef(0, y, {-2, 1, 0.5}); s.base.lhs[0] = s.base.rhs[0] = 1; s.bnds(x, {{-I, I}, {0, 8}}); s.bnds(y, {{0, I}, {-I, 3}}); s.cost(x, {1, -1});
        for (int i = 1; i <= L; i++) { if ((i * other) % 3 != 1) s.base.a(i, x) = 1 + i % 2; if ((i + other) % 4 == 0 || i % 7 == 0) s.base.a(i, y) = i % 3 == 1 ? -1 : 2; for (int k = 0; k < other; k++) { int j = (i * 5 + k * 7) % n; if (j != x && j != y) s.base.a(i, j) = (i + k) % 2 ? 1 : -1; } s.base.lhs[i] = -20 - i; s.base.rhs[i] = i % 3 ? 30 : I; }
        for (int j = 0; j < n; j++) s.base.a(L + 1, j) = j % 3 ? 1 : -1; s.base.lhs[L + 1] = -60; s.base.rhs[L + 1] = 60;
        s.stgs = {mk(0xff), mk(0xff, 1000), mk(S_DTON), mk(S_DTON, 1000), mk(S_DTON, 30), mk(0xfe, 1000)}; s.finish(); v.push_back(s); }
    return v;
}
// magnitudes: costs below the feasibility tolerance on columns that may go far; entries that almost cancel in a substitution, on columns that may go far
// (multipliers below 1e-6 are not passed on to merged columns, hence no merging where multipliers are compared)
static std::vector<Space> make_scale_spaces(bool merged) {
    std::vector<Space> v; const double I = PINF; std::vector<Stg> g; g = stg_main();
    std::vector<Stg> g0, g1; for (auto &t : g) (t.mask & S_PCOLS ? g1 : g0).push_back(t); if (!(g0.size() && g1.size())) abort();
    for (int q = 0; q < (merged ? 2 : 1); q++) for (int m = 1; m <= 2; m++) { Space s; s.group = q ? "tiny-costs-merged" : "tiny-costs"; s.name = s.group + std::to_string(m); s.base.resize(m, 2); for (int j = 0; j < 2; j++) { for (int i = 0; i < m; i++) s.coef(i, j, {1, -1, 0}); s.bnds(j, {{0, I}, {0, 1e6}, {-I, I}, {-1e6, 0}}); s.cost(j, {5e-7, -5e-7, 0, 1}); } for (int i = 0; i < m; i++) s.sides(i, {{1, I}, {-I, 1}, {1, 1}}); s.canon_cols = true; s.stgs = q ? g1 : g0; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "near-cancel"; s.base.resize(2, 3); s.base.a(0, 0) = 1; s.base.a(1, 0) = 1; s.base.a(1, 2) = 1; s.coef(0, 1, {-1, 2}); s.coef(1, 1, {-1.01, -1.0001, -1 - 5e-7, 2.02, 2.0002, 2 - 1e-6}); s.sides(0, {{0, 0}, {3, 3}}); s.sides(1, {{-I, .1}, {.1, I}, {.05, .05}, {-.1, 3.1}});
      for (int j = 0; j < 2; j++) { s.bnds(j, {{0, 1e6}, {-I, I}, {0, I}}); s.cost(j, {1, 0, -1}); } s.bnds(2, {{0, I}, {-1, 1}}); s.cost(2, {1, 0}); s.stgs = g; s.finish(); v.push_back(s); }
    { Space s; s.name = s.group = "big-sides"; s.base.resize(2, 2); const double B = 1e7 / 3; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) s.coef(i, j, {1 / 3.0, -.7, 0}); s.sides(i, {{-I, B}, {B * .7, I}, {-B / 3, B / .7}, {B, B}}); }
      for (int j = 0; j < 2; j++) { s.bnds(j, {{0, I}, {-I, I}, {-I, B}, {-B * .7, B / 3}}); s.cost(j, {1, 0, -.3}); } s.canon_cols = true; s.stgs = g; s.finish(); v.push_back(s); }
    return v;
}
// deviation balls around given LPs: every entry may be replaced by the values of a menu
// (menu 0: small integers; menu 1: fractions, uneven magnitudes, huge bounds; menus 2, 3: values that differ in the fourth digit, bounds at a distance of 1e-3 and 1e-2)
static inline Space ball(const LP &b, int k, const std::string &name, int menu = 0) {
    Space s; s.name = name; s.base = b; s.k = k; const double I = PINF, w = menu == 2 ? 1e-3 : 1e-2;
    for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) { double v = b.a(i, j); if (menu == 0) { if (v != 0) s.coef(i, j, {v, 0, -v, 2 * v}); else s.coef(i, j, {0, 1, -1}); } else if (menu >= 2) { if (v != 0) s.coef(i, j, {v, v * 1.001}); } else { if (v != 0) s.coef(i, j, {v, v * 1.1, v / 3, v * 30, v / 30}); else s.coef(i, j, {0, 0.3, -1.7}); } }
    for (int i = 0; i < b.m; i++) { double l = b.lhs[i], r = b.rhs[i]; std::vector<Opt> o{{l, r}}; double f = std::isfinite(l) ? l : std::isfinite(r) ? r : 1;
        auto add = [&](double x, double y) { if (x > y) return; for (auto &q : o) if (q.first == x && q.second == y) return; o.push_back({x, y}); };
        if (menu == 0) { add(f, I); add(-I, f); add(f, f); add(f, f + 1); add(-I, I); } else if (menu >= 2) { add(f, f + 1e-3); add(f - 1e-3, f); add(l + 1e-3, r); add(l - 1e-3, r); add(l, r + 1e-3); add(l, r - 1e-3); } else { add(f + 0.1, I); add(-I, f - 0.1); add(f / 3, f / 3); add(f, f + 0.1); add(-3e7, f); add(f, 3e7); add(-3e7, 3e7); } s.sides(i, o); }
    for (int j = 0; j < b.n; j++) { double l = b.lb[j], u = b.ub[j]; std::vector<Opt> o{{l, u}}; double f = std::isfinite(l) ? l : std::isfinite(u) ? u : 0;
        auto add = [&](double x, double y) { if (x > y) return; for (auto &q : o) if (q.first == x && q.second == y) return; o.push_back({x, y}); };
        if (menu == 0) { add(f, I); add(-I, f); add(f, f + 1); add(-I, I); add(f, f); } else if (menu >= 2) { add(f, f + w); add(f - w, f); add(l + 1e-3, u); add(l - 1e-3, u); add(l, u + 1e-3); add(l, u - 1e-3); } else { add(f + 0.1, I); add(-I, f - 0.1); add(f, f + 0.1); add(f / 3, f / 3); add(-3e7, f); add(f, 3e7); add(-3e7, 3e7); } s.bnds(j, o); }
    for (int j = 0; j < b.n; j++) { double v = b.c[j]; if (menu == 0) { if (v != 0) s.cost(j, {v, 0, -v}); else s.cost(j, {0, 1, -1}); } else if (menu >= 2) { if (v != 0) s.cost(j, {v, v * 1.001}); else s.cost(j, {0, 1e-3}); } else { if (v != 0) s.cost(j, {v, v * 1.1, v / 3, -0.7 * v}); else s.cost(j, {0, 0.3, -0.3}); } }
    s.stgs = stg_main(); s.finish(); return s;
}
// block diagonal sums: K copies of one LP (rows and columns of the copies in turn, or block after block), and pairs of LPs, optionally linked
static inline LP copies(const LP &b, int K, bool interleave) {
    LP p; p.resize(b.m * K, b.n * K); auto R = [&](int t, int i) { return interleave ? i * K + t : t * b.m + i; }; auto C = [&](int t, int j) { return interleave ? j * K + t : t * b.n + j; };
    for (int t = 0; t < K; t++) { for (int i = 0; i < b.m; i++) { p.lhs[R(t, i)] = b.lhs[i]; p.rhs[R(t, i)] = b.rhs[i]; for (int j = 0; j < b.n; j++) if (b.a(i, j) != 0) p.a(R(t, i), C(t, j)) = b.a(i, j); } for (int j = 0; j < b.n; j++) { p.lb[C(t, j)] = b.lb[j]; p.ub[C(t, j)] = b.ub[j]; p.c[C(t, j)] = b.c[j]; } }
    p.off = 0; return p; }
static inline LP joined(const LP &a, const LP &b, int link) {       // rows and columns alternate as far as they last; link 1: x_a + x_b >= 0, 2: x_a - 2 x_b = 0 (last column of a, first of b)
    LP p; p.resize(a.m + b.m + (link != 0), a.n + b.n); std::vector<int> ra, rb, ca, cb; int k = 0; for (int i = 0; i < std::max(a.m, b.m); i++) { if (i < a.m) ra.push_back(k++); if (i < b.m) rb.push_back(k++); } k = 0; for (int j = 0; j < std::max(a.n, b.n); j++) { if (j < a.n) ca.push_back(k++); if (j < b.n) cb.push_back(k++); }
    auto put = [&](const LP &q, std::vector<int> &R, std::vector<int> &C) { for (int i = 0; i < q.m; i++) { p.lhs[R[i]] = q.lhs[i]; p.rhs[R[i]] = q.rhs[i]; for (int j = 0; j < q.n; j++) p.a(R[i], C[j]) = q.a(i, j); } for (int j = 0; j < q.n; j++) { p.lb[C[j]] = q.lb[j]; p.ub[C[j]] = q.ub[j]; p.c[C[j]] = q.c[j]; } };
    put(a, ra, ca); put(b, rb, cb); if (link) { int r = p.m - 1; p.a(r, ca.back()) = 1; p.a(r, cb[0]) = link == 1 ? 1 : -2; p.lhs[r] = 0; p.rhs[r] = link == 1 ? PINF : 0; } return p; }
// K copies of one LP connected to one large component: 0: one long row over the last columns, 1: a chain of doubleton equations, 2: one long column (cost 1) in the first rows,
// 3: a staircase of inequalities, 4: a long equation with alternating signs, 5: a long free column in the last rows, with a cost only elsewhere
static inline LP chained(const LP &b, int K, int kind) {
    LP c = copies(b, K, kind & 1), p; bool col = kind == 2 || kind == 5; int extra = col ? 0 : kind == 1 || kind == 3 ? K - 1 : 1; p.resize(c.m + extra, c.n + col);
    for (int i = 0; i < c.m; i++) { p.lhs[i] = c.lhs[i]; p.rhs[i] = c.rhs[i]; for (int j = 0; j < c.n; j++) if (c.a(i, j) != 0) p.a(i, j) = c.a(i, j); } for (int j = 0; j < c.n; j++) { p.lb[j] = c.lb[j]; p.ub[j] = c.ub[j]; p.c[j] = c.c[j]; } p.off = 0;
    auto C = [&](int t, int j) { return kind & 1 ? j * K + t : t * b.n + j; }; auto R = [&](int t, int i) { return kind & 1 ? i * K + t : t * b.m + i; };
    if (col) { p.lb[c.n] = kind == 2 ? 0 : -PINF; p.ub[c.n] = PINF; p.c[c.n] = kind == 2; for (int t = 0; t < K; t++) p.a(R(t, kind == 2 ? 0 : b.m - 1), c.n) = kind == 2 ? 1 : t % 2 ? -1 : 1; }
    else if (extra == 1) { for (int t = 0; t < K; t++) p.a(c.m, C(t, b.n - 1)) = kind == 0 ? 1 : t % 2 ? -1 : 1; p.lhs[c.m] = kind == 0 ? 1 : 0; p.rhs[c.m] = kind == 0 ? PINF : 0; }
    else for (int t = 0; t + 1 < K; t++) { int i = c.m + t; p.a(i, C(t, 0)) = 1; p.a(i, C(t + 1, 0)) = -1; p.lhs[i] = 0; p.rhs[i] = kind == 1 ? 0 : PINF; }
    return p; }
static inline std::vector<LP> load_bases(const char *path) { std::vector<LP> v; Tok T = tokenize(slurp(path)); LP p; Stg g; while (lp_parse(T, p, g)) v.push_back(p); return v; }
