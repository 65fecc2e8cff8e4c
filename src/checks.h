// The table of checks: what is enumerated for each property at each tier.
static std::vector<Space> pick(std::initializer_list<const char *> names) { std::vector<Space> v; for (auto n : names) for (auto &s : make_spaces(0)) if (s.name == n || (s.group == "nothing" && !strcmp(n, "full1x1"))) v.push_back(s); return v; }
static void add_balls(std::vector<Space> &v, const char *file, int k, std::vector<Stg> stgs = {}) { auto B = load_bases((here + "/bases/" + file).c_str()); for (size_t i = 0; i < B.size(); i++) { Space s = ball(B[i], k, std::string("ball") + std::to_string(k) + "-" + file + "-" + std::to_string(i)); s.group = std::string("ball") + std::to_string(k) + "-" + file; if (!stgs.empty()) s.stgs = stgs; v.push_back(s); } }
static Space one(const LP &p, const std::string &name, const std::string &group, std::vector<Stg> stgs) { Space s; s.name = name; s.group = group; s.base = p; s.k = 0; s.stgs = stgs; s.finish(); return s; }
static void add_copies(std::vector<Space> &v, const char *file, int K, std::vector<Stg> stgs, int cells = 1 << 30) { auto B = load_bases((here + "/bases/" + file).c_str()); for (size_t i = 0; i < B.size(); i++) for (int t = 0; t < 2; t++) if ((double) B[i].m * B[i].n * K * K <= cells) v.push_back(one(copies(B[i], K, t), std::to_string(K) + (t ? " interleaved" : "") + " copies of " + file + "-" + std::to_string(i), std::to_string(K) + "x-" + file, stgs)); }
static void add_pairs(std::vector<Space> &v, const char *f, const char *g, int link, std::vector<Stg> stgs, int step = 1) { auto A = load_bases((here + "/bases/" + f).c_str()), B = load_bases((here + "/bases/" + g).c_str()); for (size_t i = 0; i < A.size(); i += step) for (size_t j = 0; j < B.size(); j += step) { if (link && (A[i].n == 0 || B[j].n == 0)) continue; v.push_back(one(joined(A[i], B[j], link), std::string(f) + "-" + std::to_string(i) + "+" + g + "-" + std::to_string(j) + " link " + std::to_string(link), std::string("pairs") + std::to_string(link) + "-" + f + "-" + g, stgs)); } }
static void add_chains(std::vector<Space> &v, const char *file, int K, std::vector<Stg> stgs, int step = 1) { auto B = load_bases((here + "/bases/" + file).c_str()); for (size_t i = 0; i < B.size(); i += step) for (int t = 0; t < 6; t++) if (B[i].n && B[i].m) v.push_back(one(chained(B[i], K, t), std::to_string(K) + " copies of " + file + "-" + std::to_string(i) + " connected by " + std::to_string(t), "chain" + std::to_string(K) + "-" + file, stgs)); }
static std::vector<Stg> few() { return {mk(0xff), mk(0xfe), mk(0xfd), mk(0xef), mk(0xbf), mk(S_STON | S_DTON), mk(S_PROP), mk(0)}; }
// elimination of doubletons with fill-in: how much may be moved to make room
static std::vector<Stg> fill_set() { return {mk(0xff), mk(0xff, 1000), mk(S_DTON, 1000), mk(S_DTON, 16), mk(S_DTON, 12), mk(S_DTON | S_STON, 1000), mk(0xfe, 1000), mk(0xaf, 1000), mk(0xbf, 9)}; }
static std::vector<Stg> four() { return {mk(0xff), mk(0xfe), mk(0xfd), mk(0xef)}; }
static std::vector<Stg> two() { return {mk(0xff), mk(0xfd)}; }
// the same shapes with fractions, uneven magnitudes and huge bounds; many copies of one LP (work lists outgrow their first capacity); pairs of LPs, separate or linked by a row
static void add_values(std::vector<Space> &v, const char *file, int k, std::vector<Stg> stgs = {}, int step = 1, int menu = 1) { auto B = load_bases((here + "/bases/" + file).c_str()); std::string g = (menu == 1 ? "values" : "close") + std::to_string(k) + "-" + file; for (size_t i = 0; i < B.size(); i += step) { Space s = ball(B[i], k, g + "-" + std::to_string(i), menu); s.group = g; if (!stgs.empty()) s.stgs = stgs; v.push_back(s); } }
static void add_crossed(std::vector<Space> &v, const char *file, std::vector<Stg> stgs = {}) { auto B = load_bases((here + "/bases/" + file).c_str()); for (size_t i = 0; i < B.size(); i++) { Space s = crossed(B[i], std::string("crossed-") + file + "-" + std::to_string(i)); s.group = std::string("crossed-") + file; if (!stgs.empty()) s.stgs = stgs; v.push_back(s); } }
static std::vector<Space> sp_main0(int tier, bool merged) { auto v = pick({"full1x1", "full1x2", "full1x3", "full2x2", "fractions2x2"}); add_balls(v, "tests.lp", 1); add_balls(v, "rich.lp", 1); add_balls(v, "fill.lp", 1, fill_set());
    add_values(v, "tests.lp", 1); add_values(v, "rich.lp", 1, few()); add_values(v, "fill.lp", 1, fill_set()); add_values(v, "rich.lp", 1, four(), 1, 3); add_values(v, "tests.lp", 2, two(), 1, 2); add_copies(v, "tests.lp", 60, few()); add_copies(v, "rich.lp", 60, four()); add_copies(v, "fill.lp", 60, fill_set()); add_copies(v, "tests.lp", 350, two(), 4000000); 
    for (int l = 0; l < 3; l++) { add_pairs(v, "tests.lp", "tests.lp", l, few()); add_pairs(v, "tests.lp", "rich.lp", l, two()); }
    for (auto &s : make_hash_spaces()) v.push_back(s); for (auto &s : make_long_spaces()) v.push_back(s); for (auto &s : make_scale_spaces(merged)) v.push_back(s);
    add_chains(v, "tests.lp", 4, few()); add_chains(v, "tests.lp", 40, few()); add_chains(v, "rich.lp", 3, two()); add_chains(v, "rich.lp", 16, two()); add_chains(v, "fill.lp", 12, fill_set());
    add_crossed(v, "tests.lp"); add_crossed(v, "rich.lp", few()); add_crossed(v, "fill.lp", fill_set());
    if (tier) { for (auto &s : pick({"full3x2", "full2x3"})) v.push_back(s); add_balls(v, "tests.lp", 2); add_values(v, "tests.lp", 2, few()); add_pairs(v, "rich.lp", "rich.lp", 1, {mk(0xff)}); } return v; }
static std::vector<Space> sp_main(int tier) { return sp_main0(tier, false); }
static std::vector<Space> sp_primal(int tier) { return sp_main0(tier, true); }
// for checks that make many or slow executions of every LP
static void add_more(std::vector<Space> &v, int tier) { add_balls(v, "fill.lp", 1, fill_set()); add_values(v, "tests.lp", 1, two()); if (tier) add_values(v, "rich.lp", 1, two()); add_copies(v, "tests.lp", 60, two()); if (tier) add_copies(v, "rich.lp", 60, two()); for (int l = 0; l < 3; l++) add_pairs(v, "tests.lp", "tests.lp", l, {mk(0xff)}, tier ? 1 : 3); }
static std::vector<Space> sp_medium(int tier) { auto v = pick({"full1x1", "full1x2"}); add_balls(v, "tests.lp", 1); add_balls(v, "rich.lp", 1); if (tier) { for (auto &s : pick({"full2x2"})) v.push_back(s); } for (auto &s : v) s.stgs = few(); add_more(v, tier); return v; }
static std::vector<Space> sp_small(int tier) { auto v = pick({"full1x1", "full1x2"}); add_balls(v, "tests.lp", 1); add_balls(v, "core.lp", 1); add_crossed(v, "tests.lp"); if (tier) { for (auto &s : pick({"full2x2"})) v.push_back(s); } for (auto &s : v) s.stgs = few(); add_more(v, tier); return v; }
static std::vector<Space> sp_tiny(int tier) { auto v = pick({"full1x1"}); add_balls(v, "tests.lp", tier ? 1 : 0); for (auto &s : v) s.stgs = {mk(0xff)}; v.push_back(large_space({mk(0xff)})); return v; }
// not part of the manifest: used by tools/mutate.py to sort mutants quickly
static std::vector<Space> sp_mut(int) { auto v = pick({"full1x1"}); add_balls(v, "tests.lp", 1); add_balls(v, "rich.lp", 0); for (auto &s : v) s.stgs = {mk(0xff), mk(0x7f), mk(0xfe), mk(0xfd), mk(0xef)}; return v; }
static std::vector<Space> sp_mut2(int) { auto v = pick({"full1x2"}); for (auto &s : v) s.stgs = four(); std::vector<Stg> f3 = {mk(0xff), mk(0xff, 1000), mk(S_DTON | S_STON, 1000)};
    add_balls(v, "rich.lp", 1, two()); add_balls(v, "fill.lp", 1, f3); add_values(v, "tests.lp", 1, two()); add_values(v, "fill.lp", 1, f3); add_copies(v, "tests.lp", 60, {mk(0xff)}); add_copies(v, "fill.lp", 60, {mk(0xff, 1000)}); for (int l = 0; l < 3; l++) add_pairs(v, "tests.lp", "tests.lp", l, {mk(0xff)}); return v; }
static std::vector<Space> sp_mut3(int) { auto v = pick({"full1x1"}); add_balls(v, "tests.lp", 1, two()); add_balls(v, "core.lp", 0, four()); add_balls(v, "fill.lp", 0, fill_set()); add_copies(v, "tests.lp", 60, {mk(0xff)}); return v; }
static std::vector<Space> sp_mut4(int) { std::vector<Space> v; add_balls(v, "tests.lp", 0, {mk(0xff)}); v.resize(4); return v; }
#ifdef RACE
// every LP in two executions with race detection; a part of the bases with every single preemption, few with every pair
static std::vector<Space> sp_race(int tier, bool two) { auto v = pick({"full1x1"}); if (!two || tier) for (auto &s : pick({"full1x2"})) v.push_back(s); add_balls(v, "tests.lp", !two || tier ? 1 : 0); add_balls(v, two ? "rich.lp" : "core.lp", !two || tier ? 1 : 0); 
    size_t k = v.size(); add_balls(v, "tests.lp", 0); for (; k < v.size(); k++) { v[k].depth = 1; v[k].group += "-preempted"; }
    auto B = load_bases((here + "/bases/core.lp").c_str()); for (size_t i = 0; i < B.size() && i < (size_t) (two ? (tier ? 8 : 0) : (tier ? 24 : 4)); i++) { Space s = ball(B[i], 0, "core.lp-" + std::to_string(i)); s.depth = 2; s.group = "ball0-core.lp-preempted-twice"; v.push_back(s); }
    for (auto &s : v) s.stgs = two && !s.depth ? std::vector<Stg>{mk(0xff), mk(0xfd)} : std::vector<Stg>{mk(0xff)}; return v; }
#endif
static std::vector<Check> checks() { return {
#ifdef RACE
    {"C10", "model_checking", "every LP of the spaces, both extreme thread orders with race detection at every access; every preemption (pairs of preemptions) on the test bases", [](Ctx &C, const Stg &g) { run_c10(C, g, g_depth); }, [](int t) { return sp_race(t, false); }},
    {"C11", "model_checking", "pairs of instances in two threads, race detection at every access; every preemption at shared memory on the test bases", [](Ctx &C, const Stg &g) { run_c11(C, g, g_depth); }, [](int t) { return sp_race(t, true); }},
#endif
    {"C01", "model_checking", "every LP of the spaces under every listed setting: verdicts against exhaustive basis enumeration", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C01); }, sp_primal},
    {"C02", "model_checking", "every LP of the spaces under every listed setting: reduced LP against the original, both by enumeration of bases", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C02); }, sp_primal},
    {"C03", "model_checking", "every LP of the spaces under every listed setting: every optimal vertex, ray point and centroid of the reduced LP is postsolved, feasibility and optimality of x", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C03); }, sp_primal},
    {"C04", "model_checking", "every LP of the spaces under every listed setting: every pair of optimal primal and dual vertices of the reduced LP is postsolved, certificate conditions", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C04); }, sp_main},
    {"C05", "model_checking", "every LP of the spaces under every listed setting: structure of the reduced LP, statistics, verdict", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C05); }, sp_primal},
    {"C15", "model_checking", "every LP of the spaces under every listed setting: no trivial row or column is left", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C15); }, sp_primal},
    {"MUT0", "model_checking", "", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C01 | P_C02 | P_C03 | P_C04 | P_C05 | P_C15); }, sp_mut},
    {"MUT1", "model_checking", "", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C01 | P_C02 | P_C03 | P_C04 | P_C05 | P_C15); }, sp_main},
    {"MUT2", "model_checking", "", [](Ctx &C, const Stg &g) { run_basic(C, g, P_C01 | P_C02 | P_C03 | P_C04 | P_C05 | P_C15); }, sp_mut2}, {"MUT7", "model_checking", "", run_c07, sp_mut3}, {"MUT8", "model_checking", "", run_c08, sp_mut3}, {"MUT9", "fault_enumeration", "", run_c09, sp_mut4}, {"MUT17", "model_checking", "", run_c17, sp_mut3}, {"MUT18", "model_checking", "", run_c18, sp_mut3},
#if !defined SANITIZED && !defined ONLY_REL
    {"MUT14", "model_checking", "", run_c14, sp_mut3},
#endif
    {"C06", "model_checking", "every LP of the spaces with the caller's data in protected pages", run_c06, sp_medium},
    {"C07", "model_checking", "every LP of the spaces in every environment of the list (heap contents and placement, threads, earlier instances, clock, slow step at every reading), bitwise comparison", run_c07, sp_medium},
    {"C08", "model_checking", "every LP of the spaces in every API history of the list, sanitizers and instrumented heap", run_c08, sp_small},
    {"C09", "fault_enumeration", "every refused request, every suffix and every pair of refusals during construction", run_c09, sp_tiny},
    {"C12", "model_checking", "every LP of the spaces, every sequence of at most three postsolve operations", run_c12, sp_small},
    {"C13", "model_checking", "every LP of the spaces, the clock passes the limit at every reading", run_c13, sp_small},
#if !defined SANITIZED && !defined ONLY_REL
    {"C14", "model_checking", "every LP of the spaces under every listed setting in the development build and the production build", run_c14, sp_main},
#endif
    {"C17", "model_checking", "every LP of the spaces under every listed setting, every optimal pair with every coordinate perturbed", run_c17, sp_main},
    {"C18", "model_checking", "every LP of the spaces under every setting that should leave it alone, against an executable model of the clean-up; all states of the settings helpers", run_c18, sp_medium},
    {"C19", "model_checking", "every LP of the spaces with messages on and off at every clock speed", run_c19, sp_medium},
    {"C20", "model_checking", "every LP of the spaces under every listed setting, every vertex and ray point of the reduced feasible set with four choices of multipliers", run_c20, sp_primal},
}; }
