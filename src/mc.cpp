// The explorer: enumerates a property's spaces on the real code, replays and reports violations, writes the evidence.
#include "c18.h"
#ifdef RACE
#include "race.h"
#endif
#include "simplex.h"
#include "spacelist.h"
#include <spawn.h>
#ifdef SANITIZED
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=98:allocator_may_return_null=1:handle_abort=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99"; }
#endif
static std::string here = "/verif", self; static int g_depth = 0;   // preemptions (C10, C11)
struct Check { const char *id, *level, *what; std::function<void(Ctx &, const Stg &)> run; std::function<std::vector<Space>(int tier)> spaces; };
#include "checks.h"
static const Check *find_check(const std::string &id) { for (auto &c : checks()) if (id == c.id) return new Check(c); return nullptr; }

static std::string case_text(const std::string &id, const Var &var, const LP &p, const Stg &g) { std::string s = "property " + id + "\nvariant " + std::to_string(var.size()); for (long v : var) s += " " + std::to_string(v); return s + "\n" + lp_text(p, g); }
static int replay(const char *path, bool quiet) {
    Tok T = tokenize(slurp(path)); if (T.next() != "property") return 2; only_prop = T.next(); if (T.next() != "variant") return 2; Var v(atoi(T.next().c_str())); for (auto &x : v) x = atol(T.next().c_str());
    LP p; Stg g; if (!lp_parse(T, p, g)) return 2; const Check *c = find_check(only_prop); if (!c) return 2;
    Shared dummy; memset((void *) &dummy, 0, sizeof dummy); sh = &dummy; g_only = &v; loud = !quiet; Ctx C; C.lp = &p; c->run(C, g);
    if (!quiet) printf("original problem %s %.9g\n", on(orig(C).st), orig(C).val);
    for (auto &x : viols) printf("REPLAY %s: %s\n", only_prop.c_str(), x.msg.c_str());
    fflush(stdout); _exit(viols.empty() ? 0 : 1);
}
// runs the replay in a fresh process; true if the violation shows again
static bool confirm(const std::string &file, int limit, std::string &msg) {
    fflush(stdout); int fd[2]; if (pipe(fd)) return true; pid_t pid = fork();
    if (pid == 0) { dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); alarm(limit); execl(self.c_str(), self.c_str(), "--replay", file.c_str(), "--quiet", (char *) nullptr); _exit(127); }
    close(fd[1]); std::string out; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) if (out.size() < 100000) out.append(b, k); close(fd[0]); int st; waitpid(pid, &st, 0);
    size_t q = out.find("REPLAY "); if (q != std::string::npos) { q = out.find(": ", q); msg = out.substr(q + 2, out.find('\n', q) - q - 2); }
    if (WIFEXITED(st)) { if (WEXITSTATUS(st) == 0) return false; if (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 127) { fprintf(stderr, "replay of %s failed\n%s", file.c_str(), out.c_str()); return false; } return true; }
    return true; }
static void esc(std::string &o, const std::string &s) { o += '"'; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } o += '"'; }

int main(int argc, char **argv) {
    std::string id, tier = "quick", evid, only; const char *rep = nullptr; bool quiet = false, list = false; double limit = 0; char *sp = nullptr;
    { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) self.assign(b, k); }
    if ((sp = getenv("VERIF_HOME"))) here = sp;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--replay") rep = argv[++i]; else if (a == "--quiet") quiet = true; else if (a == "--check") id = argv[++i]; else if (a == "--tier") tier = argv[++i]; else if (a == "--evidence") evid = argv[++i];
        else if (a == "--space") only = argv[++i]; else if (a == "--list") list = true; else if (a == "--workers") g_workers = atoi(argv[++i]); else if (a == "--limit") limit = atof(argv[++i]); else if (a == "--max") g_maxviol = atoi(argv[++i]); }
    env_init(); others = load_bases((here + "/bases/others.lp").c_str());
    if (rep) return replay(rep, quiet);
    const Check *c = find_check(id); if (!c) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
    only_prop = id; double t0 = wall(); g_deadline = limit > 0 ? t0 + limit : 0;
    std::vector<Space> spaces = c->spaces(tier == "thorough"); uint64_t tot[N_COUNTERS] = {0}; std::vector<Candidate> cands; std::string per, samples; int nsamp = 0; uint64_t cases = 0;
    for (size_t si = 0; si < spaces.size();) {
        // spaces of one group are enumerated together
        size_t se = si + 1; if (!spaces[si].group.empty()) while (se < spaces.size() && spaces[se].group == spaces[si].group) se++;
        std::vector<Space *> U; std::vector<uint64_t> base{0}; for (size_t k = si; k < se; k++) { U.push_back(&spaces[k]); base.push_back(base.back() + spaces[k].count); } std::string name = se - si > 1 || !U[0]->group.empty() ? U[0]->group : U[0]->name; si = se;
        if (!only.empty() && name.find(only) == std::string::npos) continue;
        if (list) { printf("%s: %lu LPs x %zu settings, %zu families\n", name.c_str(), base.back(), U[0]->stgs.size(), U.size()); continue; }
        static LP p; static Ctx *C; static Space *cur; Domain D; D.name = name; D.items = base.back(); for (auto *S : U) D.subs = std::max(D.subs, (int) S->stgs.size()); D.chunk = std::max<uint64_t>(1, std::min<uint64_t>(32, D.items / 400));
        D.open = [&](uint64_t x) { size_t k = std::upper_bound(base.begin(), base.end(), x) - base.begin() - 1; cur = U[k]; if (!cur->decode(x - base[k], p)) return false; delete C; C = new Ctx; C->lp = &p; return true; };
        D.run = [&](uint64_t, int g) { g_depth = cur->depth; if (g < (int) cur->stgs.size()) c->run(*C, cur->stgs[g]); };
        D.text = [&](uint64_t x, int g, const Var &v) { return "# " + id + " space " + cur->name + " item " + std::to_string(x) + "\n" + case_text(id, v, p, cur->stgs[g]); };
        double s0 = wall(); uint64_t before[N_COUNTERS]; memcpy(before, tot, sizeof tot); enumerate(D, tot, cands, stderr);
        if (getenv("MC_VERBOSE")) { fprintf(stderr, "%-28s %8.1f s", name.c_str(), wall() - s0); for (int k = 0; k < N_COUNTERS; k++) if (tot[k] - before[k]) fprintf(stderr, " %s=%lu", counter_names[k], tot[k] - before[k]); fprintf(stderr, "\n"); }
        per += (per.empty() ? "" : ", "); esc(per, name + (U.size() > 1 ? " (" + std::to_string(U.size()) + " families)" : "") + ": " + std::to_string(tot[N_ITEMS] - before[N_ITEMS]) + " LPs x " + std::to_string(D.subs) + " settings");
        if (nsamp < 3) for (uint64_t x = D.items / 2; x < D.items; x++) if (D.open(x)) { std::string t = D.text(x, 0, {}); if (t.size() < 4000) { samples += (nsamp++ ? ", " : ""); esc(samples, t); } break; }
        if ((int) cands.size() >= g_maxviol || g_capped) break;
    }
    if (list) return 0;
    // replay before report
    std::vector<std::pair<std::string, std::string>> confirmed; int unconf = 0; std::map<std::string, int> kinds;
    for (size_t k = 0; k < cands.size() && confirmed.size() < 6; k++) {
        std::string dir = here + "/replay"; mkdir(dir.c_str(), 0777); std::string f = dir + "/" + id + "-" + std::to_string(confirmed.size() + 1) + ".lp"; FILE *o = fopen(f.c_str(), "w"); if (!o) { fprintf(stderr, "cannot write %s\n", f.c_str()); return 2; } fprintf(o, "%s", cands[k].text.c_str()); fclose(o);
        std::string m = cands[k].msg; if (confirm(f, cands[k].hang ? 60 : 60, m)) confirmed.push_back({f, m.empty() ? cands[k].msg : m}); else { unconf++; remove(f.c_str()); fprintf(stderr, "not reproducible alone: %s\n%s", cands[k].msg.c_str(), cands[k].text.c_str()); }
    }
    for (auto &v : confirmed) { printf("VIOLATION property=%s replay=%s\n  %s\n", id.c_str(), v.first.c_str(), v.second.c_str()); }
    if (!evid.empty()) {
        FILE *o = fopen(evid.c_str(), "w"); if (!o) { fprintf(stderr, "cannot write %s\n", evid.c_str()); return 2; } const char *seed = getenv("VERIF_SEED"); bool fe = !strcmp(c->level, "fault_enumeration");
        fprintf(o, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"%s\", \"coverage\": {", id.c_str(), tier.c_str(), seed ? atoi(seed) : 1, c->level);
        if (fe) fprintf(o, "\"evaluations\": %lu, \"distinct_nontrivial\": %lu, \"rule\": \"one case = one LP, one setting and one set of refused requests; non-trivial when construction was refused because of it\", ", tot[N_FAULTS], tot[N_NULL]);
        else fprintf(o, "\"states\": %lu, \"transitions\": %lu, \"traces_validated_against_impl\": %lu, ", tot[N_STATES], tot[N_TRANS], std::max(tot[N_RUNS], tot[N_SCHED]));
        std::string what; esc(what, c->what); fprintf(o, "\"exhaustive\": %s, \"explored\": %s, \"spaces\": [%s], \"counts\": {", (g_capped || (int) cands.size() >= g_maxviol) ? "false" : "true", what.c_str(), per.c_str()); bool first = true;
        for (int k = 0; k < N_COUNTERS; k++) if (tot[k]) { fprintf(o, "%s\"%s\": %lu", first ? "" : ", ", counter_names[k], tot[k]); first = false; }
        fprintf(o, "}, \"samples\": [%s], \"candidates_not_reproduced\": %d}, \"wall_s\": %.2f, \"violations\": %zu}\n", samples.c_str(), unconf, wall() - t0, confirmed.size()); fclose(o);
    }
    printf("%s %s: %lu LPs, %lu presolve runs, %lu states, %lu transitions, %.1f s%s\n", id.c_str(), confirmed.empty() ? "holds" : "BROKEN", tot[N_ITEMS], tot[N_RUNS], tot[N_STATES], tot[N_TRANS], wall() - t0, g_capped ? " (time limit reached, not exhaustive)" : "");
    return confirmed.empty() ? 0 : 1;
}
