// Parallel exhaustive enumeration with crash and hang containment.
// A case = (item index, sub index, variant).  Workers are forked processes; a worker that dies or stops
// making progress turns the case it was working on into a violation and is replaced.
#pragma once
#ifdef COV
extern "C" void __gcov_dump();      // tools/coverage.sh
#endif
#include <atomic>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <algorithm>
#include "env.h"

enum Counter { N_ITEMS, N_SKIP, N_RUNS, N_REDUCED, N_UNCHANGED, N_INFEAS, N_UNBND, N_POST, N_UNKNOWN, N_CALLS, N_PERTURB, N_FAULTS, N_STATES, N_TRANS, N_COMPARE, N_NULL, N_SCHED, N_EVENTS, N_EXTRA1, N_EXTRA2, N_EXTRA3, N_COUNTERS };
static const char *counter_names[] = {"lps", "symmetric_lps_skipped", "presolve_runs", "runs_reduced", "runs_unchanged", "runs_infeasible", "runs_infeasible_or_unbounded", "postsolves", "oracle_undecided", "api_calls", "perturbed_solutions", "faults_injected", "states", "transitions", "comparisons", "constructions_refused", "schedules", "events", "extra1", "extra2", "extra3"};
static const int VARMAX = 24;
struct Shared {
    volatile uint64_t chunk, item, sub, beat; volatile int busy, nvar; volatile long var[VARMAX];
    uint64_t cnt[N_COUNTERS];
};
struct Global { std::atomic<uint64_t> next; std::atomic<int> stop; std::atomic<uint64_t> nviol; };
static Shared *sh; static Global *gl;
static inline void cnt(Counter c, uint64_t k = 1) { sh->cnt[c] += k; }

struct Viol { std::string msg; std::vector<long> var; };
static std::vector<Viol> viols; static std::vector<long> cur_var;
static std::string only_prop;                         // the property being checked
static void set_variant(std::vector<long> v) { cur_var = v; sh->nvar = (int) v.size(); for (size_t i = 0; i < v.size() && i < VARMAX; i++) sh->var[i] = v[i]; }
static void V(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); for (char *q = b; *q; q++) if (*q == '\n' || *q == '\t') *q = ' '; viols.push_back({b, cur_var}); }

struct Candidate { std::string msg, text; bool hang = false; };
struct Domain {                                        // one space to enumerate
    std::string name; uint64_t items = 0; int subs = 1;
    std::function<bool(uint64_t)> open;                // prepares item; false = skipped
    std::function<void(uint64_t, int)> run;            // runs (item, sub); reports with V
    std::function<std::string(uint64_t, int, const std::vector<long> &)> text;   // replay text
    uint64_t chunk = 32;
};
static int g_workers = 8; static double g_deadline = 0; static int g_maxviol = 12; static double g_hang = 15; static bool g_capped = false;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }

static void worker_body(Domain &D, int wfd, bool resume) {
    FILE *out = fdopen(wfd, "w"); uint64_t lim = D.items; std::map<std::string, int> shown;
    auto flush_viols = [&](uint64_t x, int g) {
        for (auto &v : viols) { std::string key; for (char ch : v.msg) if (isalpha((unsigned char) ch) || ch == ' ') key += ch; 
            if (shown[key]++ < 2) { std::string t = D.text(x, g, v.var); fprintf(out, "%zu %zu\n%s%s", v.msg.size(), t.size(), v.msg.c_str(), t.c_str()); fflush(out); gl->nviol++; } else if (shown[key] > 2000) gl->nviol++; }
        viols.clear(); };
    uint64_t b, x; int g0 = 0;
    if (resume) { b = sh->chunk; x = sh->item; g0 = (int) sh->sub + 1; } else { b = gl->next.fetch_add(D.chunk); x = b; }
    for (;;) {
        if (b >= lim || gl->stop) break; sh->chunk = b;
        for (; x < b + D.chunk && x < lim; x++) {
            sh->item = x; sh->sub = 0; sh->beat++; if (!resume || g0 == 0) {} 
            bool ok = D.open(x); if (!ok) { if (!g0) cnt(N_SKIP); g0 = 0; continue; } if (!g0) cnt(N_ITEMS);
            for (int g = g0; g < D.subs; g++) { sh->sub = (uint64_t) g; sh->beat++; sh->busy = 1; sh->nvar = 0; cur_var.clear(); viols.clear(); D.run(x, g); sh->busy = 0; if (!viols.empty()) flush_viols(x, g); }
            g0 = 0; if (gl->stop || (int) gl->nviol.load() >= g_maxviol) goto out;
        }
        b = gl->next.fetch_add(D.chunk); x = b;
    }
out:
    fclose(out);
#ifdef COV
    __gcov_dump();
#endif
    _exit(0);
}
static void silence() { int dn = open("/dev/null", 1); dup2(dn, 1); }
// enumerates the domain completely (unless the deadline strikes or enough violations are found)
static void enumerate(Domain &D, uint64_t totals[N_COUNTERS], std::vector<Candidate> &cands, FILE *log) {
    int nw = g_workers; Shared *shs = (Shared *) mmap(0, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!gl) gl = (Global *) mmap(0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gl->next = 0; gl->stop = 0; gl->nviol = cands.size(); memset((void *) shs, 0, sizeof(Shared) * nw);
    struct W { pid_t pid = 0; int fd = -1; std::string buf; uint64_t beat = 0; double since = 0; bool done = false; std::string err; int efd = -1; };
    std::vector<W> ws(nw); int alive = 0, deaths = 0;
    auto spawn = [&](int w, bool resume) { int fd[2], ef[2]; if (pipe(fd) || pipe(ef)) exit(2); fflush(stdout); fflush(log); pid_t pid = fork();
        if (pid == 0) { close(fd[0]); close(ef[0]); dup2(ef[1], 2); close(ef[1]); silence(); sh = &shs[w]; worker_body(D, fd[1], resume); }
        close(fd[1]); close(ef[1]); ws[w].pid = pid; ws[w].fd = fd[0]; ws[w].efd = ef[0]; ws[w].beat = shs[w].beat; ws[w].since = wall(); ws[w].done = false; alive++; };
    for (int w = 0; w < nw; w++) spawn(w, false);
    auto parse = [&](std::string &b) { for (;;) { size_t e = b.find('\n'); if (e == std::string::npos) return; size_t a, c; if (sscanf(b.c_str(), "%zu %zu", &a, &c) != 2) { b.clear(); return; } if (b.size() < e + 1 + a + c) return; cands.push_back({b.substr(e + 1, a), b.substr(e + 1 + a, c)}); b.erase(0, e + 1 + a + c); } };
    while (alive) {
        std::vector<pollfd> pf; std::vector<int> id; for (int w = 0; w < nw; w++) if (!ws[w].done) { pf.push_back({ws[w].fd, POLLIN, 0}); id.push_back(w); pf.push_back({ws[w].efd, POLLIN, 0}); id.push_back(w + 1000); }
        poll(pf.data(), pf.size(), 200); double now = wall();
        for (size_t k = 0; k < pf.size(); k++) { if (!(pf[k].revents & (POLLIN | POLLHUP | POLLERR))) continue; int w = id[k] % 1000; char b[65536]; ssize_t r = read(pf[k].fd, b, sizeof b);
            if (id[k] >= 1000) { if (r > 0 && ws[w].err.size() < 20000) ws[w].err.append(b, r); if (r <= 0) { } continue; }
            if (r > 0) { ws[w].buf.append(b, r); parse(ws[w].buf); continue; }
            int st; ssize_t q; while ((q = read(ws[w].efd, b, sizeof b)) > 0) if (ws[w].err.size() < 20000) ws[w].err.append(b, q);
            waitpid(ws[w].pid, &st, 0); close(ws[w].fd); close(ws[w].efd); ws[w].done = true; alive--; ws[w].buf.clear();
            if (st != 0) { Shared &S = shs[w]; deaths++; char m[300]; bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                std::string why; size_t p = ws[w].err.find("SUMMARY:"); if (p == std::string::npos) p = ws[w].err.find("runtime error:"); if (p == std::string::npos) p = ws[w].err.find("assertion failed"); if (p != std::string::npos) why = ws[w].err.substr(p, std::min<size_t>(200, ws[w].err.find('\n', p) - p));
                if (hang) snprintf(m, sizeof m, "does not return within %.0f s", g_hang); else if (WIFSIGNALED(st)) snprintf(m, sizeof m, "crashes with signal %d %s", WTERMSIG(st), why.c_str()); else snprintf(m, sizeof m, "ends the process with status %d %s", WEXITSTATUS(st), why.c_str());
                std::vector<long> var(S.var, S.var + std::min<int>((int) S.nvar, VARMAX)); sh = &S; if (D.open(S.item)) cands.push_back({m, D.text(S.item, (int) S.sub, var), hang}); gl->nviol++;
                if (deaths < 8 && (int) gl->nviol.load() < g_maxviol) spawn(w, true); else gl->stop = 1; ws[w].err.clear(); } }
        for (int w = 0; w < nw; w++) if (!ws[w].done) { if (shs[w].beat != ws[w].beat) { ws[w].beat = shs[w].beat; ws[w].since = now; } else if (now - ws[w].since > g_hang) { kill(ws[w].pid, SIGKILL); ws[w].since = now + 1e9; } }
        if (g_deadline > 0 && now > g_deadline && !gl->stop) { gl->stop = 1; g_capped = true; }
    }
    for (int w = 0; w < nw; w++) for (int c = 0; c < N_COUNTERS; c++) totals[c] += shs[w].cnt[c];
    munmap(shs, sizeof(Shared) * nw);
}
