// simrun: generates, executes, replays and minimises simulated runs.
#include "runner.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include <csignal>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

namespace vp {
static double wall() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
std::string to_text(const Case& c) {
    std::string o = "simcase 1\nproperty " + c.property + fmt("\nseed %llu\n", (unsigned long long)c.seed);
    for (auto& p : c.par) o += fmt("par %s %.17g\n", p.first.c_str(), p.second);
    for (auto& s : c.s) o += "scenario\n" + to_text(s) + "end-scenario\n";
    return o;
}
bool from_text(const std::string& t, Case* c) {
    *c = Case();
    std::istringstream in(t);
    std::string        l, sc;
    bool               ok = false, inside = false;
    while (std::getline(in, l)) {
        if (l == "scenario") { inside = true; sc.clear(); continue; }
        if (l == "end-scenario") { inside = false; Scenario s; if (from_text(sc, &s)) c->s.push_back(s); continue; }
        if (inside) { sc += l + "\n"; continue; }
        std::istringstream is(l);
        std::string        k, n, v;
        is >> k;
        if (k == "simcase") ok = true;
        else if (k == "property") is >> c->property;
        else if (k == "seed") { unsigned long long a; is >> a; c->seed = a; }
        else if (k == "par") { is >> n >> v; c->par[n] = strtod(v.c_str(), nullptr); }
    }
    return ok;
}

/*****************************************************************************/
static void empty_dir(const std::string& d) {
    if (d.size() < 6 || d.find("/vpsim.") == std::string::npos) return;   // only our own scratch directories
    DIR* p = opendir(d.c_str());
    if (!p) return;
    while (auto* e = readdir(p)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string f = d + "/" + e->d_name;
        if (unlink(f.c_str()) != 0 && errno == EISDIR) { empty_dir(f); rmdir(f.c_str()); }
    }
    closedir(p);
}

static std::string slurp(int fd) {
    std::string o;
    char b[65536];
    for (;;) {
        ssize_t n = ::read(fd, b, sizeof b);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        o.append(b, n);
    }
    return o;
}
static void limits() {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    alarm(240);
}
static std::string run_child(const Scenario& s, const std::string& dir, int* status) {
    int p[2];
    if (pipe(p) != 0) { *status = -1; return ""; }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        limits();
        if (chdir(dir.c_str()) != 0) _exit(98);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("SIM_STDERR")) dup2(n, 2);
        else dup2(2, 1);
        sim::set_fresh_heap(true);
        static Record r;
        target_run(s, &r);
        std::string t = to_text(r);
        size_t o = 0;
        while (o < t.size()) {
            ssize_t w = ::write(p[1], t.data() + o, t.size() - o);
            if (w <= 0) break;
            o += w;
        }
        close(p[1]);
        _exit(0);
    }
    close(p[1]);
    std::string t = slurp(p[0]);
    close(p[0]);
    while (waitpid(pid, status, 0) < 0 && errno == EINTR) {}
    return t;
}
static std::string run_other(const std::string& exe, const Scenario& s, const std::string& dir, int* status) {
    std::string f = dir + ".scn";
    { std::ofstream o(f); o << to_text(s); }
    int p[2];
    if (pipe(p) != 0) { *status = -1; return ""; }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        dup2(p[1], 3);
        execl(exe.c_str(), exe.c_str(), "leg", f.c_str(), dir.c_str(), (char*)nullptr);
        _exit(98);
    }
    close(p[1]);
    std::string t = slurp(p[0]);
    close(p[0]);
    while (waitpid(pid, status, 0) < 0 && errno == EINTR) {}
    unlink(f.c_str());
    return t;
}

Record Ctx::run(const std::string& name, const Scenario& s, char flavor) {
    char me = target_flavor()[0];
    if (!flavor) flavor = s.path == "app" ? 'A' : me == 'A' ? 'F' : me;
    legno++;
    trace.push_back({name + fmt(" flavor=%c", flavor), to_text(s)});
    std::string dir = scratch + fmt("/vpsim.%d", (int)getpid());
    mkdir(dir.c_str(), 0700);
    empty_dir(dir);
    int         st = 0;
    std::string t;
    if (flavor == me) t = run_child(s, dir, &st);
    else {
        std::string exe = self;
        size_t q = exe.rfind('-');
        exe = exe.substr(0, q + 1) + flavor;
        t = run_other(exe, s, dir, &st);
    }
    Record r;
    bool   complete = from_text(t, &r);
    if (!complete) {
        r = Record();
        if (s.par.count("crash")) {   // what a dead process leaves behind
            if (DIR* p = opendir(dir.c_str())) {
                while (auto* e = readdir(p)) {
                    if (e->d_name[0] == '.') continue;
                    std::ifstream f(dir + "/" + e->d_name);
                    std::stringstream ss;
                    ss << f.rdbuf();
                    r.files[e->d_name] = ss.str();
                }
                closedir(p);
            }
        }
        if (WIFSIGNALED(st)) r.end = fmt("signal:%d", WTERMSIG(st));
        else r.end = fmt("exit:%d", WEXITSTATUS(st));
        if (r.end == "exit:98" || r.end == "exit:97" || r.end == "exit:96" || r.end == "signal:14" || r.end == "signal:9") { bad = true; bad_why = name + " " + r.end; }
    }
    empty_dir(dir);
    rmdir(dir.c_str());
    hash = hash_str(to_text(r), hash);
    if (const char* dump = getenv("SIM_DUMP")) { std::ofstream o(fmt("%s.%d", dump, legno), std::ios::app); o << to_text(r) << "======\n"; }
    if (tally) {
        Tally& y = *tally;
        y.legs++;
        y.work += r.st.work;
        y.decisions += r.st.decisions;
        y.preemptions += r.st.preemptions;
        y.regions += r.st.regions;
        y.par_regions += r.st.par_regions;
        y.accesses += r.st.accesses_checked;
        y.sim_seconds += r.num.count("end_time") ? r.num["end_time"] : r.st.work * s.sim.sec_per_unit;
        if (r.num.count("obs.states")) y.states += (uint64_t)r.num["obs.states"];
        if (r.st.preemptions) y.faults["preemption"] += r.st.preemptions;
        if (r.st.jumps_fired) y.faults["clock-jump"] += r.st.jumps_fired;
        if (s.sim.stall_tid >= 0 && r.st.par_regions) y.faults["stalled-worker"]++;
        if (s.sim.heap_seed) y.faults["stale-memory"]++;
        if (s.par.count("crash") && r.end == "exit:94") y.faults["process-crash"]++;
        if (r.st.deadline_passed) y.faults["deadline-reached"]++;
        if (s.par.count("slow_at")) y.faults["slow-callback"]++;
        if (r.end.rfind("stopped:", 0) == 0) y.faults["callback-exception"]++;
        for (int i = 0; i < sim::IO_KINDS; i++) if (r.st.io_fired[i]) y.faults[std::string("io-") + sim::IO_KIND_NAMES[i]] += r.st.io_fired[i];
        if (r.st.par_regions && y.schedules.size() < 400000) y.schedules.insert(r.st.sched_hash);
        uint64_t h = hash_str(r.str.count("obs.traj") ? r.str["obs.traj"] : "");
        for (int v : r.x) h = (h ^ (uint64_t)(v + 17)) * 1099511628211ull;
        h = hash_str(fmt("%.9g %d", r.objective, (int)r.snaps.size()), h);
        for (auto& f : r.files) h = hash_str(f.second, h);
        h = hash_str(r.end, h);
        if (y.outcomes.size() < 400000) y.outcomes.insert(h);
        y.notes["end:" + r.end.substr(0, 60)]++;
    }
    return r;
}

/*****************************************************************************/
struct Run { Verdict v; uint64_t hash; bool bad; std::string why; std::vector<std::pair<std::string, std::string>> trace; };
static const Property* find(const std::string& id) {
    for (auto& p : properties()) if (id == p.id) return &p;
    return nullptr;
}
static Run execute(const Case& c, Ctx base, Tally* t) {
    Ctx x = base;
    x.tally = t;
    x.hash = 1469598103934665603ull;
    x.legno = 0;
    x.trace.clear();
    x.bad = false;
    Run r;
    r.v = find(c.property)->check(c, x);
    r.hash = x.hash;
    r.bad = x.bad;
    r.why = x.bad_why;
    r.trace = x.trace;
    return r;
}

/*****************************************************************************/
// Minimisation: greedy removal of ingredients while the same kind of violation
// persists.
/*****************************************************************************/
static Case minimise(const Case& c0, const Ctx& x, const std::string& kind, double seconds) {
    Case   best = c0;
    double t0 = wall();
    int    tries = 0;
    auto test = [&](const Case& c) {
        if (wall() - t0 > seconds) return false;
        tries++;
        Run r = execute(c, x, nullptr);
        return !r.bad && r.v.violated && r.v.kind == kind;
    };
    auto time_left = [&]() { return wall() - t0 < seconds; };
    bool changed = true;
    for (int round = 0; round < 4 && changed && time_left(); round++) {
        changed = false;
        for (size_t k = 0; k < best.s.size(); k++) {
            // options
            std::vector<std::string> keys;
            for (auto& p : best.s[k].opt) keys.push_back(p.first);
            for (auto& q : keys) {
                if (q == "general.iteration_max" || q == "general.time_max" || q == "output.verbose" || q == "tabu_search.iteration_max") continue;
                Case c = best;
                c.s[k].opt.erase(q);
                if (test(c)) { best = c; changed = true; }
            }
            // io faults, jumps, schedule
            for (size_t i = best.s[k].sim.io_faults.size(); i-- > 0;) {
                Case c = best;
                c.s[k].sim.io_faults.erase(c.s[k].sim.io_faults.begin() + i);
                if (test(c)) { best = c; changed = true; }
            }
            for (size_t i = best.s[k].sim.jumps.size(); i-- > 0;) {
                Case c = best;
                c.s[k].sim.jumps.erase(c.s[k].sim.jumps.begin() + i);
                if (test(c)) { best = c; changed = true; }
            }
            if (best.s[k].sim.sched_mode == 1) {
                Case c = best;
                c.s[k].sim.sched_mode = 0;
                if (test(c)) { best = c; changed = true; }
                else {
                    // shortest prefix of preemptions that still fails
                    uint64_t lo = 0, hi = 1;
                    Case d = best;
                    while (hi < (1u << 22)) { d.s[k].sim.sched_limit = hi; if (test(d)) break; lo = hi; hi *= 4; if (!time_left()) break; }
                    if (hi < (1u << 22) && time_left()) {
                        while (lo + 1 < hi && time_left()) { uint64_t m = (lo + hi) / 2; d.s[k].sim.sched_limit = m; if (test(d)) hi = m; else lo = m; }
                        d.s[k].sim.sched_limit = hi;
                        if (hi < best.s[k].sim.sched_limit && test(d)) { best = d; changed = true; }
                    }
                }
            }
            if (best.s[k].sim.heap_seed) { Case c = best; c.s[k].sim.heap_seed = 0; if (test(c)) { best = c; changed = true; } }
            if (best.s[k].sim.stall_tid >= 0) { Case c = best; c.s[k].sim.stall_tid = -1; if (test(c)) { best = c; changed = true; } }
            while (best.s[k].sim.max_threads > 2) { Case c = best; c.s[k].sim.max_threads--; if (test(c)) { best = c; changed = true; } else break; }
            // loops and iterations
            for (const char* q : {"general.iteration_max", "tabu_search.iteration_max"}) {
                while (best.s[k].opt.count(q) && best.s[k].opt[q] > 1 && time_left()) {
                    Case c = best;
                    c.s[k].opt[q] = std::floor(c.s[k].opt[q] / 2);
                    if (test(c)) { best = c; changed = true; continue; }
                    c = best;
                    c.s[k].opt[q] -= 1;
                    if (test(c)) { best = c; changed = true; continue; }
                    break;
                }
            }
            // rows
            if (best.s[k].spar.empty())
            for (size_t i = best.s[k].inst.rows.size(); i-- > 0 && best.s[k].inst.rows.size() > 1 && time_left();) {
                Case c = best;
                Inst& in = c.s[k].inst;
                in.rows.erase(in.rows.begin() + i);
                size_t a = 0;
                for (size_t g = 0; g < in.rgroups.size(); g++) {
                    if (i < a + in.rgroups[g]) { if (--in.rgroups[g] == 0) in.rgroups.erase(in.rgroups.begin() + g); break; }
                    a += in.rgroups[g];
                }
                if (test(c)) { best = c; changed = true; }
            }
            // user parameters
            std::vector<std::string> ps;
            for (auto& p : best.s[k].par) ps.push_back(p.first);
            for (auto& q : ps) {
                if (q == "observe" || q == "brute" || q == "deadline") continue;
                Case c = best;
                c.s[k].par.erase(q);
                if (test(c)) { best = c; changed = true; }
            }
        }
    }
    return best;
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32) o += fmt("\\u%04x", c);
        else if (c >= 127) o += '?';
        else o += (char)c;
    }
    return o + "\"";
}
static std::string tally_json(const Tally& t, double secs) {
    std::string o = "{";
    auto K = [&](const char* k, double v) { o += fmt("\"%s\": %.17g, ", k, v); };
    K("cases", t.cases); K("legs", t.legs); K("skipped", t.skipped); K("nontrivial", t.nontrivial);
    K("sim_seconds", t.sim_seconds); K("work", t.work); K("decisions", t.decisions); K("preemptions", t.preemptions);
    K("regions", t.regions); K("par_regions", t.par_regions); K("accesses", t.accesses); K("states", t.states); K("wall", secs);
    o += "\"faults\": {";
    bool f = true;
    for (auto& p : t.faults) { o += fmt("%s%s: %llu", f ? "" : ", ", jstr(p.first).c_str(), (unsigned long long)p.second); f = false; }
    o += "}, \"notes\": {";
    f = true;
    for (auto& p : t.notes) { o += fmt("%s%s: %llu", f ? "" : ", ", jstr(p.first).c_str(), (unsigned long long)p.second); f = false; }
    o += "}, \"schedules\": [";
    f = true;
    for (auto h : t.schedules) { o += fmt("%s%llu", f ? "" : ",", (unsigned long long)h); f = false; }
    o += "], \"outcomes\": [";
    f = true;
    for (auto h : t.outcomes) { o += fmt("%s%llu", f ? "" : ",", (unsigned long long)h); f = false; }
    o += "], \"samples\": [";
    f = true;
    for (auto& s : t.samples) { o += (f ? "" : ", ") + jstr(s); f = false; }
    return o + "]}";
}
static std::string summary(const Case& c) {
    std::string o = fmt("seed %llu:", (unsigned long long)c.seed);
    for (auto& s : c.s)
        o += fmt(" [%s %zu vars %zu rows %s, %zu options, threads %d, sched mode %d gap %.0f, %zu jumps, %zu io faults]", s.path.c_str(), s.inst.v.size(), s.inst.rows.size(),
                 s.inst.osense > 0 ? "min" : s.inst.osense < 0 ? "max" : "feas", s.opt.size(), s.sim.max_threads, s.sim.sched_mode, s.sim.sched_gap, s.sim.jumps.size(), s.sim.io_faults.size());
    return o;
}

static std::string read_file(const char* f) {
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
static void write_file(const std::string& f, const std::string& t) {
    std::ofstream o(f);
    o << t;
}
}  // namespace vp

using namespace vp;
static volatile sig_atomic_t g_stop = 0;
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    {   // locale facets fill their caches on first use; do that before any run
        auto& c = std::use_facet<std::ctype<char>>(std::locale());
        c.widen('a');
        c.narrow('a', '?');
        std::ostringstream o;
        o << 1 << ' ' << 2.5 << std::endl;
        std::istringstream i("1 2.5 x");
        int a; double b; std::string t;
        i >> a >> b >> t;
    }
    if (argc < 2) { fprintf(stderr, "usage: simrun leg|batch|replay|show|repeat ...\n"); return 2; }
    std::string cmd = argv[1];
    Ctx x;
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
        x.self = std::string(b, n > 0 ? n : 0);
    }
    const char* sc = getenv("SIM_SCRATCH");
    x.scratch = sc ? sc : "/tmp";
    x.thorough = getenv("SIM_THOROUGH") != nullptr;
    if (cmd == "leg") {   // leg FILE DIR: one run, record to fd 3
        Scenario s;
        if (!from_text(read_file(argv[2]), &s)) return 98;
        int         st = 0;
        std::string t = run_child(s, argv[3], &st);
        size_t o = 0;
        while (o < t.size()) { ssize_t w = ::write(3, t.data() + o, t.size() - o); if (w <= 0) break; o += w; }
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); limits(); raise(WTERMSIG(st)); }
        return WEXITSTATUS(st);
    }
    if (cmd == "batch") {   // batch PROP FIRST STRIDE MAXCASES SECONDS OUTDIR
        std::string prop = argv[2];
        uint64_t    seed = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
        uint64_t    maxn = strtoull(argv[5], nullptr, 10);
        double      secs = atof(argv[6]);
        std::string out = argv[7];
        const Property* P = find(prop);
        if (!P) { fprintf(stderr, "unknown property\n"); return 2; }
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = [](int) { g_stop = 1; };
        sa.sa_flags = SA_RESTART;
        sigaction(SIGTERM, &sa, nullptr);
        Tally  t;
        double t0 = wall();
        std::string viol;
        int nviol = 0, nbad = 0;
        for (uint64_t k = 0; k < maxn && !g_stop && wall() - t0 < secs; k++, seed += stride) {
            Case c = P->gen(seed, x);
            Run  r = execute(c, x, &t);
            t.cases++;
            if (r.bad) { nbad++; printf("BAD seed=%llu %s\n", (unsigned long long)seed, r.why.c_str()); continue; }
            if (r.v.skipped) t.skipped++;
            if (r.v.nontrivial) { t.nontrivial++; if (t.samples.size() < 6) t.samples.push_back(summary(c)); }
            if (r.v.violated) {
                // gate: the same execution once more
                Run r2 = execute(c, x, nullptr);
                if (r2.hash != r.hash || !r2.v.violated || r2.v.kind != r.v.kind) {
                    printf("NONDET seed=%llu kind=%s msg=%s\n", (unsigned long long)seed, r.v.kind.c_str(), r.v.message.c_str());
                    write_file(out + fmt("/nondet-%s-%llu.case", prop.c_str(), (unsigned long long)seed), to_text(c));
                    nbad++;
                    continue;
                }
                nviol++;
                std::string f = out + fmt("/%s-%llu.case", prop.c_str(), (unsigned long long)seed);
                write_file(f, to_text(c));
                printf("FOUND seed=%llu kind=%s file=%s msg=%s\n", (unsigned long long)seed, r.v.kind.c_str(), f.c_str(), r.v.message.c_str());
                if (!getenv("SIM_KEEP_GOING")) break;
            }
        }
        write_file(out + fmt("/tally-%s-%s.json", prop.c_str(), argv[3]), tally_json(t, wall() - t0));
        printf("DONE cases=%llu violations=%d bad=%d\n", (unsigned long long)t.cases, nviol, nbad);
        return 0;
    }
    if (cmd == "minimise") {   // minimise CASE OUT SECONDS
        Case c;
        if (!from_text(read_file(argv[2]), &c)) return 2;
        Run r = execute(c, x, nullptr);
        if (!r.v.violated) { printf("NOT-VIOLATED\n"); return 3; }
        Case m = minimise(c, x, r.v.kind, atof(argv[4]));
        write_file(argv[3], to_text(m));
        printf("MINIMISED kind=%s\n", r.v.kind.c_str());
        return 0;
    }
    if (cmd == "replay") {   // replay CASE
        Case c;
        if (!from_text(read_file(argv[2]), &c) || !find(c.property)) { printf("cannot read %s\n", argv[2]); return 2; }
        Run r = execute(c, x, nullptr);
        printf("hash=%016llx violated=%d kind=%s\n", (unsigned long long)r.hash, (int)r.v.violated, r.v.kind.c_str());
        if (r.bad) { printf("BAD %s\n", r.why.c_str()); return 2; }
        if (r.v.violated) printf("message: %s\n", r.v.message.c_str());
        for (size_t i = 0; i < r.trace.size(); i++) printf("leg %zu: %s\n", i, r.trace[i].first.c_str());
        if (argc > 3) for (auto& l : r.trace) printf("=== %s\n%s", l.first.c_str(), l.second.c_str());
        return r.v.violated ? 1 : 0;
    }
    if (cmd == "gen") {
        const Property* P = find(argv[2]);
        std::cout << to_text(P->gen(strtoull(argv[3], nullptr, 10), x));
        return 0;
    }
    if (cmd == "show") {   // show SCENARIO: record of one run
        Scenario s;
        if (!from_text(read_file(argv[2]), &s)) return 2;
        Tally t;
        x.tally = &t;
        Record r = x.run("show", s);
        std::cout << to_text(r) << "end=" << r.end << " work=" << r.st.work << " reads=" << r.st.reads << " preempt=" << r.st.preemptions << "\n";
        return 0;
    }
    if (cmd == "repeat") {   // repeat PROP FIRST COUNT: hash of each case
        const Property* P = find(argv[2]);
        uint64_t s0 = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
        for (uint64_t k = 0; k < n; k++) {
            Case c = P->gen(s0 + k, x);
            Run  r = execute(c, x, nullptr);
            printf("%llu %016llx %d\n", (unsigned long long)(s0 + k), (unsigned long long)r.hash, (int)r.v.violated);
        }
        return 0;
    }
    if (cmd == "list") { for (auto& p : properties()) printf("%s\n", p.id); return 0; }
    return 2;
}
