// The properties: how a case is generated, which legs are run and what decides.
#include "runner.h"
#include "json.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <sstream>

namespace vp {
using sim::Rng;
using Knobs = std::map<std::string, double>;

static double tol(double a) { return 1e-6 * (1 + std::fabs(a)) + 1e-7; }
static bool   ok(const Record& r) { return r.end == "ok"; }
static double P(const Case& c, const char* k, double d = 0) { auto i = c.par.find(k); return i == c.par.end() ? d : i->second; }
static double N(const Record& r, const char* k, double d = 0) { auto i = r.num.find(k); return i == r.num.end() ? d : i->second; }

static Rng rng_of(const char* prop, uint64_t seed) { return Rng(sim::mix(seed * 1000003 + hash_str(prop) % 1000000007ull)); }

static Scenario base(Rng& r, const char* prop, uint64_t seed, Knobs k) {
    Scenario s;
    s.property = prop;
    s.seed = seed;
    if (!k.count("size")) { double u = r.unit(); k["size"] = u < 0.35 ? 0 : u < 0.85 ? 1 : 2; }
    double pm = k.count("p_mps") ? k["p_mps"] : 0.25;
    s.path = r.chance(pm) ? "mps" : "api";
    k["api"] = s.path == "api";
    gen_instance(r, &s.inst, k);
    gen_options(r, &s, k);
    gen_sim(r, &s, k);
    if (s.path == "api" && r.chance(0.3)) s.par["named"] = 1;
    return s;
}
// a plain environment: one worker, no preemption, no jumps
static void calm(Scenario* s) {
    s->sim.max_threads = 1;
    s->sim.sched_mode = 0;
    s->sim.jumps.clear();
    s->sim.heap_seed = 0;
    s->sim.stall_tid = -1;
}

// ---- how a run ended ------------------------------------------------------
// Abnormal ends that no property tolerates.
static bool crashed(const Record& r, Verdict* v, const char* leg) {
    if (r.end.rfind("signal:", 0) == 0 || r.end == "exit:93" || r.end == "exit:95") {
        v->fail("crash", fmt("%s: the run ended with %s%s", leg, r.end.c_str(),
                             r.end == "exit:93" ? " (an exception left a parallel region)" : r.end == "exit:95" ? " (deadlock)" : ""));
        return true;
    }
    return false;
}
static void own_fails(const Record& r, const std::string& prop, Verdict* v, const char* leg) {
    for (auto& f : r.fails) if (f.first == prop) v->fail("monitor", std::string(leg) + ": " + f.second);
}

// ---- C01: the returned solution is what it says ---------------------------
static void verify_result(const Scenario& s, const Record& r, Verdict* v, const char* leg) {
    if (!ok(r)) return;
    Ref R;
    R.init(s.inst);
    auto bad = [&](const char* k, const std::string& m) { v->fail(k, std::string(leg) + ": " + m); };
    if (r.x.size() != s.inst.v.size()) { bad("shape", fmt("%zu values for %zu variables", r.x.size(), s.inst.v.size())); return; }
    std::string why;
    std::vector<int> xb = r.x;
    bool             dep = false;
    if (r.str.count("dependent")) {
        std::istringstream is(r.str.at("dependent"));
        size_t i;
        while (is >> i) {
            dep = true;
            const Var& q = s.inst.v[i];
            if (!r.is_feasible) xb[i] = q.fixed ? q.fixv : std::max(q.lb, std::min(q.ub, xb[i]));
        }
    }
    if (!R.in_bounds(xb.data(), &why)) bad("bounds", why);
    double z = R.objective(r.x.data());
    if (std::fabs(z - r.objective) > tol(z)) bad("objective", fmt("reported %.12g, recomputed %.12g", r.objective, z));
    for (size_t i = 0; i < r.ex.size(); i++) {
        double e = R.ex[i].c;
        for (auto& t : R.ex[i].t) e += t.second * r.x[t.first];
        if (std::fabs(e - r.ex[i]) > tol(e)) bad("expression", fmt("expression %zu reported %.12g, recomputed %.12g", i, r.ex[i], e));
    }
    double worst = 0;
    for (size_t i = 0; i < s.inst.rows.size() && i < r.viol.size(); i++) {
        double w = R.row_violation(i, r.x.data()), a = R.row_value(i, r.x.data());
        worst = std::max(worst, w);
        if (std::fabs(w - r.viol[i]) > tol(w)) bad("violation", fmt("constraint %zu violation reported %.12g, recomputed %.12g", i, r.viol[i], w));
        if (std::fabs(std::fabs(a) - std::fabs(r.cons[i])) > tol(a)) bad("constraint", fmt("constraint %zu value reported %.12g, recomputed %.12g", i, r.cons[i], a));
    }
    if (r.viol.size() != s.inst.rows.size()) bad("shape", "number of constraints differs");
    double tv = R.total_violation(r.x.data());
    bool aux = dep || N(r, "st.ncons") > s.inst.rows.size();   // the presolve added rows of its own
    if (r.is_feasible || !aux ? std::fabs(tv - r.total_violation) > tol(tv) : r.total_violation < tv - tol(tv)) bad("total-violation", fmt("reported %.12g, recomputed %.12g", r.total_violation, tv));
    if (r.is_feasible && worst > 2e-5) bad("feasible-flag", fmt("declared feasible with violation %.12g", worst));
    if (!r.is_feasible && worst < 1e-9 && R.in_bounds(r.x.data())) bad("feasible-flag", "declared infeasible although every constraint holds");
    if ((N(r, "st.found") != 0) != r.is_feasible) bad("status-flag", "status and solution disagree on feasibility");
    if (N(r, "st.nvar") != s.inst.v.size() || N(r, "st.ncons") < s.inst.rows.size()) bad("status-size", fmt("status reports %g variables, %g constraints; the model has %zu, %zu", N(r, "st.nvar"), N(r, "st.ncons"), s.inst.v.size(), s.inst.rows.size()));
}

static Case gen_c01(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C01", seed);
    Case c;
    c.property = "C01"; c.seed = seed;
    Scenario s = base(r, "C01", seed, {});
    s.par["observe"] = 1;
    c.s.push_back(s);
    c.par["u"] = r.chance(0.6) ? r.unit() : -1;
    return c;
}
static Verdict check_c01(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    own_fails(a, "C01", &v, "run");
    verify_result(s, a, &v, "run");
    v.nontrivial = ok(a) && (a.st.preemptions > 0 || a.st.jumps_fired > 0 || N(a, "obs.states") > 5);
    if (P(c, "u", -1) >= 0 && ok(a)) {
        Scenario t = s;
        t.opt["general.time_max"] = P(c, "u") * N(a, "end_time");
        Record b = x.run("deadline", t);
        if (crashed(b, &v, "deadline")) return v;
        own_fails(b, "C01", &v, "deadline");
        verify_result(t, b, &v, "deadline");
    }
    return v;
}

// ---- C02: same inputs, same result ----------------------------------------
static std::string fingerprint(const Record& r) {
    std::string o = r.end + "\n";
    for (int v : r.x) o += fmt(" %d", v);
    o += fmt("\nobj %.10g tv %.10g feas %d\n", r.objective, r.total_violation, (int)r.is_feasible);
    for (const char* k : {"st.loops", "st.iterations", "st.evaluated", "st.local", "st.lagrange", "inc.found", "inc.feas", "inc.aug", "calls"}) o += fmt("%s %.10g\n", k, N(r, k));
    for (auto& s : r.snaps) o += fmt("snap %d %.10g %.10g %llu %llu\n", (int)s.found, s.feas_obj, s.aug_obj, (unsigned long long)s.feas_hash, (unsigned long long)s.aug_hash);
    for (auto& a : r.archive) { o += fmt("arc %.10g %.10g %d", a.objective, a.total_violation, (int)a.is_feasible); for (int v : a.x) o += fmt(" %d", v); o += "\n"; }
    auto S = [&](const char* k) { auto i = r.str.find(k); if (i != r.str.end()) o += std::string(k) + "\n" + i->second; };
    S("update_counts");
    S("violation_counts");
    S("obs.traj");
    return o;
}
static std::string first_diff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, q;
    int n = 0;
    for (;;) {
        bool u = (bool)std::getline(x, p), w = (bool)std::getline(y, q);
        n++;
        if (!u && !w) return "none";
        if (!u) p = "<end>";
        if (!w) q = "<end>";
        if (p != q) return fmt("line %d: '%s' against '%s'", n, p.substr(0, 200).c_str(), q.substr(0, 200).c_str());
    }
}
static Case gen_c02(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C02", seed);
    Case c;
    c.property = "C02"; c.seed = seed;
    Scenario s = base(r, "C02", seed, {{"jumps", 0.5}});
    if (s.sim.max_threads < 2) s.sim.max_threads = r.range(2, 6);
    s.sim.sched_mode = 1;
    for (auto& j : s.sim.jumps) j.delta = std::min(j.delta, 1000.0);
    for (const char* k : {"tabu_search.time_max", "local_search.time_max", "lagrange_dual.time_max", "pdlp.time_max"}) s.opt[k] = 1e7;
    s.opt["general.time_max"] = 1e7;
    c.s.push_back(s);
    c.par["heap"] = r.next() >> 12;
    c.par["noomp"] = r.chance(0.3);
    return c;
}
static Verdict check_c02(const Case& c, Ctx& x) {
    Verdict v;
    Scenario b = c.s[0];
    calm(&b);
    Record a = x.run("calm", b);
    if (crashed(a, &v, "calm")) return v;
    std::string fa = fingerprint(a);
    auto cmp = [&](const char* kind, const Scenario& s, char fl = 0) {
        Record r = x.run(kind, s, fl);
        if (crashed(r, &v, kind)) return;
        std::string f = fingerprint(r);
        if (f != fa) v.fail(kind, fmt("result depends on the %s: %s", kind, first_diff(fa, f).c_str()));
        if (r.st.preemptions > 0) v.nontrivial = true;
    };
    Scenario t = c.s[0];
    t.sim.heap_seed = 0;
    t.sim.jumps.clear();
    cmp("schedule", t);
    if (!c.s[0].sim.jumps.empty()) {
        Scenario q = b;
        q.sim.jumps = c.s[0].sim.jumps;
        q.sim.sec_per_unit = c.s[0].sim.sec_per_unit * 7;
        q.sim.clock_base = c.s[0].sim.clock_base + 12345;
        cmp("clock", q);
    }
    Scenario h = b;
    h.sim.heap_seed = (uint64_t)P(c, "heap", 7);
    cmp("stale-memory", h);
    if (P(c, "noomp")) cmp("openmp-build", b, 'N');
    return v;
}

// ---- C03: no data race ------------------------------------------------------
static Case gen_c03(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C03", seed);
    Case c;
    c.property = "C03"; c.seed = seed;
    Scenario s = base(r, "C03", seed, {{"loops", 4}, {"iters", 25}});
    if (s.sim.max_threads < 2) s.sim.max_threads = r.range(2, 6);
    if (s.opt.count("parallel.number_of_threads_move_update") && s.opt["parallel.number_of_threads_move_update"] < 2) s.opt["parallel.number_of_threads_move_update"] = 2;
    if (s.opt.count("parallel.number_of_threads_move_evaluation") && s.opt["parallel.number_of_threads_move_evaluation"] < 2) s.opt["parallel.number_of_threads_move_evaluation"] = 3;
    c.s.push_back(s);
    return c;
}
static Verdict check_c03(const Case& c, Ctx& x) {
    Verdict v;
    Record a = x.run("run", c.s[0], 'R');
    if (crashed(a, &v, "run")) return v;
    v.nontrivial = a.st.accesses_checked > 0;
    if (!a.races.empty()) {
        auto& q = a.races[0];
        v.fail("race", fmt("%s by worker %d at pc 0x%llx and %s by worker %d at pc 0x%llx touch the same bytes without ordering (%zu distinct pairs)", q.write1 ? "write" : "read", q.tid1,
                           (unsigned long long)q.pc1, q.write2 ? "write" : "read", q.tid2, (unsigned long long)q.pc2, a.races.size()));
    }
    return v;
}

// ---- C05: the incumbent only improves, and nothing found is lost ------------
static Case gen_c05(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C05", seed);
    Case c;
    c.property = "C05"; c.seed = seed;
    Scenario s = base(r, "C05", seed, {{"jumps", 0.0}});
    s.par["observe"] = 1;
    c.s.push_back(s);
    c.par["u1"] = r.unit();
    c.par["u2"] = r.unit();
    return c;
}
// quality of a result: feasible before infeasible, then the objective
static bool worse(const Record& a, const Record& b, const Scenario& s) {
    if (b.is_feasible && !a.is_feasible) return true;
    if (!a.is_feasible || !b.is_feasible) return false;
    double sg = s.inst.osense < 0 ? -1 : s.inst.osense == 0 ? 0 : 1;
    return sg * a.objective > sg * b.objective + 1e-5;
}
static Verdict check_c05(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Record a = x.run("full", s);
    if (crashed(a, &v, "full")) return v;
    own_fails(a, "C05", &v, "full");
    if (!ok(a)) { v.skipped = true; return v; }
    if (!a.snaps.empty()) {
        auto& l = a.snaps.back();
        if (l.found && !a.is_feasible) v.fail("final", "the feasible incumbent of the last callback is not in the result");
        double sg = s.inst.osense < 0 ? -1 : s.inst.osense == 0 ? 0 : 1;
        if (l.found && a.is_feasible && sg * a.objective > l.feas_obj + 1e-6) v.fail("final", fmt("result %.12g is worse than the last reported incumbent %.12g", sg * a.objective, l.feas_obj));
        v.nontrivial = l.found;
    }
    double lo = std::min(P(c, "u1"), P(c, "u2")), hi = std::max(P(c, "u1"), P(c, "u2"));
    Scenario t1 = s, t2 = s;
    t1.opt["general.time_max"] = lo * N(a, "end_time");
    t2.opt["general.time_max"] = hi * N(a, "end_time");
    Record b = x.run("short", t1), d = x.run("long", t2);
    if (crashed(b, &v, "short") || crashed(d, &v, "long")) return v;
    own_fails(b, "C05", &v, "short");
    own_fails(d, "C05", &v, "long");
    if (ok(b) && ok(d)) {
        if (worse(d, b, s)) v.fail("anytime", fmt("more time, worse result: %.6g s gives %s %.12g, %.6g s gives %s %.12g", t1.opt["general.time_max"], b.is_feasible ? "feasible" : "infeasible", b.objective,
                                                  t2.opt["general.time_max"], d.is_feasible ? "feasible" : "infeasible", d.objective));
        if (worse(a, d, s)) v.fail("anytime", "the unlimited run is worse than the limited one");
    }
    return v;
}

// ---- C14: maintained values equal re-evaluation ------------------------------
static Case gen_c14(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C14", seed);
    Case c;
    c.property = "C14"; c.seed = seed;
    Scenario s = base(r, "C14", seed, {});
    s.par["observe"] = 1;
    c.s.push_back(s);
    return c;
}
static Verdict check_c14(const Case& c, Ctx& x) {
    Verdict v;
    Record a = x.run("run", c.s[0]);
    if (crashed(a, &v, "run")) return v;
    own_fails(a, "C14", &v, "run");
    v.nontrivial = N(a, "obs.states") > 3;
    return v;
}


// ---- C04: time limits are kept, and only they stop a solve early ------------
static Case gen_c04(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C04", seed);
    Case c;
    c.property = "C04"; c.seed = seed;
    bool phases = r.chance(0.25);
    Scenario s = base(r, "C04", seed, {{"jumps", 0.0}, {"loops", 6}, {"lagrange", phases ? 0.7 : 0.3}, {"pdlp", phases ? 0.4 : 0.25}, {"target", 0.03}, {"size", (double)(r.chance(0.4) ? 0 : 1)}});
    s.opt["tabu_search.iteration_max"] = r.range(150, 900);
    s.opt["local_search.iteration_max"] = 3000;
    if (s.opt.count("lagrange_dual.is_enabled")) s.opt["lagrange_dual.iteration_max"] = r.range(100, 400);
    if (s.opt.count("pdlp.is_enabled")) s.opt["pdlp.iteration_max"] = r.range(200, 1500);
    if (r.chance(0.5)) { s.opt["tabu_search.is_enabled_automatic_break"] = 0; s.opt["tabu_search.pruning_rate_threshold"] = 1.0; s.opt["tabu_search.is_enabled_automatic_iteration_adjustment"] = 0; }
    for (const char* k : {"tabu_search.time_max", "local_search.time_max", "lagrange_dual.time_max", "pdlp.time_max"}) s.opt[k] = 1e7;
    s.opt["general.time_max"] = 1e7;
    if (r.chance(0.25)) s.par["time_keeper"] = 1;
    double sp[] = {1e-9, 1e-8, 1e-6};
    s.sim.sec_per_unit = sp[r.below(3)];
    c.par["mode"] = phases ? 3 : r.range(0, 2);    // steady, jump, slow callback, phase limits
    c.par["u"] = r.unit();
    c.par["u2"] = r.unit();
    c.par["k"] = r.range(1, 40);
    if (phases) { s.sim.sec_per_unit = 0; s.sim.sec_per_read = 1e-3; s.par.erase("time_keeper"); }
    c.s.push_back(s);
    return c;
}
static Verdict check_c04(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    int mode = (int)P(c, "mode");
    if (mode == 3) {
        // the simulated clock moves by 1 ms at every read: an iteration that
        // looks at the clock at all takes at least 1 ms
        double k = P(c, "k"), lim = k * 1e-3 + 5e-4;
        Scenario t = s;
        for (const char* o : {"tabu_search.time_max", "local_search.time_max", "lagrange_dual.time_max"}) t.opt[o] = lim;
        Record a = x.run("phase-limits", t);
        if (crashed(a, &v, "phase-limits")) return v;
        if (!ok(a)) { v.skipped = true; return v; }
        if (N(a, "st.local") > k + 3) v.fail("phase", fmt("local search did %g iterations of at least 1 ms within a limit of %g ms", N(a, "st.local"), k));
        if (N(a, "st.lagrange") > k + 3) v.fail("phase", fmt("Lagrange dual did %g iterations of at least 1 ms within a limit of %g ms", N(a, "st.lagrange"), k));
        if (N(a, "st.iterations") > N(a, "st.loops") * (k + 3)) v.fail("phase", fmt("%g loops did %g iterations of at least 1 ms within a limit of %g ms each", N(a, "st.loops"), N(a, "st.iterations"), k));
        // a limit the phase never reaches changes nothing
        Scenario f = s, g = s;
        for (const char* o : {"tabu_search.time_max", "local_search.time_max", "lagrange_dual.time_max", "pdlp.time_max"}) g.opt[o] = 1e5;
        Record b = x.run("no-limit", f), d = x.run("unreached-limit", g);
        if (crashed(b, &v, "no-limit") || crashed(d, &v, "unreached-limit")) return v;
        if (fingerprint(b) != fingerprint(d)) v.fail("early", "a phase limit that is never reached changes the result: " + first_diff(fingerprint(b), fingerprint(d)));
        v.nontrivial = N(b, "st.local") > k + 3 || N(b, "st.lagrange") > k + 3 || N(b, "st.iterations") > N(b, "st.loops") * (k + 3);
        return v;
    }
    Record full = x.run("full", s);
    if (crashed(full, &v, "full")) return v;
    if (!ok(full)) { v.skipped = true; return v; }
    Scenario z = s;
    z.opt["general.time_max"] = 0;
    Record none = x.run("no-time", z);
    if (crashed(none, &v, "no-time")) return v;
    if (!ok(none)) { v.skipped = true; return v; }
    double w0 = N(none, "work_at_end") - N(none, "work_at_start");
    // the longest stretch of work without a look at the clock, not counting
    // the preparation which comes before the first time check
    int k = 0;
    for (int i = 1; i < 16; i++) if (none.st.gap[i] > none.st.gap[k]) k = i;
    double G = full.st.gap_rest;
    for (int i = k + 1; i < 16; i++) G = std::max(G, (double)full.st.gap[i]);
    double bound = 4 * G + w0 + 20000;
    double end = N(full, "end_time"), d = P(c, "u") * end;
    Scenario t = s;
    std::string how;
    if (mode == 0) how = "steady clock";
    else if (mode == 1) {
        // the limit would not be reached but for a jump
        d = end * 2 + 1;
        sim::ClockJump j;
        j.on = 1;
        j.at = (uint64_t)(N(full, "work_at_start") + P(c, "u") * (N(full, "work_at_end") - N(full, "work_at_start")));
        j.delta = d * (1 + P(c, "u2"));
        t.sim.jumps.push_back(j);
        how = "clock jump";
    } else {
        d = end * 2 + 1;
        if (full.snaps.size() < 2) { v.skipped = true; return v; }
        t.par["slow_at"] = 1 + std::floor(P(c, "u") * (full.snaps.size() - 1));
        t.par["slow_by"] = d * (1 + P(c, "u2"));
        how = "slow callback";
    }
    t.opt["general.time_max"] = d;
    t.par["deadline"] = d;
    Record b = x.run("limited", t);
    if (crashed(b, &v, "limited")) return v;
    if (b.end == "exit:94") { v.fail("hang", "the limited run does not end"); return v; }
    if (!ok(b)) { v.fail("exception", "a time limit turns a regular result into " + b.end.substr(0, 200)); return v; }
    double total = N(full, "work_at_end") - N(full, "work_at_start");
    if (b.st.deadline_passed) {
        double after = N(b, "work_at_end") - (double)b.st.work_at_deadline;
        v.nontrivial = total > bound;
        // A jump in the short hand-over to a phase, after its offset was taken
        // and before its own clock starts, is noticed only when that phase
        // ends.  A limit that is kept is kept a few stretches later again.
        for (int i = 1; mode == 1 && i <= 3 && after > bound; i++) {
            Scenario q = t;
            q.sim.jumps.back().at += (uint64_t)(i * (2 * G + 500));
            Record e = x.run(fmt("later-jump-%d", i).c_str(), q);
            if (crashed(e, &v, "later-jump")) return v;
            if (ok(e) && e.st.deadline_passed) after = std::min(after, N(e, "work_at_end") - (double)e.st.work_at_deadline);
        }
        if (after > bound) v.fail("late", fmt("%s: %.0f units of work after the limit of %.6g s; the whole solve takes %.0f, a solve without any time %.0f, the longest stretch between clock reads %.0f", how.c_str(), after, d, total, w0, G));
        if (mode == 2 && N(b, "calls") > t.par["slow_at"]) v.fail("late", fmt("a further loop was run after the limit had passed in callback %g", t.par["slow_at"]));
    }
    // everything the full run did before the limit, the limited one does too
    double reach = mode == 0 ? d : mode == 1 ? -1 : full.snaps[(size_t)t.par["slow_at"] - 1].time;
    size_t need = 0;
    for (auto& q : full.snaps) if (q.time <= reach) need++;
    if (mode == 1) need = 0;
    for (size_t i = 0; i < need; i++) {
        if (i >= b.snaps.size()) { v.fail("early", fmt("%s: only %zu of the %zu loops that end before the limit of %.6g s were run", how.c_str(), b.snaps.size(), need, d)); break; }
        if (b.snaps[i].feas_hash != full.snaps[i].feas_hash || b.snaps[i].aug_hash != full.snaps[i].aug_hash) { v.fail("early", fmt("%s: loop %zu ended before the limit but differs from the unlimited run", how.c_str(), i + 1)); break; }
    }
    if (mode == 0 && N(b, "end_time") < d * (1 - 1e-9) && fingerprint(b) != fingerprint(full)) v.fail("early", fmt("ended at %.9g s of %.9g s with a different result than the unlimited run", N(b, "end_time"), d));
    // and a limit beyond the end changes nothing
    Scenario w = s;
    w.opt["general.time_max"] = end * (1.01 + P(c, "u2")) + 1e-6;
    Record e = x.run("loose", w);
    if (crashed(e, &v, "loose")) return v;
    if (fingerprint(e) != fingerprint(full)) v.fail("early", "a limit that is never reached changes the result: " + first_diff(fingerprint(full), fingerprint(e)));
    return v;
}

// ---- C06: a solve stops when, and only when, it should ------------------------
static Case gen_c06(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C06", seed);
    Case c;
    c.property = "C06"; c.seed = seed;
    Scenario s = base(r, "C06", seed, {{"target", 0.5}, {"size", (double)(r.chance(0.6) ? 0 : 1)}, {"loops", 12}});
    s.par["observe"] = 1;
    s.par["brute"] = 1;
    if (r.chance(0.5)) s.opt["tabu_search.is_enabled_initial_modification"] = 0;
    if (r.chance(0.15)) s.opt["general.iteration_max"] = r.range(0, 1);
    c.par["throw"] = r.chance(0.5) ? r.range(1, 8) : 0;
    c.s.push_back(s);
    return c;
}
static Verdict check_c06(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    auto O = [&](const char* k, double d) { auto i = s.opt.find(k); return i == s.opt.end() ? d : i->second; };
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    own_fails(a, "C06", &v, "run");
    if (a.end == "exit:94") { v.fail("hang", "the run does not end although the number of loops is limited"); return v; }
    if (!ok(a)) { v.skipped = true; return v; }
    double L = N(a, "st.loops"), M = O("general.iteration_max", 0);
    if (L != N(a, "calls")) v.fail("callback", fmt("%g loops but %g callbacks", L, N(a, "calls")));
    if (L > M) v.fail("loops", fmt("%g loops with a limit of %g", L, M));
    double sg = s.inst.osense < 0 ? -1 : 1;
    bool   has_target = s.opt.count("general.target_objective_value") > 0;
    double target = sg * O("general.target_objective_value", -1e100);
    if (s.inst.osense == 0) { has_target = true; target = 0; }
    auto reached = [&](bool found, double z) { return has_target && found && z <= target + 1e-9; };
    double zf = sg * a.objective;
    if (s.inst.osense == 0) zf = 0;
    if (L < M) {
        bool why = reached(a.is_feasible, zf);
        if (!why && N(a, "brute_done")) why = N(a, "brute_feasible") && a.is_feasible && zf <= N(a, "brute_best") + 1e-4;
        else if (!why) why = true;   // optimality cannot be decided here
        if (!why) v.fail("premature", fmt("stopped after %g of %g loops with %s %.12g; target %.12g, optimum %.12g", L, M, a.is_feasible ? "feasible" : "infeasible", zf, target, N(a, "brute_best")));
    }
    for (size_t i = 0; i + 1 < a.snaps.size(); i++)
        if (reached(a.snaps[i].found, a.snaps[i].feas_obj)) { v.fail("target", fmt("the target %.12g was reached in loop %zu (%.12g) but %zu more loops were run", target, i + 1, a.snaps[i].feas_obj, a.snaps.size() - i - 1)); break; }
    // the automatic adjustment never goes below the tabu tenure
    double per_loop = O("tabu_search.iteration_max", 1e9);
    if (O("tabu_search.is_enabled_automatic_iteration_adjustment", 1)) per_loop = std::max(per_loop, O("tabu_search.initial_tabu_tenure", 10));
    if (N(a, "st.iterations") > L * per_loop) v.fail("iterations", fmt("%g iterations in %g loops of at most %g", N(a, "st.iterations"), L, per_loop));
    if (N(a, "st.local") > O("local_search.iteration_max", 1e9)) v.fail("iterations", fmt("%g local search iterations, limit %g", N(a, "st.local"), O("local_search.iteration_max", 0)));
    if (N(a, "st.lagrange") > O("lagrange_dual.iteration_max", 1e9)) v.fail("iterations", fmt("%g Lagrange dual iterations, limit %g", N(a, "st.lagrange"), O("lagrange_dual.iteration_max", 0)));
    if (N(a, "obs.after_target") > 4 && O("tabu_search.is_enabled_initial_modification", 1) == 0) v.fail("target", fmt("%g more states were visited after the target %.12g had been reached", N(a, "obs.after_target"), target));
    v.nontrivial = L < M || M > 1;
    int th = (int)P(c, "throw");
    if (th > 0 && a.snaps.size() > 0) {
        th = 1 + (th - 1) % (int)a.snaps.size();
        Scenario t = s;
        t.par["throw_at"] = th;
        Record b = x.run("callback-exception", t);
        if (crashed(b, &v, "callback-exception")) return v;
        if (b.end != fmt("stopped:%d", th)) v.fail("exception", fmt("an exception thrown by callback %d ended the solve with '%s'", th, b.end.substr(0, 200).c_str()));
        else if ((int)b.snaps.size() != th) v.fail("exception", fmt("%zu callbacks although callback %d threw", b.snaps.size(), th));
        else for (int i = 0; i < th; i++) if (b.snaps[i].feas_hash != a.snaps[i].feas_hash || b.snaps[i].aug_hash != a.snaps[i].aug_hash) { v.fail("exception", fmt("loop %d differs from the undisturbed run", i + 1)); break; }
    }
    return v;
}

// ---- C07: the archive of feasible solutions ------------------------------------
static Case gen_c07(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C07", seed);
    Case c;
    c.property = "C07"; c.seed = seed;
    Scenario s = base(r, "C07", seed, {{"store", 1.0}, {"size", (double)(r.chance(0.6) ? 0 : 1)}});
    s.par["observe"] = 1;
    s.par["archive_all"] = 1;
    if (r.chance(0.7)) s.opt["tabu_search.is_enabled_initial_modification"] = 0;
    c.par["u"] = r.chance(0.3) ? r.unit() : -1;
    c.s.push_back(s);
    return c;
}
static void check_archive(const Scenario& s, const Record& a, Verdict* v, const char* leg) {
    Ref R;
    R.init(s.inst);
    double sg = s.inst.osense < 0 ? -1 : 1;
    std::set<std::vector<int>> seen;
    double last = -1e300;
    for (size_t i = 0; i < a.archive.size(); i++) {
        auto& q = a.archive[i];
        std::string why;
        if (!q.is_feasible || !R.in_bounds(q.x.data(), &why) || R.total_violation(q.x.data()) > 1e-4) { v->fail("infeasible", fmt("%s: archived solution %zu is not feasible for the model (violation %.12g) %s", leg, i, R.total_violation(q.x.data()), why.c_str())); return; }
        double z = R.objective(q.x.data());
        if (std::fabs(z - q.objective) > tol(z)) { v->fail("objective", fmt("%s: archived solution %zu has objective %.12g, recomputed %.12g", leg, i, q.objective, z)); return; }
        if (!seen.insert(q.x).second) { v->fail("duplicate", fmt("%s: archived solution %zu appears twice", leg, i)); return; }
        if (sg * z < last - tol(z)) { v->fail("order", fmt("%s: archived solution %zu is better than the one before", leg, i)); return; }
        last = sg * z;
    }
    auto it = s.opt.find("output.feasible_solutions_capacity");
    if (it != s.opt.end() && it->second > 0 && a.archive.size() > it->second) v->fail("capacity", fmt("%s: %zu solutions in an archive of %g", leg, a.archive.size(), it->second));
}
static Verdict check_c07(const Case& c, Ctx& x) {
    Verdict v;
    Scenario s = c.s[0];
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    if (!ok(a)) { v.skipped = true; return v; }
    own_fails(a, "C07", &v, "run");
    check_archive(s, a, &v, "run");
    v.nontrivial = a.archive.size() > 1;
    if (P(c, "u", -1) >= 0) {
        Scenario t = s;
        t.opt["general.time_max"] = P(c, "u") * N(a, "end_time");
        Record b = x.run("deadline", t);
        if (crashed(b, &v, "deadline")) return v;
        if (ok(b)) { own_fails(b, "C07", &v, "deadline"); check_archive(t, b, &v, "deadline"); }
    }
    return v;
}

// ---- C11: the number of workers stays within the configured budget -----------------
static Case gen_c11(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C11", seed);
    Case c;
    c.property = "C11"; c.seed = seed;
    Scenario s = base(r, "C11", seed, {{"pdlp", 0.0}, {"p_mps", 0.1}, {"lagrange", 0.3}});
    s.sim.max_threads = r.range(2, 8);
    auto& o = s.opt;
    for (const char* w : {"move_update", "move_evaluation"}) {
        std::string en = fmt("parallel.is_enabled_%s_parallelization", w), au = fmt("parallel.is_enabled_automatic_%s_parallelization", w), nt = fmt("parallel.number_of_threads_%s", w);
        o.erase(en); o.erase(au); o.erase(nt);
        double u = r.unit();
        if (u < 0.3) o[en] = 0;
        else if (u < 0.8) { o[au] = 0; o[nt] = r.range(1, 9); }
        else if (u < 0.9) { o[au] = 0; }
        else o[nt] = r.range(1, 8);
    }
    c.s.push_back(s);
    return c;
}
static Verdict check_c11(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Scenario t = s;
    t.par["team_probe"] = 1;
    Record a = x.run("run", t);
    if (crashed(a, &v, "run")) return v;
    if (!ok(a)) { v.skipped = true; return v; }
    auto O = [&](std::string k, double d) { auto i = s.opt.find(k); return i == s.opt.end() ? d : i->second; };
    double budget = 1, b[2];
    int    i = 0;
    bool   exact = true;
    for (const char* w : {"move_update", "move_evaluation"}) {
        bool en = O(fmt("parallel.is_enabled_%s_parallelization", w), 1), au = O(fmt("parallel.is_enabled_automatic_%s_parallelization", w), 1);
        double n = O(fmt("parallel.number_of_threads_%s", w), -1);
        b[i] = !en ? 1 : n < 1 ? s.sim.max_threads : au ? std::max<double>(n, s.sim.max_threads) : n;
        if (en && au) exact = false;
        budget = std::max(budget, b[i++]);
    }
    v.nontrivial = budget < s.sim.max_threads || exact;
    if ((double)a.st.max_work_team > budget) v.fail("budget", fmt("a team of %llu workers was used, the options allow %g (of %d available)", (unsigned long long)a.st.max_work_team, budget, s.sim.max_threads));
    if (exact)
        for (int n = 2; n < 63; n++)
            if ((a.st.team_sizes >> n & 1) && n != b[0] && n != b[1]) v.fail("budget", fmt("a team of %d workers was used, the options ask for %g and %g", n, b[0], b[1]));
    if (N(a, "st.thr_update") > b[0] + 1e-9) v.fail("status", fmt("the status reports %g threads for move update, the options allow %g", N(a, "st.thr_update"), b[0]));
    if (N(a, "st.thr_eval") > b[1] + 1e-9) v.fail("status", fmt("the status reports %g threads for move evaluation, the options allow %g", N(a, "st.thr_eval"), b[1]));
    return v;
}

// ---- C12: bounds and optimality claims --------------------------------------------
static Case gen_c12(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C12", seed);
    Case c;
    c.property = "C12"; c.seed = seed;
    Scenario s = base(r, "C12", seed, {{"size", 0}, {"lagrange", 0.35}, {"pdlp", 0.35}, {"target", 0.03}, {"loops", 10}});
    s.par["brute"] = 1;
    c.par["u"] = r.chance(0.3) ? r.unit() : -1;
    c.s.push_back(s);
    return c;
}
static Verdict check_c12(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    own_fails(a, "C12", &v, "run");
    if (!ok(a) || !N(a, "brute_done")) { v.skipped = !v.violated; return v; }
    v.nontrivial = N(a, "brute_feasible") && N(a, "calls") > 0;
    auto final = [&](const Record& q, const Scenario& sc, const char* leg) {
        if (!ok(q) || s.inst.osense == 0 || !N(q, "brute_feasible")) return;
        double d = N(q, "inc.dual"), z = s.inst.osense < 0 ? -N(q, "brute_best") : N(q, "brute_best");
        if (s.inst.osense > 0 ? d > z + 1e-4 : d < z - 1e-4) v.fail("dual", fmt("%s: final dual bound %.12g, optimum %.12g (%s)", leg, d, z, s.inst.osense > 0 ? "minimise" : "maximise"));
        auto i = sc.opt.find("general.iteration_max");
        bool time = sc.opt.at("general.time_max") < 1e5;
        if (!time && i != sc.opt.end() && N(q, "st.loops") < i->second && !sc.opt.count("general.target_objective_value")) {
            // it stopped because it holds its solution for optimal
            if (!q.is_feasible || s.inst.osense * q.objective > N(q, "brute_best") + 1e-4)
                v.fail("optimal", fmt("%s: stopped after %g of %g loops as optimal with %s %.12g, optimum %.12g", leg, N(q, "st.loops"), i->second, q.is_feasible ? "feasible" : "infeasible", q.objective, z));
        }
    };
    final(a, s, "run");
    if (P(c, "u", -1) >= 0) {
        Scenario t = s;
        t.opt["general.time_max"] = P(c, "u") * N(a, "end_time");
        Record b = x.run("deadline", t);
        if (crashed(b, &v, "deadline")) return v;
        own_fails(b, "C12", &v, "deadline");
        final(b, t, "deadline");
    }
    return v;
}

// ---- C16: a satisfiable model always gives a result ---------------------------------
static Case gen_c16(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C16", seed);
    Case c;
    c.property = "C16"; c.seed = seed;
    Scenario s = base(r, "C16", seed, {{"size", (double)(r.chance(0.6) ? 0 : 1)}, {"planted", 0.8}});
    c.par["u"] = r.chance(0.5) ? r.unit() : -1;
    c.s.push_back(s);
    return c;
}
static Verdict check_c16(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Ref R;
    R.init(s.inst);
    bool sat = false;
    if (s.inst.planted.size() == s.inst.v.size() && R.in_bounds(s.inst.planted.data()) && R.total_violation(s.inst.planted.data()) == 0) sat = true;
    else {
        std::vector<int> lb, ub;
        for (auto& q : s.inst.v) { lb.push_back(q.fixed ? q.fixv : q.lb); ub.push_back(q.fixed ? q.fixv : q.ub); }
        Brute b = brute_force(R, lb, ub, 1e6);
        sat = b.done && b.feasible;
    }
    auto judge = [&](const Record& a, const char* leg) {
        if (crashed(a, &v, leg)) return;
        if (a.end == "exit:94") v.fail("hang", fmt("%s: the solve does not end", leg));
        else if (!ok(a) && sat) v.fail("exception", fmt("%s: a satisfiable model gives %s", leg, a.end.substr(0, 250).c_str()));
    };
    Record a = x.run("run", s);
    judge(a, "run");
    v.nontrivial = sat;
    if (P(c, "u", -1) >= 0 && ok(a)) {
        Scenario t = s;
        t.opt["general.time_max"] = P(c, "u") * N(a, "end_time");
        judge(x.run("deadline", t), "deadline");
    }
    return v;
}

// ---- C15: solves do not influence each other ------------------------------------------
static Case gen_c15(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C15", seed);
    Case c;
    c.property = "C15"; c.seed = seed;
    int mode = r.range(0, 4);      // nested, first, second, after a failed one, two user threads
    for (int i = 0; i < 2; i++) {
        Scenario s = base(r, "C15", seed, {{"p_mps", 0.0}, {"loops", 6}, {"size", (double)(r.chance(0.6) ? 0 : 1)}});
        for (const char* k : {"tabu_search.time_max", "local_search.time_max", "lagrange_dual.time_max", "pdlp.time_max"}) s.opt[k] = 1e7;
        s.opt["general.time_max"] = 1e7;
        for (auto& j : s.sim.jumps) j.delta = std::min(j.delta, 1000.0);
        if (mode == 4) s.sim.max_threads = 1;
        s.sim.heap_seed = 0;
        s.par["heap"] = i + 1;
        c.s.push_back(s);
    }
    if (r.chance(0.2)) c.s[1].inst = c.s[0].inst;    // the same model, other options
    else if (r.chance(0.2)) { std::map<std::string, double> o = c.s[0].opt; c.s[1].opt = o; }
    c.par["mode"] = mode;
    c.par["k"] = r.range(1, 8);
    return c;
}
static Verdict check_c15(const Case& c, Ctx& x) {
    Verdict v;
    Scenario a = c.s[0], b = c.s[1];
    int  mode = (int)P(c, "mode");
    char fl = mode == 4 ? 'N' : 0;
    Record ra = x.run("alone-1", a, fl), rb = x.run("alone-2", b, fl);
    if (crashed(ra, &v, "alone-1") || crashed(rb, &v, "alone-2")) return v;
    if (ra.end == "exit:94" || rb.end == "exit:94") { v.skipped = true; return v; }
    static const char* name[] = {"inside the callback of another", "before another", "after another", "after a failed one", "at the same time as another"};
    Scenario t = a, q = b;
    std::string fa = fingerprint(ra), fb = fingerprint(rb);
    std::string key = "second";
    if (mode == 0) {
        if (ra.snaps.empty()) { v.skipped = true; return v; }
        t.par["nest_at"] = 1 + ((int)P(c, "k") - 1) % (int)ra.snaps.size();
        key = "nested";
    } else {
        t.par["pair_mode"] = mode == 1 ? 1 : mode == 4 ? 0 : 2;
        if (mode == 3) {
            if (rb.snaps.empty()) { v.skipped = true; return v; }
            q.par["throw_at"] = 1 + ((int)P(c, "k") - 1) % (int)rb.snaps.size();
        }
        if (mode == 4) t.sim.sched_mode = 1;
    }
    t.spar[key] = to_text(q);
    Record m = x.run("together", t, fl);
    if (crashed(m, &v, "together")) return v;
    Record o;
    if (!m.str.count(key) || !from_text(m.str.at(key), &o)) { v.fail("lost", "one of two solves left no result: " + m.end.substr(0, 200)); return v; }
    std::string ga = fingerprint(m), gb = fingerprint(o);
    if (ga != fa) v.fail("influence", fmt("a solve %s gives another result than alone: %s", mode == 0 ? "with another inside its callback" : name[mode], first_diff(fa, ga).c_str()));
    if (mode != 3) { if (gb != fb) v.fail("influence", fmt("a solve %s gives another result than alone: %s", mode == 0 ? name[0] : mode == 1 ? name[2] : mode == 2 ? name[1] : name[4], first_diff(fb, gb).c_str())); }
    else if (o.end.rfind("stopped:", 0) != 0) v.fail("influence", "the failing solve ended with " + o.end.substr(0, 200));
    v.nontrivial = ok(ra) && ok(rb) && (mode != 4 || m.st.preemptions > 0);
    return v;
}

// ---- the command line solver on simulated storage -------------------------------------
static Scenario app_base(Rng& r, const char* prop, uint64_t seed, Knobs k) {
    k["p_mps"] = 1.0;
    if (!k.count("size")) k["size"] = r.chance(0.6) ? 0 : 1;
    Scenario s = base(r, prop, seed, k);
    s.path = "app";
    s.par.clear();
    s.opt.erase("parallel.number_of_threads_move_update");   // see known-findings.txt
    s.opt.erase("neighborhood.is_enabled_two_flip_move");
    s.opt.erase("neighborhood.is_enabled_user_defined_move");
    s.opt.erase("output.is_enabled_write_trend");
    s.spar.clear();
    s.spar["file:m.mps"] = mps_text(s.inst);
    s.spar["file:o.json"] = option_json(s.opt);
    s.spar["args"] = "-p\no.json\nm.mps";
    return s;
}
// the instance and options are taken from the scenario, so that the minimiser
// can shorten them
static void app_files(Scenario* s) {
    s->spar["file:m.mps"] = mps_text(s->inst);
    s->spar["file:o.json"] = option_json(s->opt);
}
static bool same_number(double a, double b, double rel) { return std::fabs(a - b) <= rel * (1 + std::fabs(b)) || (std::isnan(a) && std::isnan(b)); }
// the values of a solution file, unlisted variables are 0
static bool read_sol(const Inst& in, const std::string& t, std::vector<int>* x, std::string* head, bool* complete) {
    std::map<std::string, int> val;
    std::istringstream is(t);
    std::string l;
    bool first = true;
    *complete = !t.empty() && t.back() == '\n';
    while (std::getline(is, l)) {
        if (first) { *head = l; first = false; if (l.rfind("=", 0) == 0 && l.rfind("=obj=", 0) != 0) continue; }
        std::istringstream ls(l);
        std::string n, v;
        if (!(ls >> n >> v)) continue;
        if (n == "=obj=") continue;
        val[n] = (int)std::floor(0.5 + atof(v.c_str()));
    }
    x->clear();
    for (size_t i = 0; i < in.v.size(); i++) {
        auto k = val.find(var_name(in, i));
        if (k == val.end()) *complete = false;
        x->push_back(k == val.end() ? 0 : k->second);
    }
    return true;
}
static void verify_files(const Scenario& s, const Record& r, Verdict* v, const char* leg) {
    auto bad = [&](const char* k, const std::string& m) { v->fail(k, std::string(leg) + ": " + m); };
    auto F = [&](const char* n) -> const std::string* { auto i = r.files.find(n); return i == r.files.end() ? nullptr : &i->second; };
    bool store = s.opt.count("output.is_enabled_store_feasible_solutions") && s.opt.at("output.is_enabled_store_feasible_solutions");
    for (const char* n : {"incumbent.json", "incumbent.sol", "status.json"}) if (!F(n)) { bad("missing", fmt("%s is missing after a successful run", n)); return; }
    if (store && !F("feasible.json")) { bad("missing", "feasible.json is missing after a successful run"); return; }
    J inc, sta, fea;
    if (!parse_json(*F("incumbent.json"), &inc) || inc.t != 'o') { bad("malformed", "incumbent.json is not well formed"); return; }
    if (!parse_json(*F("status.json"), &sta) || sta.t != 'o') { bad("malformed", "status.json is not well formed"); return; }
    auto num = [&](const J& j, const char* k) { const J* q = j.get(k); return q ? q->n : NAN; };
    // incumbent.json as a result of the library
    Record q;
    q.end = "ok";
    q.objective = num(inc, "objective");
    q.total_violation = num(inc, "total_violation");
    q.is_feasible = num(inc, "is_found_feasible_solution") == 1;
    q.num["st.found"] = num(sta, "is_found_feasible_solution");
    q.num["st.nvar"] = num(sta, "number_of_variables");
    q.num["st.ncons"] = num(sta, "number_of_constraints");
    const J *vars = inc.get("variables"), *cons = inc.get("constraints"), *viol = inc.get("violations");
    if (!vars || !cons || !viol) { bad("malformed", "incumbent.json lacks a section"); return; }
    for (size_t i = 0; i < s.inst.v.size(); i++) {
        const J* j = vars->get(var_name(s.inst, i));
        if (!j) { bad("malformed", "incumbent.json lacks variable " + var_name(s.inst, i)); return; }
        q.x.push_back((int)j->n);
        if (!q.is_feasible) q.str["dependent"] += fmt("%zu ", i);
    }
    if (vars->o.size() != s.inst.v.size()) bad("malformed", fmt("incumbent.json has %zu variables", vars->o.size()));
    for (size_t i = 0; i < s.inst.rows.size(); i++) {
        const J *a = cons->get(fmt("R%zu", i)), *b = viol->get(fmt("R%zu", i));
        if (!a || !b) { bad("malformed", fmt("incumbent.json lacks constraint R%zu", i)); return; }
        q.cons.push_back(a->n);
        q.viol.push_back(b->n);
    }
    verify_result(s, q, v, leg);
    // the solution file
    std::vector<int> x;
    std::string head;
    bool complete;
    read_sol(s.inst, *F("incumbent.sol"), &x, &head, &complete);
    if (!complete) bad("malformed", "incumbent.sol is not complete");
    if (x != q.x) bad("files-disagree", "incumbent.sol and incumbent.json have different values");
    if (q.is_feasible ? head.rfind("=obj= ", 0) != 0 || !same_number(atof(head.c_str() + 6), q.objective, 1e-6) : head != "=infeas=")
        bad("files-disagree", "incumbent.sol starts with '" + head + "', incumbent.json says " + (q.is_feasible ? fmt("%.12g", q.objective) : "infeasible"));
    if (store) {
        if (!parse_json(*F("feasible.json"), &fea) || fea.t != 'o' || !fea.get("solutions")) { bad("malformed", "feasible.json is not well formed"); return; }
        Record ar;
        for (auto& e : fea.get("solutions")->a) {
            ArcSol a;
            a.objective = num(e, "objective");
            a.total_violation = num(e, "total_violation");
            a.is_feasible = num(e, "is_feasible") == 1;
            for (size_t i = 0; i < s.inst.v.size(); i++) { const J* w = e.get("variables") ? e.get("variables")->get(var_name(s.inst, i)) : nullptr; a.x.push_back(w ? (int)w->n : 0); }
            ar.archive.push_back(a);
        }
        check_archive(s, ar, v, leg);
    }
    if (s.spar.at("args").find("--export-json-instance") != std::string::npos) {
        J ins;
        if (!F("m.json")) bad("missing", "m.json is missing although requested");
        else if (!parse_json(*F("m.json"), &ins) || !ins.get("variables") || !ins.get("constraints")) bad("malformed", "m.json is not well formed");
        else {
            std::map<std::string, int> at;
            for (size_t i = 0; i < s.inst.v.size(); i++) at[var_name(s.inst, i)] = i;
            if (ins.get("variables")->a.size() != s.inst.v.size()) bad("instance", fmt("m.json has %zu variables", ins.get("variables")->a.size()));
            for (auto& w : ins.get("variables")->a) {
                auto k = w.get("name") ? at.find(w.get("name")->s) : at.end();
                if (k == at.end()) { bad("instance", "m.json has an unknown variable"); break; }
                const Var& o = s.inst.v[k->second];
                if (num(w, "lower_bound") < o.lb || num(w, "upper_bound") > o.ub) { bad("instance", "m.json has wider bounds for " + k->first); break; }
            }
        }
    }
}
static Case gen_c08(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C08", seed);
    Case c;
    c.property = "C08"; c.seed = seed;
    Scenario s = app_base(r, "C08", seed, {{"store", 0.5}, {"loops", 5}});
    if (r.chance(0.4)) s.spar["args"] = "--export-json-instance\n" + s.spar["args"];
    if (r.chance(0.3)) s.opt["general.time_max"] = r.unit() * 1e-3;
    c.s.push_back(s);
    for (int i = 0; i < 3; i++) {
        c.par[fmt("k%d", i)] = r.range(0, 5);
        c.par[fmt("u%d", i)] = r.unit();
        c.par[fmt("v%d", i)] = r.unit();
    }
    return c;
}
static Verdict check_c08(const Case& c, Ctx& x) {
    Verdict v;
    Scenario s = c.s[0];
    app_files(&s);
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    if (!ok(a)) {
        v.skipped = true;
        for (const char* n : {"incumbent.json", "incumbent.sol"}) if (a.files.count(n)) v.fail("leftover", fmt("%s was written although the run failed with %s", n, a.end.substr(0, 200).c_str()));
        return v;
    }
    verify_files(s, a, &v, "run");
    uint64_t setup_opens = (uint64_t)N(a, "setup_opens");
    for (int i = 0; i < 3; i++) {
        int    k = (int)P(c, fmt("k%d", i).c_str());
        double u = P(c, fmt("u%d", i).c_str()), w = P(c, fmt("v%d", i).c_str());
        sim::IoFault f;
        auto pick = [&](uint64_t lo, uint64_t hi) { return lo + (uint64_t)(u * (double)(hi - lo + 1)); };
        bool hard = k <= 3;
        f.arg = 0;
        if (k == 0) { f.kind = sim::IO_OPEN_FAIL; if (a.st.io_opens <= setup_opens) continue; f.op = pick(setup_opens + 1, a.st.io_opens); }
        else if (k == 3) { f.kind = sim::IO_CLOSE_EIO; if (!a.st.io_closes) continue; f.op = pick(1, a.st.io_closes); }
        else {
            f.kind = k == 1 ? sim::IO_WRITE_EIO : k == 2 ? sim::IO_WRITE_ENOSPC : k == 4 ? sim::IO_WRITE_SHORT : sim::IO_WRITE_EINTR;
            if (!a.st.io_writes) continue;
            f.op = pick(1, a.st.io_writes);
            if (k == 2) { f.op = 1; f.arg = (long)(w * a.st.io_bytes_written); }
            if (k == 4) f.arg = 1 + (long)(w * 100);
        }
        Scenario t = s;
        t.sim.io_faults.push_back(f);
        std::string leg = fmt("%s-%llu", sim::IO_KIND_NAMES[f.kind], (unsigned long long)f.op);
        Record b = x.run(leg, t);
        if (crashed(b, &v, leg.c_str())) return v;
        if (!b.st.io_fired[f.kind]) continue;
        v.nontrivial = true;
        if (!hard && !ok(b)) v.fail("transient", leg + ": an interrupted or short write ends the run with " + b.end.substr(0, 200));
        if (ok(b)) {
            for (auto& p : a.files) {
                auto q = b.files.find(p.first);
                if (q == b.files.end()) { v.fail("silent-loss", leg + ": the run reports success although " + p.first + " was not written"); break; }
                if (q->second != p.second) { v.fail("silent-loss", leg + fmt(": the run reports success although %s is damaged (%zu of %zu bytes)", p.first.c_str(), q->second.size(), p.second.size())); break; }
            }
        } else {
            if (b.end.rfind("exception:", 0) != 0) v.fail("end", leg + ": ended with " + b.end.substr(0, 200));
            for (auto& q : b.files) {
                auto p = a.files.find(q.first);
                if (p == a.files.end()) continue;
                if (p->second.compare(0, q.second.size(), q.second) != 0) { v.fail("corrupt", leg + ": " + q.first + " is not a beginning of the file an undisturbed run writes"); break; }
            }
        }
    }
    return v;
}

// ---- C09: inputs are read exactly or refused ---------------------------------------------
static Case gen_c09(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C09", seed);
    Case c;
    c.property = "C09"; c.seed = seed;
    Scenario s = app_base(r, "C09", seed, {{"loops", 4}});
    std::string pre;
    if (r.chance(0.5)) {
        std::string t = r.chance(0.5) ? "=obj= 0\n" : "";
        for (size_t i = 0; i < s.inst.v.size(); i++) if (!s.inst.v[i].fixed && r.chance(0.8)) t += var_name(s.inst, i) + fmt(" %d\n", i < s.inst.planted.size() ? s.inst.planted[i] : s.inst.v[i].lb);
        s.spar["file:i.sol"] = t;
        pre += "-i\ni.sol\n";
    }
    if (r.chance(0.25)) {
        std::string t;
        for (size_t i = 0; i + 1 < s.inst.v.size(); i++) if (s.inst.v[i].lb == 0 && s.inst.v[i].ub == 1 && s.inst.v[i + 1].lb == 0 && s.inst.v[i + 1].ub == 1 && !s.inst.v[i].fixed && !s.inst.v[i + 1].fixed) t += var_name(s.inst, i) + " " + var_name(s.inst, i + 1) + " 1\n";
        s.spar["file:x.txt"] = t;
        pre += "-x\nx.txt\n";
    }
    if (r.chance(0.3)) c.par["fix"] = r.range(0, (int)s.inst.v.size() - 1);
    s.spar["args"] = pre + s.spar["args"];
    c.s.push_back(s);
    c.par["chunk"] = r.chance(0.5) ? r.range(1, 40) : r.range(1, 4000);
    for (int i = 0; i < 3; i++) {
        c.par[fmt("k%d", i)] = r.range(0, 3);
        c.par[fmt("u%d", i)] = r.unit();
    }
    if (r.chance(0.4)) c.par["options"] = r.range(1, 1000000);
    if (r.chance(0.02)) c.par["threads_key"] = 1;
    return c;
}
// every option the program echoes, with random values
static std::string random_options(const J& echo, uint64_t seed) {
    Rng r(seed);
    std::string o = "{\n";
    size_t n = 0;
    for (auto& sec : echo.o) {
        if (sec.second.t != 'o') continue;
        std::string b;
        for (auto& p : sec.second.o) {
            std::string key = sec.first + "." + p.first, v;
            const J& q = p.second;
            if (key == "parallel.number_of_threads_move_update") continue;    // see known-findings.txt
            // without correction an unsuitable initial solution is refused
            bool keep = r.chance(0.3) || p.first.find("initial_value_correction") != std::string::npos;
            if (key == "general.time_max") v = "0.0";
            else if (q.t == 's') v = "\"" + q.s + "\"";
            else if (q.t == 'b') v = (q.n != 0) != (!keep && r.chance(0.5)) ? "true" : "false";
            else if (q.t == 'n') {
                bool real = q.s.find_first_of(".eE") != std::string::npos;
                int  d = r.range(1, 9);
                v = keep ? q.s : real ? fmt("%.6f", std::fabs(q.n) < 1e4 ? q.n + d * 0.0625 : q.n * 0.5) : fmt("%.0f", q.n + d);
            } else continue;
            b += std::string(b.empty() ? "" : ",\n") + "        \"" + p.first + "\" : " + v;
        }
        if (b.empty()) continue;
        o += std::string(n++ ? ",\n" : "") + "    \"" + sec.first + "\" : {\n" + b + "\n    }";
    }
    return o + "\n}\n";
}
static void echo_check(const Scenario& s, const Record& r, Verdict* v, const char* kind = "options") {
    J sta;
    auto i = r.files.find("status.json");
    if (i == r.files.end() || !parse_json(i->second, &sta)) return;
    const J* o = sta.get("option");
    if (!o) { v->fail(kind, "status.json has no options"); return; }
    J want;
    if (!parse_json(s.spar.at("file:o.json"), &want)) return;
    for (auto& sec : want.o) {
        const J* g = o->get(sec.first);
        if (!g) { v->fail(kind, "status.json lacks the options of " + sec.first); return; }
        for (auto& p : sec.second.o) {
            const J* q = g->get(p.first);
            bool same = q && q->t == p.second.t && (q->t == 's' ? q->s == p.second.s : same_number(q->n, p.second.n, 2e-6));
            if (sec.first == "neighborhood" && p.first == "is_enabled_two_flip_move" && s.spar.count("file:x.txt")) same = true;
            if (!same) { v->fail(kind, fmt("option %s.%s is %s in the file and %s in effect", sec.first.c_str(), p.first.c_str(), p.second.s.c_str(), q ? q->s.c_str() : "absent")); return; }
        }
    }
}
static Verdict check_c09(const Case& c, Ctx& x) {
    Verdict v;
    Scenario s = c.s[0];
    app_files(&s);
    Inst ref = s.inst;
    int fix = (int)P(c, "fix", -1);
    if (fix >= 0 && fix < (int)s.inst.v.size() && !s.spar.count("file:i.sol") && !s.inst.v[fix].fixed && !s.inst.planted.empty()) {
        s.spar["file:f.txt"] = var_name(s.inst, fix) + fmt(" %d\n", s.inst.planted[fix]);
        s.spar["args"] = "-f\nf.txt\n" + s.spar["args"];
        ref.v[fix].fixed = true;
        ref.v[fix].fixv = s.inst.planted[fix];
    }
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    static const char* outs[] = {"incumbent.json", "incumbent.sol", "status.json", "feasible.json"};
    if (ok(a)) {
        echo_check(s, a, &v);
        Scenario t = s;
        t.inst = ref;
        verify_files(t, a, &v, "run");
    }
    auto same = [&](const Record& b, const std::string& leg, const char* kind) {
        if (b.end != a.end) { v.fail(kind, leg + fmt(": ended with '%s' instead of '%s'", b.end.substr(0, 150).c_str(), a.end.substr(0, 150).c_str())); return; }
        for (auto& p : a.files) {
            auto q = b.files.find(p.first);
            if (q == b.files.end() || q->second != p.second) { v.fail(kind, leg + ": " + p.first + " differs from the undisturbed run"); return; }
        }
    };
    {
        Scenario t = s;
        t.sim.io_chunk = (int)P(c, "chunk", 7);
        // more system calls cost no simulated time here, so nothing may change
        Record b = x.run(fmt("chunks-of-%d", t.sim.io_chunk), t);
        if (crashed(b, &v, "chunks")) return v;
        same(b, "reads in small pieces", "chunked");
    }
    if (P(c, "options") > 0 && ok(a)) {
        J sta;
        if (a.files.count("status.json") && parse_json(a.files.at("status.json"), &sta) && sta.get("option")) {
            Scenario t = s;
            t.spar["file:o.json"] = random_options(*sta.get("option"), (uint64_t)P(c, "options"));
            t.spar.erase("file:x.txt");
            size_t at = t.spar["args"].find("-x\nx.txt\n");
            if (at != std::string::npos) t.spar["args"].erase(at, 9);
            Record b = x.run("all-options", t);
            if (crashed(b, &v, "all-options")) return v;
            if (ok(b)) echo_check(t, b, &v);
            else if (Ref R; R.init(ref), ref.planted.size() == ref.v.size() && R.in_bounds(ref.planted.data()) && R.total_violation(ref.planted.data()) == 0) v.fail("options", "a complete option file ends the run with " + b.end.substr(0, 200));
        }
    }
    if (P(c, "threads_key") > 0 && ok(a)) {
        Scenario t = s;
        t.spar["file:o.json"] = "{\n    \"general\" : {\n        \"time_max\" : 0.0\n    },\n    \"parallel\" : {\n        \"number_of_threads_move_update\" : 3\n    }\n}\n";
        Record b = x.run("threads-key", t);
        if (crashed(b, &v, "threads-key")) return v;
        if (ok(b)) echo_check(t, b, &v, "options-threads-key");
    }
    uint64_t reads = (uint64_t)N(a, "setup_reads"), opens = (uint64_t)N(a, "setup_opens");
    if (!reads) reads = a.st.io_reads;
    if (!opens) opens = a.st.io_opens;
    for (int i = 0; i < 3; i++) {
        int    k = (int)P(c, fmt("k%d", i).c_str());
        double u = P(c, fmt("u%d", i).c_str());
        sim::IoFault f;
        f.arg = k == 3 ? 1 + (long)(u * 997) % 50 : 0;
        f.kind = k == 0 ? sim::IO_OPEN_FAIL : k == 1 ? sim::IO_READ_EIO : k == 2 ? sim::IO_READ_EINTR : sim::IO_READ_SHORT;
        uint64_t n = k == 0 ? opens : reads;
        if (!n) continue;
        f.op = 1 + (uint64_t)(u * n);
        Scenario t = s;
        t.sim.io_faults.push_back(f);
        // read in pieces, so that an error can come in the middle of a file
        if (k == 1) { t.sim.io_chunk = (int)P(c, "chunk", 7); f.op = 1 + (uint64_t)(u * 40); t.sim.io_faults[0].op = f.op; }
        std::string leg = fmt("%s-%llu", sim::IO_KIND_NAMES[f.kind], (unsigned long long)f.op);
        Record b = x.run(leg, t);
        if (crashed(b, &v, leg.c_str())) return v;
        if (!b.st.io_fired[f.kind]) { if (k != 1 || ok(b)) same(b, leg, "undisturbed"); continue; }
        v.nontrivial = true;
        if (k >= 2) same(b, leg, "transient");
        else if (ok(b)) same(b, leg, "silent");
        else {
            for (const char* n : outs) if (b.files.count(n)) v.fail("leftover", leg + ": " + n + " was written although an input could not be read");
        }
    }
    return v;
}

// ---- C10: a restart never loses ground --------------------------------------------------
static Case gen_c10(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C10", seed);
    Case c;
    c.property = "C10"; c.seed = seed;
    Scenario s = app_base(r, "C10", seed, {{"loops", 5}});
    c.s.push_back(s);
    int n = r.range(2, 5);
    c.par["n"] = n;
    for (int i = 0; i < n; i++) {
        c.par[fmt("how%d", i)] = r.chance(0.35) ? 1 : r.chance(0.15) ? 2 : 0;   // regular, crash, full disk
        c.par[fmt("u%d", i)] = r.chance(0.4) ? 0.9 + 0.1 * r.unit() : r.unit();
        c.par[fmt("t%d", i)] = r.chance(0.5) ? r.unit() : -1;
        c.par[fmt("s%d", i)] = r.range(1, 1000);
    }
    return c;
}
static Verdict check_c10(const Case& c, Ctx& x) {
    Verdict v;
    Scenario s = c.s[0];
    Ref R;
    R.init(s.inst);
    std::string sol;
    double end = 0;
    for (int i = 0; i < (int)P(c, "n"); i++) {
        Scenario t = s;
        t.opt["general.seed"] = P(c, fmt("s%d", i).c_str(), 1);
        double q = P(c, fmt("t%d", i).c_str(), -1);
        if (q >= 0 && end > 0) t.opt["general.time_max"] = q * end;
        app_files(&t);
        std::vector<int> in;
        bool good = false;
        double z = 0;
        if (!sol.empty()) {
            t.spar["file:i.sol"] = sol;
            t.spar["file:incumbent.sol"] = sol;     // the previous result is still there
            t.spar["args"] = "-i\ni.sol\n" + t.spar["args"];
            std::string head;
            bool complete;
            read_sol(s.inst, sol, &in, &head, &complete);
            good = R.in_bounds(in.data()) && R.total_violation(in.data()) == 0;
            z = R.min_objective(in.data());
        }
        int how = (int)P(c, fmt("how%d", i).c_str());
        std::string leg = fmt("generation-%d", i);
        Record a;
        if (how == 1) {
            // the process dies at a random point of this run
            Record f = x.run(leg + "-measured", t);
            if (crashed(f, &v, leg.c_str())) return v;
            t.sim.work_budget = (uint64_t)(1 + P(c, fmt("u%d", i).c_str()) * f.st.work);
            t.par["crash"] = 1;
            leg += "-crashes";
        } else if (how == 2) {
            sim::IoFault f;
            f.kind = sim::IO_WRITE_ENOSPC;
            f.op = 1;
            f.arg = (long)(P(c, fmt("u%d", i).c_str()) * 3000);
            t.sim.io_faults.push_back(f);
        }
        a = x.run(leg, t);
        if (crashed(a, &v, leg.c_str())) return v;
        if (a.end == "exit:94" && how != 1) { v.fail("hang", leg + ": the run does not end"); return v; }
        auto k = a.files.find("incumbent.sol");
        if (ok(a)) {
            end = N(a, "end_time");
            std::vector<int> out;
            std::string head;
            bool complete;
            if (k == a.files.end()) { v.fail("missing", leg + ": no solution file after success"); return v; }
            read_sol(s.inst, k->second, &out, &head, &complete);
            bool feas = R.in_bounds(out.data()) && R.total_violation(out.data()) <= 1e-4;
            double y = R.min_objective(out.data());
            if (good) {
                v.nontrivial = true;
                if (!feas) v.fail("lost", leg + fmt(": started from a feasible solution of value %.12g, ended with an infeasible one", z));
                else if (y > z + 1e-4) v.fail("worse", leg + fmt(": started from a feasible solution of value %.12g, ended with %.12g", z, y));
            }
        } else if (how == 0) {
            if (a.end.rfind("exception:", 0) != 0) { v.fail("end", leg + ": ended with " + a.end.substr(0, 200)); return v; }
            if (good) v.fail("refused", leg + ": a feasible solution file is refused: " + a.end.substr(0, 250));
            break;
        } else if (how == 2 && a.end.rfind("exception:", 0) != 0) { v.fail("end", leg + ": ended with " + a.end.substr(0, 200)); return v; }
        if (k != a.files.end()) sol = k->second;
        if (v.violated) return v;
    }
    return v;
}

// ---- C13: progress reports tell the truth ---------------------------------------------------
static Case gen_c13(uint64_t seed, const Ctx&) {
    Rng  r = rng_of("C13", seed);
    Case c;
    c.property = "C13"; c.seed = seed;
    Scenario s = base(r, "C13", seed, {{"loops", 10}, {"size", (double)(r.chance(0.6) ? 0 : 1)}});
    s.opt["output.is_enabled_write_trend"] = 1;
    s.par["collect"] = 1;
    s.par["export"] = 1;
    c.s.push_back(s);
    c.par["throw"] = r.chance(0.4) ? r.range(1, 8) : 0;
    c.par["crash"] = r.chance(0.5) ? r.unit() : -1;
    c.par["u"] = r.chance(0.3) ? r.unit() : -1;
    return c;
}
struct Trend { bool ok = true; size_t bytes_rows = 0; std::vector<std::string> lines; std::vector<std::vector<double>> rows; };
static Trend read_trend(const Record& r) {
    Trend t;
    auto i = r.files.find("trend.txt");
    if (i == r.files.end()) { t.ok = false; return t; }
    std::istringstream is(i->second);
    std::string l;
    while (std::getline(is, l)) {
        if (is.eof()) break;              // no end of line: cut off
        if (l.empty() || l[0] == '#') continue;
        t.lines.push_back(l);
        std::vector<double> row;
        std::istringstream ls(l);
        std::string w;
        while (ls >> w) row.push_back(strtod(w.c_str(), nullptr));
        t.rows.push_back(row);
    }
    return t;
}
static Verdict check_c13(const Case& c, Ctx& x) {
    Verdict v;
    const Scenario& s = c.s[0];
    Record a = x.run("run", s);
    if (crashed(a, &v, "run")) return v;
    auto judge = [&](const Record& q, const char* leg) {
        auto bad = [&](const char* k, const std::string& m) { v.fail(k, std::string(leg) + ": " + m); };
        Trend t = read_trend(q);
        if (!t.ok) { bad("trend", "no trend file although enabled"); return; }
        if (t.rows.size() != q.snaps.size()) { bad("trend", fmt("%zu rows for %zu loops", t.rows.size(), q.snaps.size())); return; }
        // a jump can come between the start of the simulation and that of the solve
        double last = 0, off = 0;
        if (!s.sim.jumps.empty() && !t.rows.empty() && t.rows[0].size() > 1) off = std::max(0.0, q.snaps[0].time - t.rows[0][1]);
        for (size_t i = 0; i < t.rows.size(); i++) {
            auto& w = t.rows[i];
            if (w.size() != 29) { bad("trend", fmt("row %zu has %zu columns", i, w.size())); return; }
            const Snap& sn = q.snaps[i];
            if (w[0] != (double)i) bad("trend", fmt("row %zu is numbered %g", i, w[0]));
            if (w[1] < last * (1 - 1e-5) - 1e-12) bad("trend-time", fmt("the elapsed time goes back from %g to %g", last, w[1]));
            last = std::max(last, w[1]);
            if (w[1] > sn.time * (1 + 2e-5) + 1e-9) bad("trend-time", fmt("row %zu gives %g s, the callback of that loop comes at %.9g s", i, w[1], sn.time));
            if (i > 0 && w[1] < (q.snaps[i - 1].time - off) * (1 - 2e-5) - 1e-9) bad("trend-time", fmt("row %zu gives %g s, the loop began at %.9g s", i, w[1], q.snaps[i - 1].time));
            if (!same_number(w[6], sn.ga_obj, 2e-5)) bad("trend-value", fmt("row %zu gives the best objective as %.9g, it is %.9g", i, w[6], sn.ga_obj));
            // presolving adds and removes rows, so the amount reported for an infeasible
            // solution can differ, and values of eliminated variables only mean something
            // in a feasible one
            if (w[7] == 0 ? sn.ga_viol > 1e-4 : !a.str.count("dependent") && sn.ga_viol == 0) bad("trend-value", fmt("row %zu gives its violation as %.9g, it is %.9g", i, w[7], sn.ga_viol));
        }
    };
    auto status = [&](const Record& q, const Scenario& sc, const char* leg) {
        auto bad = [&](const char* k, const std::string& m) { v.fail(k, std::string(leg) + ": " + m); };
        double at = q.snaps.empty() ? 0 : q.snaps.back().time, el = N(q, "st.elapsed"), end = N(q, "end_time");
        if (!s.sim.jumps.empty()) {
            Trend t = read_trend(q);
            at = t.rows.empty() || t.rows.back().size() < 2 ? 0 : t.rows.back()[1] * (1 - 2e-5);
        }
        if (el < at * (1 - 1e-9) - 1e-9 || el > end * (1 + 1e-9) + 1e-9) bad("status-time", fmt("the status reports %.9g s; the last loop ended at %.9g s, the solve at %.9g s", el, at, end));
        if (N(q, "st.loops") != q.snaps.size()) bad("status", fmt("the status reports %g loops, there were %zu", N(q, "st.loops"), q.snaps.size()));
        J st, so;
        auto i = q.files.find("st.json"), j = q.files.find("s.json");
        if (i == q.files.end() || !parse_json(i->second, &st)) { bad("status", "the exported status is not well formed"); return; }
        if (j == q.files.end() || !parse_json(j->second, &so)) { bad("status", "the exported solution is not well formed"); return; }
        auto cmp = [&](const J& o, const char* k, double want) {
            const J* w = o.get(k);
            if (!w || !same_number(w->n, want, 2e-6)) bad("status", fmt("exported %s is %s, the result has %.9g", k, w ? w->s.c_str() : "absent", want));
        };
        cmp(st, "elapsed_time", el);
        cmp(st, "number_of_tabu_search_loops", N(q, "st.loops"));
        cmp(st, "number_of_tabu_search_iterations", N(q, "st.iterations"));
        cmp(st, "number_of_local_search_iterations", N(q, "st.local"));
        cmp(st, "number_of_lagrange_dual_iterations", N(q, "st.lagrange"));
        cmp(st, "number_of_evaluated_moves", N(q, "st.evaluated"));
        cmp(st, "averaged_inner_iteration_speed", N(q, "st.speed"));
        cmp(st, "is_found_feasible_solution", N(q, "st.found"));
        cmp(so, "objective", q.objective);
        cmp(so, "total_violation", q.total_violation);
        cmp(so, "is_found_feasible_solution", q.is_feasible);
        (void)sc;
    };
    if (!ok(a)) { v.skipped = true; return v; }
    judge(a, "run");
    status(a, s, "run");
    v.nontrivial = a.snaps.size() > 1;
    if (P(c, "u", -1) >= 0) {
        Scenario t = s;
        t.opt["general.time_max"] = P(c, "u") * N(a, "end_time");
        Record b = x.run("deadline", t);
        if (crashed(b, &v, "deadline")) return v;
        if (ok(b)) { judge(b, "deadline"); status(b, t, "deadline"); }
    }
    Trend full = read_trend(a);
    int th = (int)P(c, "throw");
    if (th > 0 && !a.snaps.empty()) {
        th = 1 + (th - 1) % (int)a.snaps.size();
        Scenario t = s;
        t.par["throw_at"] = th;
        Record b = x.run("callback-exception", t);
        if (crashed(b, &v, "callback-exception")) return v;
        judge(b, "callback-exception");
    }
    if (P(c, "crash", -1) >= 0 && !a.snaps.empty()) {
        Scenario t = s;
        double lo = N(a, "work_at_start"), hi = N(a, "work_at_end");
        t.sim.work_budget = (uint64_t)(lo + P(c, "crash") * (hi - lo));
        t.par["crash"] = 1;
        Record b = x.run("crash", t);
        if (crashed(b, &v, "crash")) return v;
        if (b.end == "exit:94") {
            Trend q = read_trend(b);
            size_t need = 0;
            for (auto& sn : a.snaps) if (sn.work < t.sim.work_budget) need++;
            if (q.lines.size() < need) v.fail("trend-lost", fmt("the process died after %zu loops had ended, the trend file has %zu rows", need, q.lines.size()));
            for (size_t i = 0; i < q.lines.size(); i++) if (i >= full.lines.size() || q.lines[i] != full.lines[i]) { v.fail("trend-lost", fmt("row %zu of the trend file of a run that died differs", i)); break; }
        }
    }
    return v;
}

const std::vector<Property>& properties() {
    static std::vector<Property> p = {
        {"C01", gen_c01, check_c01}, {"C02", gen_c02, check_c02}, {"C03", gen_c03, check_c03},
        {"C04", gen_c04, check_c04}, {"C05", gen_c05, check_c05}, {"C06", gen_c06, check_c06}, {"C07", gen_c07, check_c07},
        {"C08", gen_c08, check_c08}, {"C09", gen_c09, check_c09}, {"C10", gen_c10, check_c10},
        {"C13", gen_c13, check_c13}, {"C11", gen_c11, check_c11}, {"C12", gen_c12, check_c12}, {"C14", gen_c14, check_c14}, {"C15", gen_c15, check_c15}, {"C16", gen_c16, check_c16},
    };
    return p;
}
}  // namespace vp
