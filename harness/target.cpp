// Drives the code under test.  This is the only translation unit compiled
// with instrumentation; it contains every template of the library.
// VP_APP selects the build of the shipped command line solver (which fixes the
// objective sense to minimisation at compile time).
#ifdef VP_APP
#define _PRINTEMPS_MPS_SOLVER
#define _PRINTEMPS_STYLING
#endif
#include <printemps.h>
#include "scenario.h"
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

namespace vp {
using Model = printemps::model::IPModel;
using Solver = printemps::solver::IPSolver;
using Option = printemps::option::Option;
using Expr = printemps::model_component::Expression<int, double>;
using Cons = printemps::model_component::Constraint<int, double>;
using VarT = printemps::model_component::Variable<int, double>;
using MoveT = printemps::neighborhood::Move<int, double>;
using Holder = printemps::solution::IncumbentHolder<int, double>;
using Dense = printemps::solution::DenseSolution<int, double>;

const char* target_flavor() {
#if defined(__SANITIZE_THREAD__)
    return "R";
#elif defined(VP_APP)
    return "A";
#elif defined(_OPENMP)
    return "F";
#else
    return "N";
#endif
}

// Harness code that runs inside the simulated thread does not count as work
// of the code under test.
struct Paused {
    bool old;
    Paused() : old(sim::pause(false)) {}
    ~Paused() { sim::pause(old); }
};

struct OwnHeap {
    int old;
    explicit OwnHeap(int h) : old(sim::use_heap(h)) {}
    ~OwnHeap() { sim::use_heap(old); }
};

static double par(const Scenario& s, const char* k, double d = 0) {
    auto it = s.par.find(k);
    return it == s.par.end() ? d : it->second;
}

static void set_option(Option* o, const std::map<std::string, double>& m) {
    for (auto& p : m) {
        const std::string& k = p.first;
        double             v = p.second;
        (void)v;
#define OPT_B(s, f) if (k == #s "." #f) o->s.f = v != 0;
#define OPT_I(s, f) if (k == #s "." #f) o->s.f = (decltype(o->s.f))v;
#define OPT_D(s, f) if (k == #s "." #f) o->s.f = v;
#define OPT_E(s, f, e) if (k == #s "." #f) o->s.f = (decltype(o->s.f))(int)v;
#include "options.def"
#undef OPT_B
#undef OPT_I
#undef OPT_D
#undef OPT_E
    }
}
// every option value, as text (used to compare option sources)
static std::string dump_option(const Option& o) {
    std::string t;
#define OPT_B(s, f) t += fmt(#s "." #f "=%d\n", (int)o.s.f);
#define OPT_I(s, f) t += fmt(#s "." #f "=%ld\n", (long)o.s.f);
#define OPT_D(s, f) t += fmt(#s "." #f "=%.17g\n", (double)o.s.f);
#define OPT_E(s, f, e) t += fmt(#s "." #f "=%d\n", (int)o.s.f);
#include "options.def"
#undef OPT_B
#undef OPT_I
#undef OPT_D
#undef OPT_E
    return t;
}

/*****************************************************************************/
// Building the model through the modelling interface
/*****************************************************************************/
struct Built {
    std::vector<VarT*> var;
    std::vector<Cons*> row;
    std::vector<Expr*> ex;
};

template <class P> static VarT& var_at(P& proxy, const VarGroup& g, int i) {
    if (g.dims.empty()) return proxy(0);
    if (g.dims.size() == 1) return proxy(i);
    return proxy(i / g.dims[1], i % g.dims[1]);
}

static void build_api(const Scenario& s, Model* m, Built* b) {
    const Inst& in = s.inst;
    using VP = std::remove_reference_t<decltype(m->create_variable("a"))>;
    std::vector<VP*> vps;
    for (auto& g : in.vg) {
        const Var& v0 = in.v[g.first];
        bool same = true;
        for (int i = 1; i < g.n; i++)
            if (in.v[g.first + i].lb != v0.lb || in.v[g.first + i].ub != v0.ub) same = false;
        VP* p;
        if (g.dims.empty()) p = &m->create_variable(g.name, v0.lb, v0.ub);
        else if (g.dims.size() == 1) p = same ? &m->create_variables(g.name, g.n, v0.lb, v0.ub) : &m->create_variables(g.name, g.n);
        else p = same ? &m->create_variables(g.name, g.dims, v0.lb, v0.ub) : &m->create_variables(g.name, g.dims);
        vps.push_back(p);
        for (int i = 0; i < g.n; i++) {
            VarT& v = var_at(*p, g, i);
            const Var& w = in.v[g.first + i];
            if (!same) v.set_bound(w.lb, w.ub);
            if (w.fixed) v.fix_by(w.fixv);
            else if (w.has_init) v = w.init;
        }
    }
    auto vref = [&](int i) -> VarT& {
        for (size_t k = 0; k < in.vg.size(); k++)
            if (i >= in.vg[k].first && i < in.vg[k].first + in.vg[k].n) return var_at(*vps[k], in.vg[k], i - in.vg[k].first);
        throw std::logic_error("harness: bad variable");
    };
    using EP = std::remove_reference_t<decltype(m->create_expressions("a", 1))>;
    EP* ep = nullptr;
    if (!in.ex.empty()) {
        ep = &m->create_expressions("e", (int)in.ex.size());
        for (size_t i = 0; i < in.ex.size(); i++) {
            Expr e = Expr::create_instance();
            for (auto& t : in.ex[i].t) e += t.second * vref(t.first);
            e += in.ex[i].c;
            (*ep)((int)i) = e;
        }
    }
    auto lin = [&](const Lin& l) {
        Expr e = Expr::create_instance();
        for (auto& t : l.t) e += t.second * vref(t.first);
        for (auto& t : l.e) e += t.second * (*ep)(t.first);
        e += l.c;
        return e;
    };
    size_t r = 0;
    for (size_t g = 0; g < in.rgroups.size(); g++) {
        int   k  = in.rgroups[g];
        auto& cp = m->create_constraints(fmt("g%zu", g), k);
        for (int i = 0; i < k; i++, r++) {
            const Row& w = in.rows[r];
            if (w.sel_group >= 0) {
                auto& y = *vps[w.sel_group];
                if (w.sel_index < 0) cp(i) = y.selection();
                else cp(i) = y.selection({w.sel_index, printemps::model_component::Range::All});
                continue;
            }
            Expr   e = lin(w.lin);
            double b0 = w.rhs;
            switch (w.form) {
                case 1:  // value on the left
                    if (w.sense < 0) cp(i) = b0 >= e;
                    else if (w.sense > 0) cp(i) = b0 <= e;
                    else cp(i) = b0 == e;
                    break;
                case 2: {  // everything on the left
                    Expr f = e - b0;
                    if (w.sense < 0) cp(i) = f <= 0;
                    else if (w.sense > 0) cp(i) = f >= 0;
                    else cp(i) = f == 0;
                    break;
                }
                case 3: {  // split between both sides
                    Expr a = Expr::create_instance(), c = Expr::create_instance();
                    for (size_t j = 0; j < w.lin.t.size(); j++) {
                        if (j % 2 == 0) a += w.lin.t[j].second * vref(w.lin.t[j].first);
                        else c -= w.lin.t[j].second * vref(w.lin.t[j].first);
                    }
                    for (auto& t : w.lin.e) a += t.second * (*ep)(t.first);
                    a += w.lin.c;
                    c += b0;
                    if (w.sense < 0) cp(i) = a <= c;
                    else if (w.sense > 0) cp(i) = a >= c;
                    else cp(i) = a == c;
                    break;
                }
                default:
                    if (w.sense < 0) cp(i) = e <= b0;
                    else if (w.sense > 0) cp(i) = e >= b0;
                    else cp(i) = e == b0;
                    break;
            }
        }
    }
    if (in.osense != 0) {
        Expr e = lin(in.obj);
        if (in.osense > 0) m->minimize(e);
        else m->maximize(e);
    }
    for (int i = 0; i < (int)in.v.size(); i++) b->var.push_back(&vref(i));
    if (par(s, "named"))
        for (int i = 0; i < (int)in.v.size(); i++) b->var[i]->set_name(var_name(in, i));
    for (auto& p : m->constraint_proxies())
        for (auto& c : p.flat_indexed_constraints()) b->row.push_back(&c);
    for (auto& p : m->expression_proxies())
        for (auto& e : p.flat_indexed_expressions()) b->ex.push_back(&e);
}

/*****************************************************************************/
// Observation of one solve
/*****************************************************************************/
struct Watch {
    const Scenario* s = nullptr;
    Record*         r = nullptr;
    Model*          m = nullptr;
    Solver*         sol = nullptr;
    Built           b;
    Ref             ref;
    Brute           best;
    double          start = 0;
    int             calls = 0;
    bool            in_search = false;
    // history of incumbents
    double last_feas = 1e300, last_aug = 1e300;
    bool   last_found = false;
    // state seen at clock reads
    std::vector<int> prev_x;
    bool             prev_bad = false;
    std::string      prev_msg;
    std::vector<int> bad_x;
    int              bad_calls = -1;
    int              same = 0;
    double           best_seen = 1e300;
    std::vector<int> best_seen_x;
    std::set<std::vector<int>> visited;
    bool             have_start = false;
    std::vector<int> start_x;
    int              last_state_calls = 0;
    uint64_t         seen = 0, feasible_seen = 0, states = 0;
    double           target = -1e300;
    uint64_t         after_target = 0;
    uint64_t         traj = 1469598103934665603ull;   // fingerprint of the trajectory
    long             user_calls = 0;
    std::function<void(int)> extra;

    void fail(const char* p, const std::string& m_) {
        for (auto& f : r->fails) if (f.first == p) return;   // first of its kind
        r->fails.push_back({p, m_});
    }
    double tol(double a) const { return 1e-6 * (1.0 + std::fabs(a)) + 1e-7; }

    // current assignment; dependent variables are derived from the others
    void current(std::vector<int>* x) const {
        using VS = printemps::model_component::VariableSense;
        x->resize(b.var.size());
        for (size_t i = 0; i < b.var.size(); i++) {
            VarT* v = b.var[i];
            if ((v->sense() == VS::DependentBinary || v->sense() == VS::DependentInteger) && v->dependent_expression_ptr())
                (*x)[i] = (int)std::lround(v->dependent_expression_ptr()->evaluate());
            else (*x)[i] = v->value();
        }
    }
    // Variables the presolve expressed through others: their bounds became
    // constraints, which an infeasible point may break.
    bool dependent(size_t i) const {
        using VS = printemps::model_component::VariableSense;
        return b.var[i]->sense() == VS::DependentBinary || b.var[i]->sense() == VS::DependentInteger;
    }
    bool any_dependent() const { for (size_t i = 0; i < b.var.size(); i++) if (dependent(i)) return true; return false; }
    bool within(const std::vector<int>& x, bool feasible, std::string* why) const {
        if (feasible) return ref.in_bounds(x.data(), why);
        std::vector<int> y = x;
        for (size_t i = 0; i < y.size(); i++)
            if (dependent(i)) { const Var& v = s->inst.v[i]; y[i] = v.fixed ? v.fixv : std::max(v.lb, std::min(v.ub, y[i])); }
        return ref.in_bounds(y.data(), why);
    }
    bool dense_x(const Dense& d, std::vector<int>* x) const {
        x->clear();
        for (size_t i = 0; i < b.var.size(); i++) {
            int p = b.var[i]->proxy_index(), f = b.var[i]->flat_index();
            if (p >= (int)d.variable_value_proxies.size()) return false;
            x->push_back(d.variable_value_proxies[p].flat_indexed_values(f));
        }
        return true;
    }
    void check_dense(const Dense& d, bool feasible, double obj_min_sign, const char* what) {
        std::vector<int> x;
        if (!dense_x(d, &x)) { fail("C01", fmt("%s: no values although reported", what)); return; }
        std::string why;
        if (!within(x, feasible, &why)) fail("C01", fmt("%s at loop %d: %s", what, calls, why.c_str()));
        double z = ref.objective(x.data()), tv = ref.total_violation(x.data());
        if (std::fabs(d.objective - z) > tol(z)) fail("C01", fmt("%s at loop %d: objective %.12g, recomputed %.12g", what, calls, d.objective, z));
        bool exact = d.is_feasible || (!any_dependent() && m->number_of_constraints() == (int)s->inst.rows.size());
        if (exact ? std::fabs(d.total_violation - tv) > tol(tv) : d.total_violation < tv - tol(tv)) fail("C01", fmt("%s at loop %d: total violation %.12g, recomputed %.12g", what, calls, d.total_violation, tv));
        if (feasible) {
            if (!d.is_feasible || tv > 1e-4) fail("C01", fmt("%s at loop %d: declared feasible, flag %d, recomputed violation %.12g", what, calls, (int)d.is_feasible, tv));
            double zm = ref.min_objective(x.data());
            if (std::fabs(zm - obj_min_sign) > tol(zm)) fail("C01", fmt("%s at loop %d: recorded incumbent value %.12g, solution has %.12g", what, calls, obj_min_sign, zm));
        }
    }
    // values the library maintains incrementally against re-evaluation
    bool consistent(std::string* msg) const {
        if (in_mps_obj() ) {
            double v = m->objective().value(), e = m->objective().expression().evaluate();
            if (!(std::fabs(v - e) <= 1e-5 * (1 + std::fabs(e)))) { *msg = fmt("objective value %.12g, re-evaluated %.12g", v, e); return false; }
        }
        for (size_t i = 0; i < b.row.size(); i++) {
            Cons* c = b.row[i];
            if (!c->is_enabled()) continue;
            double v = c->constraint_value(), e = c->expression().evaluate();
            double d = std::fabs(v - e);
            if (!(d <= 1e-5 * (1 + std::fabs(e)))) { *msg = fmt("constraint %zu value %.12g, re-evaluated %.12g", i, v, e); return false; }
            using CS = printemps::model_component::ConstraintSense;
            double w = c->sense() == CS::Equal ? std::fabs(e) : c->sense() == CS::Less ? std::max(e, 0.0) : std::max(-e, 0.0);
            if (std::fabs(c->violation_value() - w) > 1e-5 * (1 + w)) { *msg = fmt("constraint %zu violation %.12g, re-evaluated %.12g", i, c->violation_value(), w); return false; }
        }
        return true;
    }
    bool in_mps_obj() const { return m->is_defined_objective(); }

    void observe() {
        if (!in_search) return;
        seen++;
        std::vector<int> x;
        current(&x);
        std::string msg;
        bool bad = !consistent(&msg);
        bool eq = x == prev_x;
        // Between two loops the bounds may have moved the variables without an
        // update; within a loop a deviation persists from one move to the next.
        if (eq && bad && prev_bad && msg == prev_msg) {
            if (!bad_x.empty() && bad_x != x && bad_calls == calls) fail("C14", fmt("at loop %d: %s", calls, msg.c_str()));
            bad_x = x;
            bad_calls = calls;
        } else if (eq && !bad) bad_x.clear();
        if (eq) {
            same++;
            if (same == 1) {
                states++;
                if (!have_start) { have_start = true; start_x = x; last_state_calls = calls; }
                struct Mark { int* p; int v; ~Mark() { *p = v; } } mark{&last_state_calls, calls};
                if (best_seen <= target + 1e-9) after_target++;
                for (int v : x) traj = (traj ^ (uint64_t)(v + 7)) * 1099511628211ull;
                std::string why;
                if (!within(x, false, &why)) {
                    if (par(*s, "loose_bounds") == 0) fail("C01", fmt("search state at loop %d: %s", calls, why.c_str()));
                } else if (!bad && ref.in_bounds(x.data()) && ref.total_violation(x.data()) <= 1e-6) {
                    // (a state produced by tightened bounds alone is not evaluated yet)
                    feasible_seen++;
                    double z = ref.min_objective(x.data());
                    if (z < best_seen) { best_seen = z; best_seen_x = x; }
                    // reached by a step of a search, not where a search started
                    if (have_start && calls == last_state_calls && x != start_x && visited.size() < 4000) visited.insert(x);
                }
            }
        } else same = 0;
        prev_x = x;
        prev_bad = bad;
        prev_msg = msg;
    }

    void callback(Option* o, Holder* h) {
        calls++;
        Snap sn;
        sn.time = sim::now() - start;
        sn.work = sim::stats().work;
        sn.found = h->is_found_feasible_solution();
        sn.feas_obj = h->feasible_incumbent_objective();
        sn.aug_obj = h->global_augmented_incumbent_objective();
        sn.dual = h->dual_bound();
        sn.opt_time_max = o->general.time_max;
        std::vector<int> x;
        auto hash_x = [&]() { uint64_t q = 1469598103934665603ull; for (int v : x) q = (q ^ (uint64_t)(v + 1000)) * 1099511628211ull; return q; };
        auto ga = h->global_augmented_incumbent_solution();
        if (dense_x(ga, &x)) { sn.aug_hash = hash_x(); sn.ga_obj = ref.min_objective(x.data()); sn.ga_viol = ref.total_violation(x.data()); }
        check_dense(ga, false, 0, "augmented incumbent");
        if (sn.found) {
            auto fs = h->feasible_incumbent_solution();
            if (dense_x(fs, &x)) sn.feas_hash = hash_x();
            check_dense(fs, true, sn.feas_obj, "feasible incumbent");
            if (best_seen < sn.feas_obj - 1e-4) fail("C05", fmt("loop %d: a feasible solution of value %.12g was visited, incumbent has %.12g", calls, best_seen, sn.feas_obj));
        }
        if (last_found && !sn.found) fail("C05", fmt("loop %d: the feasible incumbent disappeared", calls));
        if (last_found && sn.feas_obj > last_feas + 1e-9) fail("C05", fmt("loop %d: feasible incumbent went from %.12g to %.12g", calls, last_feas, sn.feas_obj));
        if (sn.aug_obj > last_aug + 1e-9) fail("C05", fmt("loop %d: augmented incumbent went from %.12g to %.12g", calls, last_aug, sn.aug_obj));
        last_found = sn.found; last_feas = sn.feas_obj; last_aug = sn.aug_obj;
        if (best.done) check_bounds(h);
        r->snaps.push_back(sn);
    }
    void check_bounds(Holder* h) {
        if (!best.feasible) {
            if (h->is_found_feasible_solution()) fail("C12", "a feasible solution of an infeasible model");
            return;
        }
        if (h->is_found_feasible_solution() && h->feasible_incumbent_objective() < best.best - 1e-4)
            fail("C12", fmt("incumbent %.12g better than the optimum %.12g", h->feasible_incumbent_objective(), best.best));
        if (s->inst.osense != 0) {
            double d = h->dual_bound(), z = s->inst.osense < 0 ? -best.best : best.best;
            if (s->inst.osense > 0 ? d > z + 1e-4 : d < z - 1e-4)
                fail("C12", fmt("loop %d: dual bound %.12g, optimum %.12g (%s)", calls, d, z, s->inst.osense > 0 ? "minimise" : "maximise"));
        }
        // the optimum stays reachable until it has been found
        if (h->is_found_feasible_solution() && h->feasible_incumbent_objective() < best.best + 1e-4) return;
        std::vector<int> lb, ub;
        bool changed = false;
        using VS = printemps::model_component::VariableSense;
        for (size_t i = 0; i < b.var.size(); i++) {
            VarT* v = b.var[i];
            const Var& w = s->inst.v[i];
            int l = w.fixed ? w.fixv : w.lb, u = w.fixed ? w.fixv : w.ub;
            if (v->sense() != VS::DependentBinary && v->sense() != VS::DependentInteger) {
                int L = v->is_fixed() ? v->value() : v->lower_bound(), U = v->is_fixed() ? v->value() : v->upper_bound();
                if (L > l || U < u) changed = true;
                l = std::max(l, L);
                u = std::min(u, U);
            }
            lb.push_back(l); ub.push_back(u);
        }
        if (!changed) return;
        uint64_t q = 1469598103934665603ull;
        for (int v : lb) q = (q ^ (uint64_t)(v + 1000)) * 1099511628211ull;
        for (int v : ub) q = (q ^ (uint64_t)(v + 1000)) * 1099511628211ull;
        if (q == last_box) return;
        last_box = q;
        Brute c = brute_force(ref, lb, ub, 2e6);
        if (!c.done) return;
        boxes++;
        if (!c.feasible || c.best > best.best + 1e-4)
            fail("C12", fmt("loop %d: variable bounds exclude every optimal solution (optimum %.12g, within bounds %s, incumbent %s%.12g)", calls,
                            best.best, c.feasible ? fmt("%.12g", c.best).c_str() : "none", h->is_found_feasible_solution() ? "" : "none ", h->feasible_incumbent_objective()));
    }
    uint64_t last_box = 0, boxes = 0;
};

static Watch* g_watch = nullptr;
static void hook(void* p) { ((Watch*)p)->observe(); }

struct Stop { int k; };   // thrown by a user callback

static void user_moves(Watch* w, std::vector<MoveT>* mv) {
    Paused pz;
    w->user_calls++;
    mv->clear();
    size_t n = w->b.var.size();
    if (n < 2) return;
    using VS = printemps::model_component::VariableSense;
    auto dependent = [](VarT* v) { return v->sense() == VS::DependentBinary || v->sense() == VS::DependentInteger; };
    for (size_t k = 0; k < 3; k++) {
        size_t i = (w->user_calls * 3 + k) % n, j = (i + 1 + k) % n;
        if (dependent(w->b.var[i]) || dependent(w->b.var[j])) continue;
        MoveT q;
        q.alterations.emplace_back(w->b.var[i], w->b.var[i]->value() < w->b.var[i]->upper_bound() ? w->b.var[i]->value() + 1 : w->b.var[i]->lower_bound());
        if (i != j) q.alterations.emplace_back(w->b.var[j], w->b.var[j]->value() > w->b.var[j]->lower_bound() ? w->b.var[j]->value() - 1 : w->b.var[j]->upper_bound());
        // as every move generator of the library does
        for (auto& a : q.alterations)
            q.related_constraint_ptrs.insert(q.related_constraint_ptrs.end(), a.first->related_constraint_ptrs().begin(), a.first->related_constraint_ptrs().end());
        q.sort_and_unique_related_constraint_ptrs();
        mv->push_back(q);
    }
}

static std::string exception_text(const std::exception& e) {
    int         st = 0;
    char*       n  = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string t  = n ? n : typeid(e).name();
    free(n);
    std::string w = e.what();
    size_t p = w.find_last_of(':');
    (void)p;
    return "exception:" + t + ":" + w.substr(0, 300);
}

/*****************************************************************************/
// One solve through the library
/*****************************************************************************/
static void solve_guard(const Scenario& s, Record* r, bool nested);
static void solve_lib(const Scenario& s, Record* r, bool nested) {
    OwnHeap oh((int)par(s, "heap"));
    std::unique_ptr<Watch> wp;
    {
        Paused pz;
        wp.reset(new Watch);
    }
    Watch& w = *wp;
    {
        Paused pz;
        w.s = &s; w.r = r;
        w.ref.init(s.inst);
        if (par(s, "brute")) {
            std::vector<int> lb, ub;
            for (auto& v : s.inst.v) { lb.push_back(v.fixed ? v.fixv : v.lb); ub.push_back(v.fixed ? v.fixv : v.ub); }
            w.best = brute_force(w.ref, lb, ub, 3e6);
            r->num["brute_done"] = w.best.done;
            r->num["brute_feasible"] = w.best.feasible;
            r->num["brute_best"] = w.best.best;
        }
    }
    Option opt;
    Model  m;
    w.m = &m;
    printemps::utility::TimeKeeper tk;
    double t_begin = sim::now();
    bool   user_tk = par(s, "time_keeper") != 0;
    if (user_tk) tk.set_start_time();
    if (s.path == "mps") {
        { Paused pz; std::ofstream f("m.mps"); f << mps_text(s.inst); f.close();
          if (par(s, "option_file")) { std::ofstream g("opt.json"); g << option_json(s.opt); } }
        printemps::mps::MPS mps("m.mps");
        m.import_mps(mps, par(s, "continuous") != 0);
        if (par(s, "option_file")) opt.setup("opt.json");
        else set_option(&opt, s.opt);
        Paused pz;
        std::map<std::string, VarT*> byname;
        std::map<std::string, Cons*> rowname;
        for (auto& p : m.variable_proxies()) for (auto& v : p.flat_indexed_variables()) byname[v.name()] = &v;
        for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) rowname[c.name()] = &c;
        bool miss = false;
        for (size_t i = 0; i < s.inst.v.size(); i++) { VarT* v = byname[var_name(s.inst, i)]; if (!v) miss = true; w.b.var.push_back(v); }
        for (size_t i = 0; i < s.inst.rows.size(); i++) { Cons* c = rowname[fmt("R%zu", i)]; if (!c) miss = true; w.b.row.push_back(c); }
        if (miss || byname.size() != s.inst.v.size()) { r->end = "bad-import"; return; }
        if (!s.inst.planted.empty())
            for (size_t i = 0; i < s.inst.v.size(); i++)
                if (s.inst.v[i].has_init && !s.inst.v[i].fixed) w.b.var[i]->set_value_force(s.inst.v[i].init);
    } else {
        set_option(&opt, s.opt);
        build_api(s, &m, &w.b);
        m.set_name("sim");
    }
    if (s.spar.count("dump_option")) { Paused pz; r->str["option"] = dump_option(opt); }
    if (par(s, "two_flip")) {
        Paused pz;
        size_t n = w.b.var.size();
        std::vector<std::pair<std::string, std::string>> pairs;
        if (s.path != "mps") for (size_t i = 0; i < n; i++) w.b.var[i]->set_name(var_name(s.inst, i));
        for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++)
            if (s.inst.v[i].lb == 0 && s.inst.v[i].ub == 1 && s.inst.v[j].lb == 0 && s.inst.v[j].ub == 1 && !s.inst.v[i].fixed && !s.inst.v[j].fixed && (i * 7 + j) % 3 == 0)
                pairs.push_back({var_name(s.inst, i), var_name(s.inst, j)});
        m.setup_flippable_variable_ptr_pairs(pairs);
    }
    if (par(s, "user_move"))
        m.neighborhood().user_defined().set_move_updater([&w](std::vector<MoveT>* mv) { user_moves(&w, mv); });

    Solver sv;
    w.sol = &sv;
    m.set_callback([&](Option* o, Holder* h) {
        int k;
        bool first = false;
        {
            Paused pz;
            w.callback(o, h);
            k = w.calls;
            first = k == (int)par(s, "slow_at", -1);
            if (first) sim::advance(par(s, "slow_by"));
            if (k == (int)par(s, "stop_at", -1)) {
                // what a user does to end a solve early
                o->general.time_max = 0;
            }
        }
        if (k == (int)par(s, "throw_at", -1)) throw Stop{k};
        if (k == (int)par(s, "nest_at", -1) && !nested) {
            OwnHeap oh(0);
            Scenario in;
            Record   rr;
            {
                Paused pz;
                from_text(s.spar.at("nested"), &in);
            }
            sim::set_read_hook(nullptr, nullptr);
            solve_guard(in, &rr, true);
            Paused pz;
            r->str["nested"] = to_text(rr);
            if (par(s, "observe")) sim::set_read_hook(hook, &w);
        }
    });
    if (user_tk) sv.setup(&m, opt, tk);
    else sv.setup(&m, opt);
    if (!nested) {
        w.start = user_tk ? t_begin : sim::now();
        sim::stats().work_at_deadline = 0;
        if (par(s, "deadline", -1) >= 0) sim::set_deadline(w.start + par(s, "deadline"));
        r->num["work_at_start"] = (double)sim::stats().work;
        sim::reset_gaps();
        if (s.opt.count("general.target_objective_value")) w.target = (s.inst.osense < 0 ? -1.0 : 1.0) * s.opt.at("general.target_objective_value");
        if (par(s, "team_probe")) sim::set_team_probe(true);
        if (par(s, "observe")) {
            Paused pz;
            w.in_search = true;
            sim::set_read_hook(hook, &w);
        }
    }
    // the observer becomes active once the model has been set up: the initial
    // incumbent exists
    auto finish = [&]() { if (!nested) sim::set_read_hook(nullptr, nullptr); };
    printemps::solver::Result<int, double> res;
    try {
        res = sv.solve();
    } catch (const Stop& e) {
        finish();
        Paused pz;
        r->end = fmt("stopped:%d", e.k);
        return;
    } catch (...) {
        finish();
        throw;
    }
    finish();
    Paused pz;
    sim::set_team_probe(false);
    r->num["end_time"] = sim::now() - w.start;
    r->num["work_at_end"] = (double)sim::stats().work;
    const auto& so = res.solution;
    if (s.path == "mps") {
        // by position within the imported proxies
        for (auto* v : w.b.var) r->x.push_back(so.variables(m.variable_names()[v->proxy_index()]).flat_indexed_values(v->flat_index()));
        for (auto* c : w.b.row) {
            r->cons.push_back(so.constraints(m.constraint_names()[c->proxy_index()]).flat_indexed_values(c->flat_index()));
            r->viol.push_back(so.violations(m.constraint_names()[c->proxy_index()]).flat_indexed_values(c->flat_index()));
        }
    } else {
        for (auto& g : s.inst.vg)
            for (int i = 0; i < g.n; i++) r->x.push_back(so.variables(g.name).flat_indexed_values(i));
        for (size_t i = 0; i < s.inst.ex.size(); i++) r->ex.push_back(so.expressions("e").flat_indexed_values((int)i));
        for (size_t g = 0; g < s.inst.rgroups.size(); g++)
            for (int i = 0; i < s.inst.rgroups[g]; i++) {
                r->cons.push_back(so.constraints(fmt("g%zu", g)).flat_indexed_values(i));
                r->viol.push_back(so.violations(fmt("g%zu", g)).flat_indexed_values(i));
            }
    }
    {
        std::string t;
        for (size_t i = 0; i < w.b.var.size(); i++) if (w.dependent(i)) t += fmt("%zu ", i);
        if (!t.empty()) r->str["dependent"] = t;
    }
    r->objective = so.objective();
    r->total_violation = so.total_violation();
    r->is_feasible = so.is_feasible();
    const auto& st = res.status;
    r->num["st.loops"] = st.number_of_tabu_search_loops;
    r->num["st.iterations"] = (double)st.number_of_tabu_search_iterations;
    r->num["st.evaluated"] = (double)st.number_of_evaluated_moves;
    r->num["st.local"] = st.number_of_local_search_iterations;
    r->num["st.lagrange"] = st.number_of_lagrange_dual_iterations;
    r->num["st.elapsed"] = st.elapsed_time;
    r->num["st.found"] = st.is_found_feasible_solution;
    r->num["st.nvar"] = st.number_of_variables;
    r->num["st.ncons"] = st.number_of_constraints;
    r->num["st.thr_update"] = st.averaged_number_of_threads_move_update;
    r->num["st.thr_eval"] = st.averaged_number_of_threads_move_evaluation;
    r->num["st.speed"] = st.averaged_inner_iteration_speed;
    const auto& gs = sv.global_state();
    auto& ih = gs.incumbent_holder;
    r->num["inc.found"] = ih.is_found_feasible_solution();
    r->num["inc.feas"] = ih.feasible_incumbent_objective();
    r->num["inc.aug"] = ih.global_augmented_incumbent_objective();
    r->num["inc.dual"] = ih.dual_bound();
    r->num["calls"] = w.calls;
    r->num["user_calls"] = (double)w.user_calls;
    {
        std::string t;
        for (auto& p : st.update_counts) { std::string q = p.first; for (auto v : p.second.flat_indexed_values()) q += fmt(" %ld", (long)v); t += q + "\n"; }
        std::vector<std::string> lines;
        std::istringstream is(t);
        std::string l;
        while (std::getline(is, l)) lines.push_back(l);
        std::sort(lines.begin(), lines.end());
        t.clear();
        for (auto& q : lines) t += q + "\n";
        r->str["update_counts"] = t;
        t.clear(); lines.clear();
        for (auto& p : st.violation_counts) { std::string q = p.first; for (auto v : p.second.flat_indexed_values()) q += fmt(" %ld", (long)v); lines.push_back(q); }
        for (auto& p : st.penalty_coefficients) { std::string q = "pen " + p.first; for (auto v : p.second.flat_indexed_values()) q += fmt(" %.17g", (double)v); lines.push_back(q); }
        std::sort(lines.begin(), lines.end());
        for (auto& q : lines) t += q + "\n";
        r->str["violation_counts"] = t;
    }
    for (auto& a : res.feasible_solution_archive.solutions()) {
        ArcSol q;
        q.objective = a.objective;
        q.total_violation = a.total_violation;
        q.is_feasible = a.is_feasible;
        for (size_t i = 0; i < w.b.var.size(); i++) {
            auto it = a.variables.find(w.b.var[i]->name());
            q.x.push_back(it == a.variables.end() ? 0 : it->second);
        }
        r->archive.push_back(q);
    }
    // every visited feasible solution is accounted for
    if (par(s, "observe")) {
        if (w.best_seen < 1e299) {
            if (!r->is_feasible) w.fail("C05", fmt("a feasible solution of value %.12g was visited but the result is infeasible", w.best_seen));
            else if (w.ref.min_objective(r->x.data()) > w.best_seen + 1e-4)
                w.fail("C05", fmt("a feasible solution of value %.12g was visited, the result has %.12g", w.best_seen, w.ref.min_objective(r->x.data())));
        }
        if (opt.output.is_enabled_store_feasible_solutions && par(s, "archive_all") && !opt.tabu_search.is_enabled_initial_modification) {
            std::set<std::vector<int>> in;
            for (auto& a : r->archive) in.insert(a.x);
            int cap = opt.output.feasible_solutions_capacity;
            double worst = -1e300;
            for (auto& a : r->archive) worst = std::max(worst, w.ref.min_objective(a.x.data()));
            bool full = cap > 0 && (int)r->archive.size() >= cap;
            for (auto& x : w.visited) {
                if (in.count(x)) continue;
                if (full && w.ref.min_objective(x.data()) >= worst - 1e-6) continue;
                std::string xs;
                for (int v : x) xs += fmt(" %d", v);
                w.fail("C07", fmt("visited feasible solution (value %.12g) is missing from the archive of %zu (capacity %d):%s", w.ref.min_objective(x.data()), r->archive.size(), cap, xs.c_str()));
                break;
            }
        }
        r->num["obs.reads"] = (double)w.seen;
        r->num["obs.states"] = (double)w.states;
        r->num["obs.after_target"] = (double)w.after_target;
        r->num["obs.feasible"] = (double)w.feasible_seen;
        r->num["obs.visited"] = (double)w.visited.size();
        r->str["obs.traj"] = fmt("%016llx", (unsigned long long)w.traj);
    }
    r->num["boxes"] = (double)w.boxes;
    if (w.best.done) {
        // final checks against the exhaustive optimum
        if (r->is_feasible && (!w.best.feasible || w.ref.min_objective(r->x.data()) < w.best.best - 1e-4))
            w.fail("C12", fmt("result %.12g is better than the optimum", w.ref.min_objective(r->x.data())));
    }
    if (par(s, "export")) {
        // exported copies of the model and the solution
        sim::pause(true);
        so.write_json_by_name("s.json");
        so.write_solution("s.sol");
        res.status.write_json_by_name("st.json");
        res.feasible_solution_archive.write_solutions_json("arc.json");
        m.write_json("model.json");
        m.write_mps("model.mps");
        sim::pause(false);
    }
    r->end = "ok";
}

/*****************************************************************************/
static void run_app(const Scenario& s, Record* r) {
    std::vector<std::string> args;
    {
        Paused pz;
        args.push_back("mps_solver");
        std::istringstream is(s.spar.count("args") ? s.spar.at("args") : "");
        std::string a;
        while (std::getline(is, a)) args.push_back(a);
    }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back((char*)a.c_str());
    argv.push_back(nullptr);
    double t0 = sim::now();
    if (par(s, "deadline", -1) >= 0) sim::set_deadline(t0 + par(s, "deadline"));
    {
        printemps::standalone::MPSSolver app((int)args.size(), argv.data());
        r->num["work_at_start"] = (double)sim::stats().work;
        r->num["setup_reads"] = (double)sim::stats().io_reads;
        r->num["setup_opens"] = (double)sim::stats().io_opens;
        app.run();
    }
    Paused pz;
    r->num["end_time"] = sim::now() - t0;
    r->num["work_at_end"] = (double)sim::stats().work;
    r->end = "ok";
}

static void read_dir(Record* r) {
    DIR* d = opendir(".");
    if (!d) return;
    std::vector<std::string> names;
    while (auto* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::ifstream f(n);
        std::stringstream ss;
        ss << f.rdbuf();
        r->files[n] = ss.str();
    }
}

struct Two { const Scenario* s; Record* r; };
static void solve_guard(const Scenario& s, Record* r, bool nested) {
    try {
        if (s.path == "app") run_app(s, r);
        else solve_lib(s, r, nested);
    } catch (const std::exception& e) {
        Paused pz;
        r->end = exception_text(e);
    } catch (...) {
        Paused pz;
        r->end = "exception:unknown";
    }
}
static void pair_body(void* p) {
    // two user threads, each solving its own model
    Two* t = (Two*)p;
    int  k = sim::user_thread();
    solve_guard(t[k].s[0], t[k].r, true);
}
static void main_body(void* p) {
    Two* t = (Two*)p;
    const Scenario& s = *t->s;
    if (s.spar.count("second")) {
        Scenario b;
        Record   rb;
        { Paused pz; from_text(s.spar.at("second"), &b); }
        if (par(s, "pair_mode") == 2) {   // one after the other
            solve_guard(b, &rb, true);
            solve_guard(s, t->r, true);
        } else if (par(s, "pair_mode") == 1) {
            solve_guard(s, t->r, true);
            solve_guard(b, &rb, true);
        } else {
            Two tt[2] = {{&s, t->r}, {&b, &rb}};
            sim::parallel(pair_body, tt, 2);
        }
        Paused pz;
        t->r->str["second"] = to_text(rb);
        return;
    }
    solve_guard(s, t->r, false);
}

void target_run(const Scenario& s, Record* r) {
    for (auto& p : s.spar)
        if (p.first.rfind("file:", 0) == 0) { std::ofstream f(p.first.substr(5)); f << p.second; }
    Two t{&s, r};
    sim::start(s.sim);
    sim::run_main(main_body, &t);
    sim::stop();
    r->st = sim::stats();
    r->sched = sim::recorded();
    r->races = sim::race_list();
    if (par(s, "collect") || s.path == "app") read_dir(r);
}
}  // namespace vp
