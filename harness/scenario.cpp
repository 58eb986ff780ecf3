// Scenario text form, reference evaluation, exhaustive reference optimum and
// generators.  Independent of the code under test.
#include "scenario.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace vp {
std::string fmt(const char* f, ...) {
    char    buf[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    return buf;
}
uint64_t hash_str(const std::string& s, uint64_t h) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
static std::string num(double d) {
    if (d == std::floor(d) && std::fabs(d) < 1e15) return fmt("%.0f", d);
    return fmt("%.17g", d);
}

/*****************************************************************************/
static void put_lin(std::string& o, const Lin& l) {
    o += fmt(" %zu", l.t.size());
    for (auto& t : l.t) o += fmt(" %d:%s", t.first, num(t.second).c_str());
    o += fmt(" %zu", l.e.size());
    for (auto& t : l.e) o += fmt(" %d:%s", t.first, num(t.second).c_str());
    o += " " + num(l.c);
}
static void get_terms(std::istringstream& is, std::vector<Term>* v) {
    size_t n = 0;
    is >> n;
    v->clear();
    for (size_t i = 0; i < n && is; i++) {
        std::string s;
        is >> s;
        size_t p = s.find(':');
        if (p == std::string::npos) return;
        v->push_back({atoi(s.substr(0, p).c_str()), strtod(s.c_str() + p + 1, nullptr)});
    }
}
static double get_num(std::istringstream& is) {
    std::string s;
    is >> s;
    return strtod(s.c_str(), nullptr);
}
static void get_lin(std::istringstream& is, Lin* l) {
    get_terms(is, &l->t);
    get_terms(is, &l->e);
    l->c = get_num(is);
}
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c <= 32 || c >= 127 || c == '%') o += fmt("%%%02x", c);
        else o += (char)c;
    }
    return o.empty() ? "%" : o;
}
static std::string unesc(const std::string& s) {
    std::string o;
    if (s == "%") return o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) {
            o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else o += s[i];
    }
    return o;
}

std::string to_text(const Scenario& s) {
    std::string o = "simscenario 1\n";
    o += "property " + s.property + "\n";
    o += fmt("seed %llu\n", (unsigned long long)s.seed);
    o += "path " + s.path + "\n";
    for (auto& g : s.inst.vg) {
        o += fmt("vargroup %s %d %d %zu", g.name.c_str(), g.first, g.n, g.dims.size());
        for (int d : g.dims) o += fmt(" %d", d);
        o += "\n";
    }
    for (auto& v : s.inst.v)
        o += fmt("var %d %d %d %d %d %d\n", v.lb, v.ub, v.has_init, v.init, v.fixed, v.fixv);
    for (auto& e : s.inst.ex) { o += "expr"; put_lin(o, e); o += "\n"; }
    for (auto& r : s.inst.rows) {
        o += fmt("row %d %s %d %d %d", r.sense, num(r.rhs).c_str(), r.form, r.sel_group, r.sel_index);
        put_lin(o, r.lin);
        o += "\n";
    }
    o += fmt("rowgroups %zu", s.inst.rgroups.size());
    for (int k : s.inst.rgroups) o += fmt(" %d", k);
    o += "\n";
    o += fmt("objective %d", s.inst.osense);
    put_lin(o, s.inst.obj);
    o += "\n";
    o += fmt("planted %zu", s.inst.planted.size());
    for (int k : s.inst.planted) o += fmt(" %d", k);
    o += "\n";
    for (auto& p : s.opt) o += "opt " + p.first + " " + num(p.second) + "\n";
    for (auto& p : s.par) o += "par " + p.first + " " + num(p.second) + "\n";
    for (auto& p : s.spar) o += "spar " + p.first + " " + esc(p.second) + "\n";
    const auto& c = s.sim;
    o += fmt("sim threads %d mode %d seed %llu gap %.17g stall %d limit %llu heap %llu chunk %d\n",
             c.max_threads, c.sched_mode, (unsigned long long)c.sched_seed, c.sched_gap,
             c.stall_tid, (unsigned long long)c.sched_limit, (unsigned long long)c.heap_seed, c.io_chunk);
    o += fmt("clock %.17g %.17g %.17g budget %llu\n", c.clock_base, c.sec_per_unit, c.sec_per_read,
             (unsigned long long)c.work_budget);
    for (auto& j : c.jumps) o += fmt("jump %d %llu %.17g\n", j.on, (unsigned long long)j.at, j.delta);
    for (auto& f : c.io_faults)
        o += fmt("iofault %s %llu %ld\n", sim::IO_KIND_NAMES[f.kind], (unsigned long long)f.op, f.arg);
    for (auto& p : c.sched_list) o += fmt("preempt %llu %d\n", (unsigned long long)p.at, p.to);
    return o;
}

bool from_text(const std::string& text, Scenario* s) {
    *s = Scenario();
    std::istringstream in(text);
    std::string        line;
    bool               head = false;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string        k;
        is >> k;
        if (k.empty() || k[0] == '#') continue;
        if (k == "simscenario") { head = true; continue; }
        if (k == "property") is >> s->property;
        else if (k == "seed") is >> s->seed;
        else if (k == "path") is >> s->path;
        else if (k == "vargroup") {
            VarGroup g; size_t n = 0;
            is >> g.name >> g.first >> g.n >> n;
            for (size_t i = 0; i < n; i++) { int d; is >> d; g.dims.push_back(d); }
            s->inst.vg.push_back(g);
        } else if (k == "var") {
            Var v;
            is >> v.lb >> v.ub >> v.has_init >> v.init >> v.fixed >> v.fixv;
            s->inst.v.push_back(v);
        } else if (k == "expr") { Lin l; get_lin(is, &l); s->inst.ex.push_back(l); }
        else if (k == "row") {
            Row r;
            is >> r.sense; r.rhs = get_num(is);
            is >> r.form >> r.sel_group >> r.sel_index;
            get_lin(is, &r.lin);
            s->inst.rows.push_back(r);
        } else if (k == "rowgroups") {
            size_t n = 0; is >> n;
            for (size_t i = 0; i < n; i++) { int d; is >> d; s->inst.rgroups.push_back(d); }
        } else if (k == "objective") { is >> s->inst.osense; get_lin(is, &s->inst.obj); }
        else if (k == "planted") {
            size_t n = 0; is >> n;
            for (size_t i = 0; i < n; i++) { int d; is >> d; s->inst.planted.push_back(d); }
        } else if (k == "opt") { std::string n; is >> n; s->opt[n] = get_num(is); }
        else if (k == "par") { std::string n; is >> n; s->par[n] = get_num(is); }
        else if (k == "spar") { std::string n, v; is >> n >> v; s->spar[n] = unesc(v); }
        else if (k == "sim") {
            std::string t; unsigned long long a;
            is >> t >> s->sim.max_threads >> t >> s->sim.sched_mode >> t >> a; s->sim.sched_seed = a;
            is >> t; s->sim.sched_gap = get_num(is);
            is >> t >> s->sim.stall_tid >> t >> a; s->sim.sched_limit = a;
            is >> t >> a; s->sim.heap_seed = a;
            is >> t >> s->sim.io_chunk;
        } else if (k == "clock") {
            std::string t; unsigned long long a;
            s->sim.clock_base = get_num(is); s->sim.sec_per_unit = get_num(is); s->sim.sec_per_read = get_num(is);
            is >> t >> a; s->sim.work_budget = a;
        } else if (k == "jump") {
            sim::ClockJump j; unsigned long long a;
            is >> j.on >> a; j.at = a; j.delta = get_num(is);
            s->sim.jumps.push_back(j);
        } else if (k == "iofault") {
            sim::IoFault f; std::string n; unsigned long long a;
            is >> n >> a >> f.arg; f.op = a; f.kind = -1;
            for (int i = 0; i < sim::IO_KINDS; i++) if (n == sim::IO_KIND_NAMES[i]) f.kind = i;
            if (f.kind >= 0) s->sim.io_faults.push_back(f);
        } else if (k == "preempt") {
            sim::Preempt p; unsigned long long a;
            is >> a >> p.to; p.at = a;
            s->sim.sched_list.push_back(p);
        }
    }
    return head;
}

/*****************************************************************************/
// Record
/*****************************************************************************/
std::string to_text(const Record& r) {
    std::string o;
    o += "end " + esc(r.end) + "\n";
    o += fmt("x %zu", r.x.size());
    for (int v : r.x) o += fmt(" %d", v);
    o += "\n";
    auto dv = [&](const char* n, const std::vector<double>& v) {
        o += fmt("%s %zu", n, v.size());
        for (double d : v) o += fmt(" %a", d);
        o += "\n";
    };
    dv("ex", r.ex); dv("cons", r.cons); dv("viol", r.viol);
    o += fmt("sol %a %a %d\n", r.objective, r.total_violation, (int)r.is_feasible);
    for (auto& p : r.num) o += fmt("num %s %a\n", esc(p.first).c_str(), p.second);
    for (auto& p : r.str) o += "str " + esc(p.first) + " " + esc(p.second) + "\n";
    for (auto& p : r.files) o += "file " + esc(p.first) + " " + esc(p.second) + "\n";
    for (auto& s : r.snaps)
        o += fmt("snap %a %d %a %a %a %llu %llu %llu %a %a %a\n", s.time, (int)s.found, s.feas_obj, s.aug_obj, s.dual,
                 (unsigned long long)s.feas_hash, (unsigned long long)s.aug_hash, (unsigned long long)s.work, s.opt_time_max, s.ga_obj, s.ga_viol);
    for (auto& a : r.archive) {
        o += fmt("arc %a %a %d %zu", a.objective, a.total_violation, (int)a.is_feasible, a.x.size());
        for (int v : a.x) o += fmt(" %d", v);
        o += "\n";
    }
    for (auto& f : r.fails) o += "fail " + f.first + " " + esc(f.second) + "\n";
    for (auto& p : r.sched) o += fmt("pre %llu %d\n", (unsigned long long)p.at, p.to);
    for (auto& c : r.races)
        o += fmt("race %llu %llu %llu %d %d %d %d %llu\n", (unsigned long long)c.addr, (unsigned long long)c.pc1,
                 (unsigned long long)c.pc2, c.tid1, c.tid2, (int)c.write1, (int)c.write2, (unsigned long long)c.region);
    o += "stats";
    const unsigned char* b = (const unsigned char*)&r.st;
    o += " ";
    for (size_t i = 0; i < sizeof(sim::Stats); i++) o += fmt("%02x", b[i]);
    o += "\n";
    o += "done\n";
    return o;
}
bool from_text(const std::string& text, Record* r) {
    *r = Record();
    std::istringstream in(text);
    std::string        line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string        k, a, b;
        is >> k;
        if (k == "done") return true;
        if (k == "end") { is >> a; r->end = unesc(a); }
        else if (k == "x") { size_t n; is >> n; r->x.resize(n); for (auto& v : r->x) is >> v; }
        else if (k == "ex" || k == "cons" || k == "viol") {
            size_t n; is >> n;
            auto& v = k == "ex" ? r->ex : k == "cons" ? r->cons : r->viol;
            v.resize(n);
            for (auto& d : v) d = get_num(is);
        } else if (k == "sol") { r->objective = get_num(is); r->total_violation = get_num(is); int f; is >> f; r->is_feasible = f; }
        else if (k == "num") { is >> a; r->num[unesc(a)] = get_num(is); }
        else if (k == "str") { is >> a >> b; r->str[unesc(a)] = unesc(b); }
        else if (k == "file") { is >> a >> b; r->files[unesc(a)] = unesc(b); }
        else if (k == "snap") {
            Snap s; int f; unsigned long long h1, h2, w;
            s.time = get_num(is); is >> f; s.found = f;
            s.feas_obj = get_num(is); s.aug_obj = get_num(is); s.dual = get_num(is);
            is >> h1 >> h2 >> w; s.feas_hash = h1; s.aug_hash = h2; s.work = w; s.opt_time_max = get_num(is); s.ga_obj = get_num(is); s.ga_viol = get_num(is);
            r->snaps.push_back(s);
        } else if (k == "arc") {
            ArcSol s; int f; size_t n;
            s.objective = get_num(is); s.total_violation = get_num(is); is >> f >> n; s.is_feasible = f;
            s.x.resize(n); for (auto& v : s.x) is >> v;
            r->archive.push_back(s);
        } else if (k == "fail") { is >> a >> b; r->fails.push_back({a, unesc(b)}); }
        else if (k == "pre") { sim::Preempt p; unsigned long long t; is >> t >> p.to; p.at = t; r->sched.push_back(p); }
        else if (k == "race") {
            sim::Race c; unsigned long long q[4]; int w1, w2;
            is >> q[0] >> q[1] >> q[2] >> c.tid1 >> c.tid2 >> w1 >> w2 >> q[3];
            c.addr = q[0]; c.pc1 = q[1]; c.pc2 = q[2]; c.write1 = w1; c.write2 = w2; c.region = q[3];
            r->races.push_back(c);
        } else if (k == "stats") {
            is >> a;
            unsigned char* p = (unsigned char*)&r->st;
            for (size_t i = 0; i < sizeof(sim::Stats) && 2 * i + 1 < a.size(); i++)
                p[i] = (unsigned char)strtol(a.substr(2 * i, 2).c_str(), nullptr, 16);
        }
    }
    return false;
}
uint64_t Record::hash() const {
    Record c = *this;
    return hash_str(to_text(c));
}

/*****************************************************************************/
// Reference evaluation
/*****************************************************************************/
Flat flatten(const Inst& in, const Lin& l) {
    std::map<int, double> m;
    Flat f;
    f.c = l.c;
    for (auto& t : l.t) m[t.first] += t.second;
    for (auto& e : l.e) {
        const Lin& x = in.ex[e.first];
        for (auto& t : x.t) m[t.first] += e.second * t.second;
        f.c += e.second * x.c;
    }
    for (auto& p : m) if (p.second != 0) f.t.push_back(p);
    return f;
}
static double eval(const Flat& f, const int* x) {
    double s = f.c;
    for (auto& t : f.t) s += t.second * x[t.first];
    return s;
}
void Ref::init(const Inst& i) {
    in = &i;
    rows.clear(); ex.clear();
    for (auto& r : i.rows) rows.push_back(flatten(i, r.lin));
    for (auto& e : i.ex) ex.push_back(flatten(i, e));
    obj = flatten(i, i.obj);
}
double Ref::row_value(size_t i, const int* x) const { return eval(rows[i], x) - in->rows[i].rhs; }
double Ref::row_violation(size_t i, const int* x) const {
    double v = row_value(i, x);
    int    s = in->rows[i].sense;
    if (s < 0) return std::max(v, 0.0);
    if (s > 0) return std::max(-v, 0.0);
    return std::fabs(v);
}
double Ref::objective(const int* x) const { return in->osense == 0 ? 0 : eval(obj, x); }
double Ref::total_violation(const int* x) const {
    double s = 0;
    for (size_t i = 0; i < rows.size(); i++) s += row_violation(i, x);
    return s;
}
bool Ref::in_bounds(const int* x, std::string* why) const {
    for (size_t i = 0; i < in->v.size(); i++) {
        const Var& v = in->v[i];
        if (x[i] < v.lb || x[i] > v.ub) {
            if (why) *why = fmt("variable %zu = %d outside [%d,%d]", i, x[i], v.lb, v.ub);
            return false;
        }
        if (v.fixed && x[i] != v.fixv) {
            if (why) *why = fmt("variable %zu = %d although fixed at %d", i, x[i], v.fixv);
            return false;
        }
    }
    return true;
}
double domain_size(const Inst& in) {
    double d = 1;
    for (auto& v : in.v) d *= v.fixed ? 1.0 : (double)v.ub - v.lb + 1;
    return d;
}

namespace {
struct Dfs {
    const Ref* R;
    std::vector<int> lb, ub, x;
    std::vector<std::vector<Term>> col;  // per variable: (row, coef)
    std::vector<double> act;             // fixed part
    std::vector<double> mn, mx;          // remaining activity range
    std::vector<double> oc;              // objective coefficient (min sign)
    std::vector<int>    order;
    double obj = 0, omn = 0;
    double nodes = 0, limit = 0;
    bool   over = false;
    Brute  b;
    double sgn = 1;
    bool row_ok(int r) const {
        double lo = act[r] + mn[r], hi = act[r] + mx[r];
        int s = R->in->rows[r].sense;
        const double E = 1e-7;
        if (s <= 0 && lo > E) return false;
        if (s >= 0 && hi < -E) return false;
        return true;
    }
    void go(size_t d) {
        if (over) return;
        if (++nodes > limit) { over = true; return; }
        if (b.feasible && obj + omn > b.best - 1e-7) return;
        if (d == order.size()) {
            b.feasible = true;
            b.best = obj;
            b.arg = x;
            return;
        }
        int v = order[d];
        double c = oc[v];
        // remove v's range
        for (auto& t : col[v]) {
            double p = t.second * lb[v], q = t.second * ub[v];
            mn[t.first] -= std::min(p, q);
            mx[t.first] -= std::max(p, q);
        }
        double om = std::min(c * lb[v], c * ub[v]);
        omn -= om;
        for (int k = lb[v]; k <= ub[v] && !over; k++) {
            int val = c >= 0 ? k : ub[v] - (k - lb[v]);
            x[v] = val;
            bool ok = true;
            for (auto& t : col[v]) act[t.first] += t.second * val;
            for (auto& t : col[v]) if (!row_ok(t.first)) { ok = false; break; }
            obj += c * val;
            if (ok) go(d + 1);
            obj -= c * val;
            for (auto& t : col[v]) act[t.first] -= t.second * val;
        }
        omn += om;
        for (auto& t : col[v]) {
            double p = t.second * lb[v], q = t.second * ub[v];
            mn[t.first] += std::min(p, q);
            mx[t.first] += std::max(p, q);
        }
    }
};
}  // namespace

Brute brute_force(const Ref& R, const std::vector<int>& lb, const std::vector<int>& ub, double limit) {
    Dfs d;
    d.R = &R;
    d.lb = lb; d.ub = ub;
    size_t n = R.in->v.size(), m = R.rows.size();
    d.x.assign(n, 0);
    d.col.resize(n);
    d.oc.assign(n, 0);
    d.act.resize(m); d.mn.assign(m, 0); d.mx.assign(m, 0);
    for (size_t i = 0; i < n; i++)
        if (lb[i] > ub[i]) { d.b.done = true; return d.b; }
    for (size_t i = 0; i < m; i++) {
        d.act[i] = R.rows[i].c - R.in->rows[i].rhs;
        for (auto& t : R.rows[i].t) {
            d.col[t.first].push_back({(int)i, t.second});
            double p = t.second * lb[t.first], q = t.second * ub[t.first];
            d.mn[i] += std::min(p, q);
            d.mx[i] += std::max(p, q);
        }
    }
    double s = R.in->osense < 0 ? -1.0 : 1.0;
    if (R.in->osense != 0) {
        d.obj = s * R.obj.c;
        for (auto& t : R.obj.t) {
            d.oc[t.first] += s * t.second;
            d.omn += std::min(s * t.second * lb[t.first], s * t.second * ub[t.first]);
        }
    }
    for (size_t i = 0; i < m; i++) if (!d.row_ok(i)) { d.b.done = true; return d.b; }
    for (size_t i = 0; i < n; i++) d.order.push_back(i);
    std::stable_sort(d.order.begin(), d.order.end(), [&](int a, int b) { return d.col[a].size() > d.col[b].size(); });
    d.limit = limit;
    d.go(0);
    d.b.done = !d.over;
    return d.b;
}

/*****************************************************************************/
// Generators
/*****************************************************************************/
static double G(const std::map<std::string, double>& g, const char* k, double d) {
    auto it = g.find(k);
    return it == g.end() ? d : it->second;
}

void gen_instance(sim::Rng& r, Inst* in, const std::map<std::string, double>& g) {
    *in = Inst();
    int  size  = (int)G(g, "size", 1);   // 0 tiny, 1 small, 2 medium
    bool api   = G(g, "api", 1) != 0;
    bool brute = G(g, "brute", 0) != 0;
    int  nb = size == 0 ? r.range(1, 5) : size == 1 ? r.range(3, 14) : r.range(10, 40);
    int  ni = r.chance(0.55) ? (size == 0 ? r.range(1, 2) : size == 1 ? r.range(1, 5) : r.range(2, 12)) : 0;
    int  sr = 0, sc = 0;
    if (r.chance(api ? 0.35 : 0.3)) { sr = size == 2 ? r.range(2, 5) : r.range(1, 3); sc = size == 2 ? r.range(2, 5) : r.range(2, 3); }
    if (ni > 0 && r.chance(0.2)) nb = r.range(0, 2);
    if (brute && nb > 10) nb = 10;
    if (brute && ni > 3) ni = 3;
    auto add_group = [&](const std::string& nm, std::vector<int> dims, int n) {
        VarGroup q; q.name = nm; q.dims = dims; q.first = in->v.size(); q.n = n;
        in->vg.push_back(q);
        for (int i = 0; i < n; i++) in->v.push_back(Var());
        return q.first;
    };
    std::vector<int> bins, ints;
    if (nb > 0) { int f = add_group("x", {nb}, nb); for (int i = 0; i < nb; i++) bins.push_back(f + i); }
    int sel_first = -1, sel_g = -1;
    if (sr > 0) {
        sel_g = in->vg.size();
        sel_first = add_group("y", {sr, sc}, sr * sc);
        for (int i = 0; i < sr * sc; i++) bins.push_back(sel_first + i);
    }
    if (ni > 0) {
        int f = add_group("z", {ni}, ni);
        int span = brute ? r.range(2, 5) : r.range(2, 20);
        for (int i = 0; i < ni; i++) {
            Var& v = in->v[f + i];
            int lo = r.chance(0.3) ? -r.range(1, span) : r.chance(0.2) ? r.range(1, 4) : 0;
            v.lb = lo; v.ub = lo + r.range(2, span);
            if (r.chance(0.1)) { v.lb = -3; v.ub = 3; }
            ints.push_back(f + i);
        }
    }
    bool big = !brute && r.chance(0.08);
    if (r.chance(0.2) || in->v.empty()) {
        int f = add_group("w", {}, 1);
        in->v[f].lb = r.chance(0.3) ? -5 : 0;
        in->v[f].ub = brute ? 6 : big ? 1000 : 30;
        ints.push_back(f);
    }
    int n = in->v.size();
    // planted point
    in->planted.resize(n);
    for (int i = 0; i < n; i++) in->planted[i] = r.range(in->v[i].lb, in->v[i].ub);
    if (r.chance(0.5)) for (int b : bins) if (r.chance(0.6)) in->planted[b] = 0;
    std::vector<int>& x = in->planted;
    if (sr > 0)
        for (int i = 0; i < sr; i++) {
            int k = r.below(sc);
            for (int j = 0; j < sc; j++) x[sel_first + i * sc + j] = j == k;
        }
    // expressions
    if (api && r.chance(0.35)) {
        int ne = r.range(1, 3);
        for (int e = 0; e < ne; e++) {
            Lin l;
            int k = r.range(1, std::min(n, 5));
            std::vector<int> used;
            for (int j = 0; j < k; j++) {
                int v = r.below(n);
                if (std::find(used.begin(), used.end(), v) != used.end()) continue;
                used.push_back(v);
                int c = r.range(-6, 9);
                if (c) l.t.push_back({v, (double)c});
            }
            if (r.chance(0.4)) l.c = r.range(-5, 5);
            in->ex.push_back(l);
        }
    }
    auto lin_val = [&](const Lin& l) { Flat f = flatten(*in, l); return eval(f, x.data()); };
    auto pick_set = [&](const std::vector<int>& pool, int k) {
        std::vector<int> p = pool, o;
        for (int i = 0; i < k && !p.empty(); i++) {
            int j = r.below(p.size());
            o.push_back(p[j]);
            p.erase(p.begin() + j);
        }
        return o;
    };
    std::vector<int> all(n);
    for (int i = 0; i < n; i++) all[i] = i;
    bool frac = r.chance(0.25);
    auto coef = [&](int a, int b) {
        int c = r.range(a, b);
        while (c == 0) c = r.range(a, b);
        double d = c;
        if (frac && r.chance(0.3)) d = c * 0.25;
        return d;
    };
    bool infeasible_ok = G(g, "infeasible", 0.05) > 0 && r.chance(G(g, "infeasible", 0.05));
    auto close_row = [&](Row& w, int sense) {
        w.sense = sense;
        double a = lin_val(w.lin);
        double slack = r.chance(0.4) ? 0 : r.range(0, 8);
        if (infeasible_ok && r.chance(0.2)) slack = -r.range(1, 6);
        w.rhs = sense < 0 ? a + slack : sense > 0 ? a - slack : (infeasible_ok && r.chance(0.1) ? a + r.range(1, 2) : a);
        w.form = r.below(5);
        in->rows.push_back(w);
    };
    if (sr > 0)
        for (int i = 0; i < sr; i++) {
            Row w;
            for (int j = 0; j < sc; j++) w.lin.t.push_back({sel_first + i * sc + j, 1.0});
            w.sense = 0; w.rhs = 1;
            if (api && r.chance(0.8)) { w.sel_group = sel_g; w.sel_index = i; }
            in->rows.push_back(w);
        }
    // swarm: a subset of row templates
    const int NT = 22;
    bool on[NT];
    double pt = r.chance(0.3) ? 0.15 : 0.4;
    for (int i = 0; i < NT; i++) on[i] = r.chance(pt);
    std::vector<int> tl;
    for (int i = 0; i < NT; i++) if (on[i]) tl.push_back(i);
    if (tl.empty()) tl.push_back(r.below(NT));
    int nrows = size == 0 ? r.range(1, 4) : size == 1 ? r.range(2, 10) : r.range(6, 30);
    for (int q = 0; q < nrows; q++) {
        int t = tl[r.below(tl.size())];
        Row w;
        int kb = std::min<int>(bins.size(), r.range(2, size == 2 ? 10 : 6));
        switch (t) {
            case 0: case 1: {  // knapsack
                if (bins.empty()) break;
                for (int v : pick_set(bins, kb)) w.lin.t.push_back({v, coef(1, 12)});
                close_row(w, -1);
                break;
            }
            case 2: {  // covering
                if (bins.empty()) break;
                auto s = pick_set(bins, kb);
                int a = 0; for (int v : s) a += x[v];
                if (a == 0) break;
                for (int v : s) w.lin.t.push_back({v, 1.0});
                w.sense = 1; w.rhs = 1; in->rows.push_back(w);
                if (r.chance(0.3) && s.size() > 2) {   // nested row
                    Row u = w; u.lin.t.push_back({bins[r.below(bins.size())], 1.0});
                    bool dup = false;
                    for (size_t i = 0; i + 1 < u.lin.t.size(); i++) dup |= u.lin.t[i].first == u.lin.t.back().first;
                    if (!dup) in->rows.push_back(u);
                }
                break;
            }
            case 3: {  // packing
                if (bins.empty()) break;
                std::vector<int> s; int one = 0;
                for (int v : pick_set(bins, kb)) { if (x[v]) { if (one) continue; one = 1; } s.push_back(v); }
                if (s.size() < 2) break;
                for (int v : s) w.lin.t.push_back({v, 1.0});
                w.sense = -1; w.rhs = 1; in->rows.push_back(w);
                break;
            }
            case 4: {  // partitioning
                if (bins.empty()) break;
                std::vector<int> s; int one = 0;
                for (int v : pick_set(bins, kb)) { if (x[v]) { if (one) continue; one = 1; } s.push_back(v); }
                if (s.size() < 2 || !one) break;
                for (int v : s) w.lin.t.push_back({v, 1.0});
                w.sense = 0; w.rhs = 1; in->rows.push_back(w);
                break;
            }
            case 5: {  // cardinality
                if (bins.size() < 2) break;
                for (int v : pick_set(bins, kb)) w.lin.t.push_back({v, 1.0});
                w.sense = 0; w.rhs = lin_val(w.lin);
                in->rows.push_back(w);
                break;
            }
            case 6: {  // invariant knapsack / multiple covering
                if (bins.size() < 2) break;
                for (int v : pick_set(bins, kb)) w.lin.t.push_back({v, 1.0});
                close_row(w, r.chance(0.5) ? -1 : 1);
                break;
            }
            case 7: {  // precedence
                auto& p = r.chance(0.6) || ints.size() < 2 ? bins : ints;
                auto s = pick_set(p, 2);
                if (s.size() < 2) break;
                if (x[s[0]] > x[s[1]]) std::swap(s[0], s[1]);
                w.lin.t = {{s[0], 1.0}, {s[1], -1.0}};
                close_row(w, -1);
                break;
            }
            case 8: {  // variable bound
                auto s = pick_set(all, 2);
                if (s.size() < 2) break;
                w.lin.t = {{s[0], coef(-5, 5)}, {s[1], coef(-5, 5)}};
                close_row(w, r.chance(0.5) ? -1 : 1);
                break;
            }
            case 9: {  // exclusive or / nor
                auto s = pick_set(bins, 2);
                if (s.size() < 2) break;
                if (x[s[0]] != x[s[1]]) { w.lin.t = {{s[0], 1.0}, {s[1], 1.0}}; w.rhs = 1; }
                else { w.lin.t = {{s[0], 1.0}, {s[1], -1.0}}; w.rhs = 0; }
                w.sense = 0; in->rows.push_back(w);
                break;
            }
            case 10: {  // integer pairs: sum / difference / inverted / balanced
                auto s = pick_set(ints, 2);
                if (s.size() < 2) break;
                double c = r.chance(0.5) ? 1.0 : -1.0;
                w.lin.t = {{s[0], 1.0}, {s[1], c}};
                w.sense = 0; w.rhs = lin_val(w.lin);
                in->rows.push_back(w);
                break;
            }
            case 11: {  // ratio (a x - b y = 0) when the planted point allows it
                auto s = pick_set(ints, 2);
                if (s.size() < 2 || x[s[0]] == 0 || x[s[1]] == 0) break;
                w.lin.t = {{s[0], (double)x[s[1]]}, {s[1], (double)-x[s[0]]}};
                w.sense = 0; w.rhs = 0; in->rows.push_back(w);
                break;
            }
            case 12: {  // aggregation
                auto s = pick_set(all, 2);
                if (s.size() < 2) break;
                w.lin.t = {{s[0], coef(-4, 4)}, {s[1], coef(-4, 4)}};
                w.sense = 0; w.rhs = lin_val(w.lin); in->rows.push_back(w);
                break;
            }
            case 13: {  // trinomial  x + y - 2z = 0
                auto s = pick_set(bins, 3);
                if (s.size() < 3 || x[s[0]] != x[s[1]] || x[s[0]] != x[s[2]]) break;
                w.lin.t = {{s[0], 1.0}, {s[1], 1.0}, {s[2], -2.0}};
                w.sense = 0; w.rhs = 0; in->rows.push_back(w);
                break;
            }
            case 14: {  // soft selection: sum x = y
                auto s = pick_set(bins, r.range(3, 5));
                if (s.size() < 3) break;
                int a = 0; for (size_t i = 0; i + 1 < s.size(); i++) a += x[s[i]];
                if (a != x[s.back()]) break;
                for (size_t i = 0; i + 1 < s.size(); i++) w.lin.t.push_back({s[i], 1.0});
                w.lin.t.push_back({s.back(), -1.0});
                w.sense = 0; w.rhs = 0; in->rows.push_back(w);
                break;
            }
            case 15: {  // intermediate: z = linear
                if (ints.empty()) break;
                int z = ints[r.below(ints.size())];
                w.lin.t.push_back({z, -1.0});
                for (int v : pick_set(bins.empty() ? all : bins, r.range(2, 5))) if (v != z) w.lin.t.push_back({v, (double)r.range(1, 4)});
                w.sense = 0; w.rhs = lin_val(w.lin); in->rows.push_back(w);
                break;
            }
            case 16: {  // parity: sum x - 2 z = c
                if (ints.empty() || bins.size() < 3) break;
                int z = ints[r.below(ints.size())];
                for (int v : pick_set(bins, r.range(3, 5))) w.lin.t.push_back({v, 1.0});
                w.lin.t.push_back({z, -2.0});
                w.sense = 0; w.rhs = lin_val(w.lin); in->rows.push_back(w);
                break;
            }
            case 17: {  // bin packing
                if (bins.size() < 3) break;
                auto s = pick_set(bins, kb < 3 ? 3 : kb);
                if (!x[s.back()]) break;
                double a = 0;
                for (size_t i = 0; i + 1 < s.size(); i++) { double c = r.range(1, 6); w.lin.t.push_back({s[i], c}); a += c * x[s[i]]; }
                w.lin.t.push_back({s.back(), -(a + r.range(1, 3))});
                w.sense = -1; w.rhs = 0; in->rows.push_back(w);
                break;
            }
            case 18: {  // equality knapsack
                for (int v : pick_set(all, r.range(2, 5))) w.lin.t.push_back({v, (double)r.range(1, 5)});
                w.sense = 0; w.rhs = lin_val(w.lin); in->rows.push_back(w);
                break;
            }
            case 19: {  // single variable row
                int v = r.below(n);
                w.lin.t.push_back({v, coef(-4, 4)});
                close_row(w, r.chance(0.5) ? -1 : 1);
                break;
            }
            case 20: {  // duplicate of an existing row, possibly scaled
                if (in->rows.empty()) break;
                w = in->rows[r.below(in->rows.size())];
                w.sel_group = w.sel_index = -1;
                if (r.chance(0.5)) {
                    double k = r.chance(0.5) ? -1 : 2;
                    for (auto& t : w.lin.t) t.second *= k;
                    for (auto& t : w.lin.e) t.second *= k;
                    w.lin.c *= k; w.rhs *= k;
                    if (k < 0) w.sense = -w.sense;
                }
                in->rows.push_back(w);
                break;
            }
            default: {  // general
                for (int v : pick_set(all, r.range(1, size == 2 ? 10 : 6))) w.lin.t.push_back({v, coef(-9, 9)});
                if (!in->ex.empty() && r.chance(0.5)) w.lin.e.push_back({(int)r.below(in->ex.size()), coef(-3, 3)});
                if (api && r.chance(0.3)) w.lin.c = r.range(-4, 4);
                close_row(w, r.range(-1, 1));
                break;
            }
        }
    }
    // drop rows that became empty (e.g. cancelled terms are kept on purpose)
    std::vector<Row> keep;
    for (auto& w : in->rows) if (!w.lin.t.empty() || !w.lin.e.empty()) keep.push_back(w);
    in->rows = keep;
    if (in->rows.empty()) {
        Row w;
        w.lin.t.push_back({0, 1.0});
        w.sense = -1; w.rhs = in->v[0].ub;
        in->rows.push_back(w);
    }
    // objective
    double u = r.unit();
    in->osense = u < 0.55 ? 1 : u < 0.9 ? -1 : 0;
    if (!api) in->osense = 1;
    if (in->osense != 0 || !api) {
        double dens = r.chance(0.3) ? 0.3 : 0.9;
        bool  pos = r.chance(0.4);
        for (int v = 0; v < n; v++) if (r.chance(dens)) in->obj.t.push_back({v, coef(pos ? 1 : -15, 20)});
        if (in->obj.t.empty()) in->obj.t.push_back({(int)r.below(n), coef(-5, 5)});
        if (!in->ex.empty() && r.chance(0.5)) in->obj.e.push_back({(int)r.below(in->ex.size()), coef(-3, 3)});
        if (api && r.chance(0.3)) in->obj.c = r.range(-50, 50);
    }
    // initial values, fixed variables, bounds
    if (r.chance(0.35))
        for (auto& v : in->v) if (r.chance(0.6)) { v.has_init = true; v.init = r.range(v.lb, v.ub); }
    if (r.chance(0.1)) for (int i = 0; i < n; i++) { in->v[i].has_init = true; in->v[i].init = x[i]; }
    if (r.chance(0.25) && n > 2)
        for (int i = 0; i < n; i++) if (r.chance(0.12)) { in->v[i].fixed = true; in->v[i].fixv = x[i]; in->v[i].has_init = false; }
    // constraint groups
    int left = in->rows.size();
    while (left > 0) { int k = r.chance(0.3) ? 1 : r.range(1, left); in->rgroups.push_back(k); left -= k; }
}

void gen_options(sim::Rng& r, Scenario* s, const std::map<std::string, double>& g) {
    auto& o = s->opt;
    auto B = [&](const char* k, bool d, double p) { if (r.chance(p)) o[k] = !d; };
    double p = r.chance(0.3) ? 0.0 : r.chance(0.5) ? 0.12 : 0.35;
    o["general.iteration_max"] = r.range(1, (int)G(g, "loops", 7));
    o["general.seed"] = r.range(1, 1000);
    o["general.time_max"] = G(g, "time_max", 1e6);
    o["output.verbose"] = 0;
    if (r.chance(G(g, "verbose", 0.08))) o["output.verbose"] = r.range(1, 4);
    o["tabu_search.iteration_max"] = r.chance(0.2) ? r.range(1, 4) : r.range(5, (int)G(g, "iters", 60));
    if (r.chance(0.3)) o["tabu_search.seed"] = r.range(1, 1000);
    if (s->path != "app") B("general.is_enabled_fast_evaluation", true, p * 0.6);
    // neighbourhoods
    const char* on_nb[] = {"binary", "integer", "exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers",
                           "constant_sum_integers", "constant_difference_integers", "constant_ratio_integers", "aggregation", "chain"};
    for (auto* k : on_nb) {
        if (!strcmp(k, "binary") || !strcmp(k, "integer")) { B(fmt("neighborhood.is_enabled_%s_move", k).c_str(), true, p * 0.15); continue; }
        B(fmt("neighborhood.is_enabled_%s_move", k).c_str(), true, p * 0.6);
    }
    double q = r.chance(0.5) ? 0.15 : 0.7;
    const char* off_nb[] = {"precedence", "variable_bound", "trinomial_exclusive_nor", "soft_selection"};
    for (auto* k : off_nb) B(fmt("neighborhood.is_enabled_%s_move", k).c_str(), false, q);
    if (r.chance(0.25)) o["neighborhood.chain_move_capacity"] = r.range(1, 12);
    if (r.chance(0.3)) o["neighborhood.chain_move_reduce_mode"] = r.range(0, 1);
    if (r.chance(0.2)) o["neighborhood.chain_move_overlap_rate_threshold"] = r.range(0, 9) * 0.125;
    if (r.chance(0.6)) o["neighborhood.selection_mode"] = r.range(0, 4);
    if (r.chance(0.5)) o["neighborhood.improvability_screening_mode"] = r.range(0, 4);
    B("neighborhood.is_enabled_integer_step_size_adjuster", false, 0.35);
    // preprocess
    const char* pre[] = {"presolve", "remove_duplicated_constraints", "remove_redundant_set_constraints",
                         "extract_implicit_equality_constraints", "online_bounding"};
    for (auto* k : pre) B(fmt("preprocess.is_enabled_%s", k).c_str(), true, p * 0.7);
    B("preprocess.is_enabled_remove_redundant_set_variables", true, p * 0.7);
    const char* dep[] = {"exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers", "constant_sum_integers",
                         "constant_difference_integers", "constant_ratio_integers", "intermediate"};
    for (auto* k : dep) if (r.chance(0.3)) o[fmt("preprocess.is_enabled_extract_dependent_%s", k)] = r.range(0, 1);
    // penalties, restart, tabu
    if (r.chance(0.3)) o["penalty.penalty_coefficient_relaxing_rate"] = r.range(5, 10) * 0.1;
    if (r.chance(0.3)) o["penalty.penalty_coefficient_tightening_rate"] = r.range(1, 10) * 0.1;
    if (r.chance(0.3)) o["penalty.penalty_coefficient_updating_balance"] = r.range(0, 4) * 0.25;
    if (r.chance(0.25)) { double pc[] = {2, 20, 100, 1e5}; o["penalty.initial_penalty_coefficient"] = pc[r.below(4)]; }
    if (r.chance(0.3)) o["penalty.inner_stagnation_threshold"] = r.range(0, 4);
    if (r.chance(0.3)) o["penalty.outer_stagnation_threshold"] = r.range(0, 4);
    B("penalty.is_enabled_inner_stagnation_breaker", true, p);
    B("penalty.is_enabled_outer_stagnation_breaker", true, p);
    B("penalty.is_enabled_group_penalty_coefficient", false, 0.25);
    B("penalty.is_enabled_shrink_penalty_coefficient", true, p);
    if (r.chance(0.5)) o["restart.restart_mode"] = r.range(0, 1);
    if (r.chance(0.4)) o["tabu_search.initial_tabu_tenure"] = r.range(0, 12);
    if (r.chance(0.3)) o["tabu_search.tabu_mode"] = r.range(0, 1);
    if (r.chance(0.2)) o["tabu_search.tabu_tenure_randomize_rate"] = r.range(0, 10) * 0.05;
    if (r.chance(0.2)) o["tabu_search.initial_modification_fixed_rate"] = r.range(0, 8) * 0.1;
    if (r.chance(0.2)) o["tabu_search.frequency_penalty_coefficient"] = r.range(0, 3) * 0.01;
    if (r.chance(0.2)) o["tabu_search.pruning_rate_threshold"] = r.range(1, 10) * 0.1;
    if (r.chance(0.15)) { o["tabu_search.is_enabled_move_curtail"] = 1; o["tabu_search.move_preserve_rate"] = r.range(3, 10) * 0.1; }
    B("tabu_search.is_enabled_shuffle", true, p * 0.5);
    B("tabu_search.is_enabled_automatic_break", true, p);
    B("tabu_search.is_enabled_automatic_tabu_tenure_adjustment", true, p);
    B("tabu_search.is_enabled_automatic_iteration_adjustment", true, p);
    B("tabu_search.is_enabled_initial_modification", true, p);
    if (r.chance(0.15)) o["tabu_search.intensity_increase_count_threshold"] = r.range(0, 3);
    if (r.chance(0.15)) o["tabu_search.intensity_decrease_count_threshold"] = r.range(0, 3);
    B("tabu_search.ignore_tabu_if_global_incumbent", true, p);
    if (r.chance(0.4)) o["tabu_search.number_of_initial_modification"] = r.range(0, 6);
    // phases
    if (r.chance(0.25)) o["local_search.is_enabled"] = 0;
    o["local_search.iteration_max"] = r.chance(0.3) ? r.range(0, 6) : 200;
    if (r.chance(G(g, "lagrange", 0.15))) { o["lagrange_dual.is_enabled"] = 1; o["lagrange_dual.iteration_max"] = r.range(1, 40); if (r.chance(0.5)) o["lagrange_dual.queue_size"] = r.range(1, 10); }
    if (o.count("lagrange_dual.is_enabled") && r.chance(0.6)) o["tabu_search.lagrangian_penalty_coefficient"] = 0.5;
    if (r.chance(G(g, "pdlp", 0.12))) {
        o["pdlp.is_enabled"] = 1; o["pdlp.iteration_max"] = r.range(1, 60);
        if (r.chance(0.5)) o["pdlp.convergence_check_interval"] = r.range(1, 10);
        if (r.chance(0.5)) o["pdlp.restart_check_interval"] = r.range(1, 10);
    }
    if (r.chance(G(g, "store", 0.2))) { o["output.is_enabled_store_feasible_solutions"] = 1; if (r.chance(0.5)) o["output.feasible_solutions_capacity"] = r.range(1, 12); }
    // parallel
    if (r.chance(0.15)) o["parallel.is_enabled_move_update_parallelization"] = 0;
    if (r.chance(0.15)) o["parallel.is_enabled_move_evaluation_parallelization"] = 0;
    if (r.chance(0.4)) o["parallel.is_enabled_automatic_move_update_parallelization"] = 0;
    if (r.chance(0.4)) o["parallel.is_enabled_automatic_move_evaluation_parallelization"] = 0;
    if (r.chance(0.5)) o["parallel.number_of_threads_move_update"] = r.range(1, 6);
    if (r.chance(0.5)) o["parallel.number_of_threads_move_evaluation"] = r.range(1, 6);
    // user supplied two-flip pairs and user defined moves
    if (r.chance(0.15)) { s->par["two_flip"] = 1; o["neighborhood.is_enabled_two_flip_move"] = 1; }
    if (s->path == "api" && r.chance(0.12)) { s->par["user_move"] = 1; o["neighborhood.is_enabled_user_defined_move"] = 1; }
    if (s->inst.osense != 0 && r.chance(G(g, "target", 0.1))) {
        Ref R; R.init(s->inst);
        double z = R.objective(s->inst.planted.data());
        o["general.target_objective_value"] = z + r.range(-10, 20) * (s->inst.osense < 0 ? -1 : 1);
    }
}

void gen_sim(sim::Rng& r, Scenario* s, const std::map<std::string, double>& g) {
    auto& c = s->sim;
    int   mt = (int)G(g, "max_threads", 6);
    c.max_threads = r.range(1, mt);
    if (r.chance(0.3)) c.max_threads = r.range(2, mt < 2 ? 2 : mt);
    c.sched_mode = r.chance(0.85) ? 1 : 0;
    c.sched_seed = r.next() >> 1;
    double u = r.unit();
    c.sched_gap = u < 0.25 ? r.range(2, 8) : u < 0.7 ? r.range(10, 60) : r.range(100, 1000);
    c.stall_tid = r.chance(0.15) ? (int)r.below(c.max_threads) : -1;
    c.heap_seed = r.chance(0.5) ? 0 : (r.next() >> 1);
    double sp[] = {1e-10, 1e-9, 1e-8, 1e-7, 1e-6};
    c.sec_per_unit = sp[r.below(5)];
    c.sec_per_read = r.chance(0.5) ? 1e-7 : 0;
    c.clock_base = r.chance(0.5) ? 1000.0 : r.range(0, 100000) * 0.5;
    if (r.chance(G(g, "jumps", 0.3))) {
        int k = r.range(1, 3);
        for (int i = 0; i < k; i++) {
            sim::ClockJump j;
            j.on = 0;
            j.at = r.range(1, 400);
            j.delta = r.chance(0.5) ? 1e-3 * r.range(1, 1000) : r.range(1, 50);
            c.jumps.push_back(j);
        }
    }
    c.work_budget = (uint64_t)G(g, "budget", 3e8);
}

/*****************************************************************************/
std::string var_name(const Inst& in, int v) {
    for (auto& g : in.vg)
        if (v >= g.first && v < g.first + g.n) return fmt("%s%d", g.name.c_str(), v - g.first);
    return fmt("v%d", v);
}
std::string mps_text(const Inst& in) {
    Ref R; R.init(in);
    std::string o = "NAME sim\nROWS\n N OBJ\n";
    for (size_t i = 0; i < in.rows.size(); i++)
        o += fmt(" %s R%zu\n", in.rows[i].sense < 0 ? "L" : in.rows[i].sense > 0 ? "G" : "E", i);
    o += "COLUMNS\n MARK0000 'MARKER' 'INTORG'\n";
    size_t n = in.v.size();
    std::vector<double> oc(n, 0);
    for (auto& t : R.obj.t) oc[t.first] = t.second;
    std::vector<std::vector<Term>> col(n);
    for (size_t i = 0; i < R.rows.size(); i++) for (auto& t : R.rows[i].t) col[t.first].push_back({(int)i, t.second});
    for (size_t j = 0; j < n; j++) {
        std::string nm = var_name(in, j);
        o += fmt(" %s OBJ %s\n", nm.c_str(), num(oc[j]).c_str());
        for (auto& t : col[j]) o += fmt(" %s R%d %s\n", nm.c_str(), t.first, num(t.second).c_str());
    }
    o += " MARK0001 'MARKER' 'INTEND'\nRHS\n";
    for (size_t i = 0; i < in.rows.size(); i++) {
        double b = in.rows[i].rhs - R.rows[i].c;
        if (b != 0) o += fmt(" RHS R%zu %s\n", i, num(b).c_str());
    }
    o += "BOUNDS\n";
    for (size_t j = 0; j < n; j++) {
        std::string nm = var_name(in, j);
        if (in.v[j].fixed) o += fmt(" FX BND %s %d\n", nm.c_str(), in.v[j].fixv);
        else {
            o += fmt(" LO BND %s %d\n", nm.c_str(), in.v[j].lb);
            o += fmt(" UP BND %s %d\n", nm.c_str(), in.v[j].ub);
        }
    }
    o += "ENDATA\n";
    return o;
}
static const char* enum_label(const std::string& k, int v) {
    static const char* rm[] = {"Simple", "Smart"};
    static const char* cm[] = {"OverlapRate", "Shuffle"};
    static const char* sm[] = {"Off", "Defined", "Smaller", "Larger", "Independent", "UserDefined"};
    static const char* im[] = {"Off", "Soft", "Aggressive", "Intensive", "Automatic"};
    static const char* vm[] = {"Off", "Warning", "Outer", "Inner", "Full", "Debug"};
    static const char* tm[] = {"All", "Any"};
    if (k == "restart.restart_mode") return rm[v];
    if (k == "neighborhood.chain_move_reduce_mode") return cm[v];
    if (k == "neighborhood.selection_mode") return sm[v];
    if (k == "neighborhood.improvability_screening_mode") return im[v];
    if (k == "output.verbose") return vm[v];
    if (k == "tabu_search.tabu_mode") return tm[v];
    return nullptr;
}
std::string option_json(const std::map<std::string, double>& opt) {
    static std::map<std::string, char> type;
    if (type.empty()) {
#define OPT_B(s, f) type[#s "." #f] = 'B';
#define OPT_I(s, f) type[#s "." #f] = 'I';
#define OPT_D(s, f) type[#s "." #f] = 'D';
#define OPT_E(s, f, e) type[#s "." #f] = 'E';
#include "options.def"
#undef OPT_B
#undef OPT_I
#undef OPT_D
#undef OPT_E
    }
    std::map<std::string, std::vector<std::string>> sec;
    for (auto& p : opt) {
        size_t d = p.first.find('.');
        std::string v;
        char t = type.count(p.first) ? type[p.first] : 'D';
        if (t == 'B') v = p.second != 0 ? "true" : "false";
        else if (t == 'I') v = fmt("%.0f", p.second);
        else if (t == 'E') v = std::string("\"") + enum_label(p.first, (int)p.second) + "\"";
        else {
            v = fmt("%.17g", p.second);
            if (v.find_first_of(".eE") == std::string::npos) v += ".0";
        }
        sec[p.first.substr(0, d)].push_back("\"" + p.first.substr(d + 1) + "\" : " + v);
    }
    std::string o = "{\n";
    size_t i = 0;
    for (auto& s : sec) {
        o += "    \"" + s.first + "\" : {\n";
        for (size_t j = 0; j < s.second.size(); j++) o += "        " + s.second[j] + (j + 1 < s.second.size() ? ",\n" : "\n");
        o += ++i < sec.size() ? "    },\n" : "    }\n";
    }
    return o + "}\n";
}
}  // namespace vp
