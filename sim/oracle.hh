// Oracles shared by both simulators: reported models, exactness of enumeration, clauses, statistics.
#pragma once
#include "runner.hh"
#include "scen.hh"

#include <clingo-lpx.h>
#include <clingo.h>

namespace sim {

struct LpxOptions {
    int select{0}, store{0}, bounds{0};
    bool conflicts{false};
    bool global{false};
    V step;
    std::string step_text; // "" for none
    bool nondefault() const { return select != 0 || store != 0 || bounds != 0 || conflicts; }
    std::string text() const {
        static char const *a[] = {"none", "match", "conflict"}, *b[] = {"no", "partial", "total"}, *c[] = {"none", "changed", "full"};
        return fmt("select=%s store=%s propagate-bounds=%s propagate-conflicts=%d objective=%s", a[select], b[store], c[bounds], static_cast<int>(conflicts),
                   global ? ("global" + (step_text.empty() ? std::string() : "," + step_text)).c_str() : "local");
    }
    static LpxOptions draw(Choice &ch, bool strict, bool objective, int global_pct, bool plain) {
        LpxOptions o;
        if (!plain) {
            o.select = static_cast<int>(ch.draw(HOST, 3));
            o.store = static_cast<int>(ch.draw(HOST, 3));
            o.bounds = static_cast<int>(ch.draw(HOST, 3));
            o.conflicts = ch.chance(HOST, 1, 2);
        }
        if (objective && ch.chance(HOST, static_cast<uint32_t>(global_pct), 100)) {
            o.global = true;
            switch (ch.draw(HOST, 10)) {
                case 3: o.step_text = "1"; o.step = V{Q{1}}; break;
                case 4: o.step_text = "1/2"; o.step = V{Q{1, 2}}; break;
                case 5: if (strict) { o.step_text = "e"; o.step = V{Q{0}, Q{1}}; } else { o.step_text = "2"; o.step = V{Q{2}}; } break;
                case 6: o.step_text = "3/6"; o.step = V{Q{1, 2}}; break;
                // answers that fall behind by at most this much are admitted, too
                case 7: o.step_text = "-1"; o.step = V{Q{-1}}; break;
                case 8: o.step_text = "3/-2"; o.step = V{Q{-3, 2}}; break;
                default: break;
            }
        }
        return o;
    }
    char const *sel() const { static char const *a[] = {"none", "match", "conflict"}; return a[select]; }
    char const *sto() const { static char const *a[] = {"no", "partial", "total"}; return a[store]; }
    char const *bnd() const { static char const *a[] = {"none", "changed", "full"}; return a[bounds]; }
};

inline bool parse_value(char const *s, V &out) {
    // rational, optionally with an infinitesimal part "k*e"
    std::string t;
    for (; *s != 0; ++s) {
        if (*s != ' ') { t += *s; }
    }
    V r;
    size_t i = 0;
    bool any = false;
    while (i < t.size()) {
        bool neg = false;
        while (i < t.size() && (t[i] == '+' || t[i] == '-')) { neg ^= t[i] == '-'; ++i; }
        size_t j = i;
        while (j < t.size() && (isdigit(static_cast<unsigned char>(t[j])) != 0 || t[j] == '/')) { ++j; }
        Q v{1};
        bool num = j > i;
        if (num) {
            mpq_class q;
            if (q.set_str(t.substr(i, j - i), 10) != 0 || q.get_den() == 0) { return false; }
            v = Q{q};
        }
        if (j < t.size() && t[j] == '*') { ++j; }
        bool e = j < t.size() && t[j] == 'e';
        if (e) { ++j; }
        if (!num && !e) { return false; }
        if (neg) { v = -v; }
        if (e) { r.e += v; } else { r.r += v; }
        any = true;
        if (j == i) { return false; }
        i = j;
    }
    out = r;
    return any;
}

inline std::string sym_str(clingo_symbol_t s) {
    size_t n = 0;
    if (!clingo_symbol_to_string_size(s, &n)) { return "?"; }
    std::string r(n, 0);
    if (!clingo_symbol_to_string(s, r.data(), n)) { return "?"; }
    r.resize(n > 0 ? n - 1 : 0);
    return r;
}

struct ReportedModel {
    uint32_t thread{0};
    std::vector<bool> val;                                // Booleans of the scenario
    std::vector<std::pair<std::string, std::string>> lpx; // __lpx(name, value)
    bool proven{false}; // of minimal cost
    bool has_obj{false};
    std::string obj;
    bool bounded{true};
};

// What the host makes of the answers.
struct HostMode {
    enum K { All, Brave, Cautious, Opt, OptN, Enum, Project } k{All};
    long bound{0}; // Enum
    char const *name() const { static char const *n[] = {"", "brave ", "cautious ", "opt ", "optN ", "enum ", "project "}; return n[k]; }
};

// Judges one sequence of solve calls.
class Judge {
  public:
    Judge(RunCtx &ctx, Scenario const &s, LpxOptions const &o, int threads) : ctx{ctx}, s{s}, o{o}, threads{threads}, mean{s} {
        for (size_t i = 0; i < s.pool.size(); ++i) { by_key[pool_vars()[s.pool[i]].key] = static_cast<int>(i); }
    }
    RunCtx &ctx;
    Scenario const &s;
    LpxOptions const &o;
    int threads;
    Meaning mean;
    std::map<std::string, int> by_key;
    // state of the current call
    int step{0};
    Call const *call{nullptr};
    int n_call{0};
    bool stopped_before{false};
    std::map<std::string, int> seen;
    bool has_best{false}, unbounded_seen{false};
    V best;
    uint64_t n_models{0};
    std::map<std::string, size_t> index_of; // stable variable indices
    uint64_t acc_stats[2]{};

    // upper bound on the best objective known to the threads; true if an unbounded one is known
    bool known_best(V &b) const {
        b = best;
        if (coming && !coming_unbounded && (!has_best || coming_best >= best.r)) { b = V{coming_best, s.strict ? Q{1000000} : Q{0}}; }
        return has_best || (coming && !coming_unbounded);
    }
    bool known_unbounded() const { return unbounded_seen || (coming && coming_unbounded); }
    HostMode mode, mode_all; // what the host does if there are costs to minimize
    std::vector<bool> consequences;       // Brave, Cautious
    std::vector<long> best_cost;          // Opt, OptN
    bool projected(std::vector<bool> const &val, std::string &k) const {
        k.clear();
        for (auto const &[v, st] : s.project) { if (st <= step && val[v]) { k += s.bools[v].name + " "; } }
        return true;
    }
    bool cli{false};   // the command line tool is running
    int systems{1};    // in the process
    bool quiet{false}; // a callback has failed: the search is over, only containment is judged

    bool undone{false};  // the search has backtracked in this call
    bool tainted{false}; // the host reported a stale model: answers of the call are not judged
    void res(char const *base, char const *kind, std::string const &msg) {
        if (tainted) { return; }
        if (quiet && strcmp(base, "C11") != 0 && strcmp(base, "C09") != 0 && strcmp(base, "C15") != 0) { return; }
        auto m = fmt("step %d call %d [%s]%s: ", step, n_call, o.text().c_str(), threads > 1 ? fmt(" %d threads", threads).c_str() : "") + msg;
        ctx.violation(base, kind, m);
        if (cli) { ctx.violation("C15", kind, m); }
        if (systems > 1) { ctx.violation("C21", kind, m); }
        if (n_call > 1 || step > 0) { ctx.violation("C07", kind, m); }
        if (threads > 1) { ctx.violation("C08", kind, m); }
        if (o.nondefault()) { ctx.violation("C12", kind, m); }
        if (stopped_before) { ctx.violation("C13", kind, m); }
        if (undone && strcmp(base, "C11") != 0) { ctx.violation("C06", kind, m); }
    }
    // A call or search that does not end breaks whatever it was to deliver.
    void endless(char const *kind, std::string const &msg) {
        tainted = false;
        res("C09", kind, msg);
        if (quiet) {
            res("C11", kind, msg);
        } else if (!mean.has_objective(step)) {
            res("C02", kind, msg);
        } else {
            res(o.global ? "C05" : "C04", kind, msg);
        }
    }
    void begin_call(int st, Call const &c) {
        step = st;
        call = &c;
        ++n_call;
        tainted = undone = false;
        mean.apply(c);
        seen.clear();
        bool costs = std::any_of(s.costs.begin(), s.costs.end(), [&](Cost const &x) { return x.step <= st; });
        mode = mode_all;
        if (!costs && (mode.k == HostMode::Opt || mode.k == HostMode::OptN || mode.k == HostMode::Enum)) { mode.k = HostMode::All; }
        consequences.clear();
        best_cost.clear();
        has_best = unbounded_seen = false;
        n_models = 0;
        ctx.ev("call %d: step %d", n_call, st);
    }
    bool values(ReportedModel const &m, std::map<int, V> &out, std::map<std::string, V> &all) {
        for (auto const &[name, text] : m.lpx) {
            V v;
            if (!parse_value(text.c_str(), v)) {
                res("C01", "value-format", "variable " + name + " reported as '" + text + "'");
                return false;
            }
            if (!s.strict && v.e.sgn() != 0) { res("C01", "value-format", "infinitesimal value in non-strict mode: " + name + "=" + text); }
            if (!all.emplace(name, v).second) {
                res("C10", "duplicate-variable", "variable " + name + " reported twice");
                continue;
            }
            auto it = by_key.find(name);
            if (it == by_key.end()) {
                if (name.rfind("u(", 0) != 0) { res("C10", "unknown-variable", "variable " + name + " does not occur in the program"); }
                continue;
            }
            out[it->second] = v;
        }
        return true;
    }
    // values sol (numeric variable -> value) against the constraints of Boolean assignment val
    bool check_values(std::vector<bool> const &val, std::map<int, V> const &sol, char const *prop, char const *kind, std::string const &where) {
        for (auto const &t : s.atoms) {
            if (t.step > step || !Meaning::on(val, t)) { continue; }
            std::vector<Cons> cs;
            Meaning::atom_cons(t, val, cs);
            for (auto const &c : cs) {
                ctx.count(CNT_values_checked);
                if (!holds(eval(c.lin, sol), c.rel)) {
                    std::string vals;
                    for (auto const &[v, x] : sol) { vals += fmt(" %s=%s", pool_vars()[s.pool[v]].key, x.str().c_str()); }
                    res(prop, kind, where + ": " + atom_text(s, t) + " is violated by" + vals + " in {" + mean.key(val) + "}");
                    return false;
                }
            }
        }
        return true;
    }
    // a model is about to be reported: what other threads may already know about it
    bool coming{false}, coming_unbounded{false};
    Q coming_best;
    void announce(ReportedModel const &m) {
        auto obj = mean.objective(m.val, step);
        auto r = solve_lp(mean.active(m.val, step), obj.co.empty() ? nullptr : &obj);
        if (!r.feasible) { return; }
        if (obj.co.empty()) { r.bounded = true; r.opt = V{}; }
        coming = true;
        coming_unbounded = !r.bounded;
        coming_best = r.opt.r;
    }
    void on_model(ReportedModel const &m) {
        coming = false;
        ctx.count(CNT_models);
        ++n_models;
        std::map<int, V> sol;
        std::map<std::string, V> all;
        auto key = mean.key(m.val);
        std::string lp;
        for (auto const &[n, v] : m.lpx) { lp += " " + n + "=" + v; }
        ctx.ev("model (thread %u) {%s}%s%s%s", m.thread, key.c_str(), lp.c_str(), m.has_obj ? (" objective " + m.obj).c_str() : "", m.has_obj ? (m.bounded ? " bounded" : " unbounded") : "");
        if (mode.k == HostMode::Brave || mode.k == HostMode::Cautious) { consequences = m.val; return; } // (not an answer)
        if (!values(m, sol, all)) { return; }
        if (s.strict) { ctx.count(CNT_strict_models); }
        auto cons = mean.active(m.val, step);
        for (auto const &c : cons) {
            for (auto const &[v, a] : c.lin.co) {
                if (sol.count(v) == 0) { res("C10", "missing-variable", fmt("no value for variable %s", pool_vars()[s.pool[v]].key)); }
            }
        }
        check_values(m.val, sol, "C01", "constraint-violated", "model");
        auto obj = mean.objective(m.val, step);
        auto lpr = solve_lp(cons, obj.co.empty() ? nullptr : &obj);
        ctx.count(CNT_lps);
        if (!lpr.feasible) { res("C02", "invented-answer", "model {" + key + "} has no satisfying numeric assignment"); }
        auto id = key;
        if (mode.k == HostMode::Project) { projected(m.val, id); }
        if (mode.k == HostMode::Opt || mode.k == HostMode::OptN) {
            auto c = mean.cost(m.val, step);
            if (m.proven) { id = "optimal " + key; }
            else {
                if (!best_cost.empty() && c >= best_cost) { res("C02", "not-improving", "model {" + key + "} is not cheaper than the one before"); }
                best_cost = c;
            }
        }
        if (++seen[id] > 1) { res(o.global ? "C05" : "C02", "repeated-answer", "model {" + key + "} reported again"); }
        for (auto const &c : s.clauses) {
            if (c.step <= step && Meaning::all(m.val, c.body)) { res("C02", "invented-answer", "model {" + key + "} violates :- " + btext(s, c.body)); }
        }
        if (!Meaning::all(m.val, call->assume)) { res("C07", "assumption-ignored", "model {" + key + "} violates the assumptions"); }
        // objective
        if (!m.has_obj) {
            if (!obj.co.empty()) { res("C04", "objective-missing", "no objective value reported in {" + key + "}"); }
            return;
        }
        ctx.count(CNT_objective_models);
        V ov;
        if (!parse_value(m.obj.c_str(), ov)) {
            res("C01", "value-format", "objective reported as '" + m.obj + "'");
            return;
        }
        if (mean.objective_terms(step).empty()) {
            res("C04", "objective-invented", "objective value reported for a program without objective");
            return;
        }
        V ev = eval(obj, sol);
        char const *prop = o.global ? "C05" : "C04";
        if (ev != ov) {
            auto msg = "objective reported as " + ov.str() + " but the reported values give " + ev.str() + " in {" + key + "}";
            res("C01", "objective-mismatch", msg);
            res(prop, "objective-mismatch", msg);
        }
        if (!lpr.feasible) { return; }
        ctx.count(CNT_optima_checked);
        if (!lpr.bounded) { ctx.count(CNT_unbounded); }
        if (obj.co.empty()) { lpr.bounded = true; lpr.opt = V{}; }
        if (m.bounded != lpr.bounded) {
            res(prop, "boundedness", fmt("objective in {%s} reported as %s but it is %s", key.c_str(), m.bounded ? "bounded" : "unbounded", lpr.bounded ? "bounded" : "unbounded"));
        } else if (lpr.bounded && (ov.r != lpr.opt.r || ov.e.sgn() != lpr.opt.e.sgn())) {
            res(prop, "not-optimal", "objective in {" + key + "} reported as " + ov.str() + " but the optimum is " + lpr.opt.str());
        }
        if (o.global) {
            if (threads == 1) {
                if (unbounded_seen && m.bounded) { res("C05", "bounded-after-unbounded", "bounded model {" + key + "} after an unbounded one"); }
                if (has_best && !unbounded_seen && m.bounded && ov < best + o.step) {
                    res("C05", "not-improving", "objective " + ov.str() + " in {" + key + "} does not improve " + best.str() + " by the step");
                }
            }
            if (!m.bounded) { unbounded_seen = true; }
            else if (!has_best || ov > best) { best = ov; has_best = true; }
        }
    }
    // sat: the call reported satisfiable; exhausted: the search space was exhausted; stopped: interrupted or cancelled
    void end_call(bool sat, bool unsat, bool exhausted, bool stopped) {
        ctx.ev("end of call: %s%s%s%s, %lu models", sat ? "sat" : "", unsat ? "unsat" : "", exhausted ? " exhausted" : "", stopped ? " stopped" : "", n_models);
        if (stopped) { ctx.count(CNT_stopped_calls); }
        if (sat) { ctx.count(CNT_sat_calls); }
        if (unsat) { ctx.count(CNT_unsat_calls); }
        bool limited = call->limit > 0 && mode_all.k == HostMode::All;
        std::map<std::string, Answer> ref;
        bool known = true;
        if (s.large) { known = mean.answers(step, *call, ref, 1500); } else { ref = mean.answers(step, *call); }
        if (mode.k == HostMode::Enum) {
            for (auto it = ref.begin(); it != ref.end();) {
                auto c = mean.cost(it->second.val, step);
                it = !c.empty() && c[0] > mode.bound ? ref.erase(it) : std::next(it);
            }
        }
        ctx.count(CNT_lps, ref.size());
        char const *prop = o.global ? "C05" : "C02";
        if (unsat && !ref.empty()) { res("C02", "lost-answer", "reported unsatisfiable but {" + ref.begin()->first + "} is an answer"); if (o.global) { res("C05", "lost-answer", "reported unsatisfiable but {" + ref.begin()->first + "} is an answer"); } }
        if (known && sat && ref.empty()) { res("C02", "invented-answer", "reported satisfiable but there is no answer"); }
        if (unsat && n_models > 0) { res("C02", "verdict", "reported unsatisfiable after reporting a model"); }
        if (!sat && !unsat && !stopped) { res(prop, "verdict", "search ended without a verdict"); }
        if (sat && n_models == 0) { res(prop, "verdict", "reported satisfiable without reporting a model"); }
        if (stopped) { stopped_before = true; }
        if (limited && static_cast<int>(n_models) > call->limit) { res(prop, "limit", "more models than requested"); }
        bool complete = exhausted && !stopped;
        if (limited && !complete && !stopped && static_cast<int>(n_models) < call->limit) { res(prop, "lost-answer", "search ended before the requested number of models"); }
        if (!complete) { if (limited) { stopped_before = true; } return; }
        if (!known) { ctx.count(CNT_skipped); return; }
        ctx.count(CNT_answers_compared);
        if (mode.k == HostMode::Brave || mode.k == HostMode::Cautious) {
            if (ref.empty()) { return; }
            auto want = ref.begin()->second.val;
            for (auto const &[k, a] : ref) {
                for (size_t i = 0; i < want.size(); ++i) { want[i] = mode.k == HostMode::Brave ? want[i] || a.val[i] : want[i] && a.val[i]; }
            }
            if (want != consequences) { res("C02", "consequences", fmt("%sconsequences {%s} instead of {%s}", mode.name(), mean.key(consequences).c_str(), mean.key(want).c_str())); }
            return;
        }
        if (mode.k == HostMode::Project) {
            for (auto const &[k, a] : ref) {
                std::string id;
                projected(a.val, id);
                if (seen.count(id) == 0) { res("C02", "lost-answer", "no answer like {" + k + "} was reported"); break; }
            }
            return;
        }
        if (mode.k == HostMode::Opt || mode.k == HostMode::OptN) {
            if (ref.empty()) { return; }
            auto c = mean.cost(ref.begin()->second.val, step);
            for (auto const &[k, a] : ref) { c = std::min(c, mean.cost(a.val, step)); }
            if (mode.k == HostMode::Opt) {
                if (n_models > 0 && best_cost != c) { res("C02", "not-cheapest", "the last model reported is not of minimal cost"); }
                return;
            }
            for (auto const &[k, a] : ref) {
                if (mean.cost(a.val, step) == c && seen.count("optimal " + k) == 0) { res("C02", "lost-answer", "answer {" + k + "} of minimal cost was not reported"); break; }
            }
            return;
        }
        if (!o.global) {
            for (auto const &[k, a] : ref) {
                if (seen.count(k) == 0) { res("C02", "lost-answer", "answer {" + k + "} was not reported"); break; }
            }
            return;
        }
        ctx.count(CNT_global_runs);
        if (ref.empty()) { return; }
        bool unb = std::any_of(ref.begin(), ref.end(), [](auto const &x) { return !x.second.bounded; });
        if (unb) {
            for (auto const &[k, a] : ref) {
                if (!a.bounded && seen.count(k) == 0) { res("C05", "lost-unbounded", "unbounded answer {" + k + "} was not reported"); break; }
            }
            return;
        }
        if (!has_best) {
            if (n_models == 0) { res("C05", "lost-answer", "no model reported but {" + ref.begin()->first + "} is an answer"); }
            return;
        }
        V mx = ref.begin()->second.opt;
        for (auto const &[k, a] : ref) {
            if (a.opt.r > mx.r || (a.opt.r == mx.r && a.opt.e.sgn() > mx.e.sgn())) { mx = a.opt; }
        }
        for (auto const &[k, a] : ref) {
            V need = best + o.step;
            bool better = a.opt.r > need.r || (a.opt.r == need.r && o.step.e.sgn() == 0 && o.step.r.sgn() > 0 && best.e.sgn() < 0 && a.opt.e.sgn() == 0) ||
                          (o.step.r.sgn() == 0 && o.step.e.sgn() == 0 && a.opt.r == best.r && a.opt.e.sgn() > best.e.sgn());
            if (o.step.r.sgn() > 0 && o.step.e.sgn() == 0 && a.opt.r == need.r && a.opt.e.sgn() == 0 && best.e.sgn() == 0) { better = true; }
            if (o.step.r.sgn() < 0 && seen.count(k) != 0) { better = false; }
            if (better) { res("C05", "not-global-optimum", "best objective reported is " + best.str() + " but {" + k + "} reaches " + a.opt.str()); break; }
        }
        if (o.step.r.sgn() == 0 && o.step.e.sgn() == 0) {
            size_t n = 0;
            std::string last;
            for (auto const &[k, a] : ref) {
                if (a.opt.r == mx.r && a.opt.e.sgn() == mx.e.sgn()) {
                    ++n;
                    if (mx.e.sgn() == 0 && seen.count(k) == 0) { res("C05", "lost-optimum", "optimal answer {" + k + "} with objective " + a.opt.str() + " was not reported"); break; }
                    last = k;
                }
            }
            if (n == 1 && mx.e.sgn() != 0 && seen.count(last) == 0) { res("C05", "lost-optimum", "optimal answer {" + last + "} was not reported"); }
        }
    }
    // index interface: called while a model of the given thread is being reported
    void check_index(clingolpx_theory_t *th, ReportedModel const &m) {
        size_t idx = 77;
        std::map<std::string, std::string> got;
        clingolpx_assignment_begin(th, m.thread, &idx);
        size_t guard = 0;
        while (clingolpx_assignment_next(th, m.thread, &idx)) {
            ctx.count(CNT_index_queries);
            if (++guard > 1000) { res("C10", "iteration", "iteration over the assignment does not end"); return; }
            auto sym = clingolpx_get_symbol(th, idx);
            auto name = sym_str(sym);
            if (!clingolpx_assignment_has_value(th, m.thread, idx)) { res("C10", "has-value", "iterated variable " + name + " has no value"); }
            clingolpx_value_t v{};
            clingolpx_assignment_get_value(th, m.thread, idx, &v);
            char const *str = "?";
            if (v.type != clingolpx_value_type_symbol || !clingo_symbol_string(v.symbol, &str)) { res("C10", "value-type", "value of " + name + " is not a string symbol"); return; }
            if (!got.emplace(name, str).second) { res("C10", "iteration", "variable " + name + " iterated twice"); }
            size_t i2 = 0;
            if (!clingolpx_lookup_symbol(th, sym, &i2) || i2 != idx) { res("C10", "lookup", fmt("lookup of %s gives %zu instead of %zu", name.c_str(), i2, idx)); }
            auto it = index_of.emplace(name, idx).first;
            if (it->second != idx) { res("C10", "index-moved", fmt("index of %s moved from %zu to %zu", name.c_str(), it->second, idx)); }
            if (by_key.count(name) == 0 && name.rfind("u(", 0) != 0) { res("C10", "unknown-variable", "iteration exposes " + name); }
        }
        std::map<std::string, std::string> want(m.lpx.begin(), m.lpx.end());
        if (got != want) { res("C10", "interfaces-differ", "values of the index interface differ from the symbols of the model"); }
        clingo_symbol_t u = 0;
        if (clingo_symbol_create_id("no_such_variable", true, &u)) {
            size_t i = 0;
            if (clingolpx_lookup_symbol(th, u, &i)) { res("C10", "lookup", "lookup of an unknown symbol succeeded"); }
        }
        if (clingolpx_assignment_has_value(th, m.thread, 0)) { res("C10", "has-value", "index 0 has a value"); }
        for (auto const &[name, i] : index_of) {
            if (got.count(name) == 0) { res("C10", "variable-vanished", "variable " + name + " is no longer part of the assignment"); }
        }
    }
};

// ---------------------------------------------------------------- clauses
struct HostCons {
    int lit;                               // solver literal of the atom
    std::vector<std::pair<int, Lin>> el;   // condition literal (0: none), contribution
    Rel rel;
    Lin base;                              // unconditional part (includes minus the guard)
};

class ClauseOracle {
  public:
    RunCtx &ctx;
    Judge &judge;
    std::vector<HostCons> cons;
    std::vector<std::pair<int, Lin>> obj; // condition literal, contribution
    struct Dyn { V bound; bool discard; bool any; };
    std::map<std::pair<uint32_t, int>, Dyn> dyn;
    ClauseOracle(RunCtx &c, Judge &j) : ctx{c}, judge{j} {}

    void new_dyn(uint32_t thread, int lit) {
        ctx.count(CNT_dyn_literals);
        // A literal for "better than the best": its meaning is bounded by what has been reported.
        Dyn d;
        d.any = !judge.known_best(d.bound);
        d.bound = d.bound + judge.o.step;
        d.discard = judge.known_unbounded();
        dyn[{thread, lit}] = d;
    }
    using Truth = std::function<int(int)>; // -1 false, 0 unknown, 1 true

    // All constraints given the truth of literals; calls f for every completion of open conditions. False if too many.
    bool completions(Truth const &truth, bool with_obj, std::function<void(std::vector<Cons> const &, Lin const &)> const &f) {
        std::vector<int> open;
        auto collect = [&](int c) {
            if (c != 0 && truth(c) == 0) {
                int v = std::abs(c);
                if (std::find(open.begin(), open.end(), v) == open.end()) { open.push_back(v); }
            }
        };
        for (auto const &h : cons) {
            if (truth(h.lit) != 1) { continue; }
            for (auto const &[c, l] : h.el) { collect(c); }
        }
        if (with_obj) {
            for (auto const &[c, l] : obj) { collect(c); }
        }
        if (open.size() > 7) { ctx.count(CNT_skipped); return false; }
        for (uint32_t m = 0; m < (1u << open.size()); ++m) {
            auto tr = [&](int c) {
                if (c == 0) { return true; }
                int t = truth(c);
                if (t != 0) { return t > 0; }
                auto i = static_cast<size_t>(std::find(open.begin(), open.end(), std::abs(c)) - open.begin());
                return (((m >> i) & 1) != 0) == (c > 0);
            };
            std::vector<Cons> cs;
            for (auto const &h : cons) {
                int t = truth(h.lit);
                // an atom whose literal got completed as a condition
                if (t == 0 && std::find(open.begin(), open.end(), std::abs(h.lit)) != open.end() && tr(h.lit)) { t = 2; }
                if (t == 2 && std::any_of(h.el.begin(), h.el.end(), [&](auto const &e) { return e.first != 0 && truth(e.first) == 0 && std::find(open.begin(), open.end(), std::abs(e.first)) == open.end(); })) { t = 0; }
                if (t < 1) { continue; }
                Lin l = h.base;
                for (auto const &[c, x] : h.el) {
                    if (tr(c)) { l.add(x, Q{1}); }
                }
                cs.push_back({l, h.rel});
            }
            Lin ob;
            if (with_obj) {
                for (auto const &[c, x] : obj) {
                    if (tr(c)) { ob.add(x, Q{1}); }
                }
            }
            f(cs, ob);
        }
        return true;
    }
    // the true constraints with elements whose condition is open counted arbitrarily
    bool relaxed_feasible(Truth const &truth) {
        std::vector<Cons> cs;
        int fresh = 1 << 20;
        for (auto const &h : cons) {
            if (truth(h.lit) != 1) { continue; }
            Lin l = h.base;
            for (auto const &[c, x] : h.el) {
                int t = c == 0 ? 1 : truth(c);
                if (t > 0) { l.add(x, Q{1}); }
                else if (t == 0) { l.co[fresh++] = Q{1}; }
            }
            cs.push_back({l, h.rel});
        }
        if (cs.empty()) { return true; }
        ctx.count(CNT_lps);
        return solve_lp(cs).feasible;
    }
    // is the conjunction of literals (given by truth) theory-consistent for some completion?
    bool consistent(Truth const &truth, bool *known = nullptr) {
        bool r = false;
        bool k = completions(truth, false, [&](std::vector<Cons> const &cs, Lin const &) { r = r || solve_lp(cs).feasible; });
        if (known != nullptr) { *known = k; }
        return r || !k;
    }
    void check_clause(uint32_t thread, int const *lits, size_t n, std::function<bool(int)> const &fact, char const *where) {
        ctx.count(CNT_clauses_oracle);
        std::set<int> tr;
        std::vector<Dyn const *> dyns;
        for (size_t i = 0; i < n; ++i) {
            if (tr.count(lits[i]) != 0 || fact(lits[i])) { return; } // tautology or satisfied
            auto it = dyn.find({thread, std::abs(lits[i])});
            if (it != dyn.end()) {
                if (lits[i] > 0) { // asserting a fresh literal
                    if (n != 1) { judge.res("C03", "clause-not-entailed", "dynamic literal asserted conditionally"); }
                    return;
                }
                dyns.push_back(&it->second);
            }
            tr.insert(-lits[i]);
        }
        auto truth = [&](int l) {
            if (tr.count(l) != 0 || fact(l)) { return 1; }
            if (tr.count(-l) != 0 || fact(-l)) { return -1; }
            return 0;
        };
        bool bad = false;
        bool discard = judge.known_unbounded();
        V b;
        bool any = !judge.known_best(b);
        b = b + judge.o.step;
        completions(truth, !dyns.empty(), [&](std::vector<Cons> const &cs, Lin const &ob) {
            if (bad) { return; }
            ctx.count(CNT_lps);
            if (dyns.empty()) { bad = solve_lp(cs).feasible; return; }
            auto r = solve_lp(cs, ob.co.empty() ? nullptr : &ob);
            if (!r.feasible) { return; }
            if (ob.co.empty()) { r.bounded = true; r.opt = V{}; }
            if (r.bounded && discard) { return; } // bounded answers may be discarded
            // answers reaching the improved bound must stay
            if (!r.bounded || any || r.opt.r > b.r || (r.opt.r == b.r && r.opt.e.sgn() == 0 && b.e.sgn() == 0 && !discard)) { bad = true; }
        });
        if (bad) {
            std::string c;
            for (size_t i = 0; i < n; ++i) { c += fmt(" %d", lits[i]); }
            judge.res("C03", "clause-not-entailed", fmt("%s added clause {%s } which excludes a theory-consistent assignment", where, c.c_str()));
        }
    }
};

} // namespace sim
