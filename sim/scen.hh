// Scenario generator: random multi-shot ASP programs over linear constraints, with their meaning.
#pragma once
#include "cycles.hh"
#include "lp.hh"

#include <algorithm>
#include <functional>
#include <set>

namespace sim {

// ---------------------------------------------------------------- theory terms
struct Node {
    enum K { Num, Sym, Str, Fun, Tup, Bin, Neg } k{Num};
    long num{0};
    std::string name; // Sym, Fun, Bin operator; Str: raw text without quotes
    std::vector<Node> a;
    static Node n(long v) { Node r; r.k = Num; r.num = v; return r; }
    static Node sym(std::string s) { Node r; r.k = Sym; r.name = std::move(s); return r; }
    static Node str(std::string s) { Node r; r.k = Str; r.name = std::move(s); return r; }
    static Node fun(std::string s, std::vector<Node> a) { Node r; r.k = Fun; r.name = std::move(s); r.a = std::move(a); return r; }
    static Node tup(std::vector<Node> a) { Node r; r.k = Tup; r.a = std::move(a); return r; }
    static Node bin(char const *op, Node x, Node y) { Node r; r.k = Bin; r.name = op; r.a.push_back(std::move(x)); r.a.push_back(std::move(y)); return r; }
    static Node neg(Node x) { Node r; r.k = Neg; r.a.push_back(std::move(x)); return r; }
    int prec() const {
        if (k == Neg || (k == Num && num < 0)) { return 3; }
        if (k != Bin) { return 9; }
        if (name == "..") { return 0; }
        return name == "+" || name == "-" ? 1 : 2;
    }
    std::string text(bool full = false) const {
        switch (k) {
            case Num: return std::to_string(num);
            case Sym: return name;
            case Str: return "\"" + name + "\"";
            case Fun: case Tup: {
                std::string s = k == Fun ? name + "(" : "(";
                for (size_t i = 0; i < a.size(); ++i) { s += (i > 0 ? "," : "") + a[i].text(full); }
                return s + (k == Tup && a.size() == 1 ? ",)" : ")");
            }
            case Neg: return "-" + par(a[0], full || a[0].prec() <= 3, full);
            case Bin: {
                auto r = par(a[1], full || a[1].prec() <= prec(), full);
                return par(a[0], full || a[0].prec() < prec(), full) + name + (r[0] == '-' ? " " : "") + r;
            }
        }
        return "";
    }
    static std::string par(Node const &x, bool p, bool full) { return p && x.prec() < 9 ? "(" + x.text(full) + ")" : x.text(full); }
};

struct BLit { int v; bool neg; };

struct Bool {
    enum K { Choice, Ext, Def } k{Choice};
    int step{0};
    std::vector<std::vector<BLit>> bodies; // Def
    std::string name;
};
struct SElem { Node term; Lin lin; std::vector<BLit> cond; };
struct TAtom {
    enum K { Sum, Diff, Dom } k{Sum};
    std::vector<SElem> el;
    Node guard;
    Lin g;
    Rel rel{Rel::LE};
    Q lo, hi; // Dom
    std::vector<BLit> body;
    std::vector<std::vector<BLit>> alt; // further rules with the same head
    int step{0};
    std::string head(bool full = false) const;
};
struct ObjStm { bool max{true}; std::vector<SElem> el; int step{0}; };
struct Call {
    std::vector<std::pair<int, int>> ext; // 0 false, 1 true, 2 free, 3 release
    std::vector<BLit> assume;
    int limit{0}; // models, 0 = all
};
struct Cost { long w; int level; BLit l; int step; }; // #minimize of the program itself
struct Clause { std::vector<BLit> body; int step; }; // integrity constraint :- body

struct ScenCfg {
    int max_steps{1};
    int max_calls{1};
    bool objective{false};      // always generate an objective
    int obj_pct{35};            // else with this percentage
    bool strict_ok{true};
    bool assumptions{false};
    bool limits{false};         // calls limited to some models
    bool malformed{false};      // may contain statements that must be rejected
    int max_bool{6};
    int max_num{5};
    int max_atoms{10};
    bool big{false};            // larger systems, fewer Booleans (termination)
    bool costs{false};          // may minimize costs of Booleans
    bool large{false};          // many Booleans: candidates are not enumerated one by one
    bool degenerate{false};     // systems with many ties, known to make careless pivoting rules cycle
};

struct Scenario {
    bool strict{false};
    bool large{false};
    int nvar{0};
    std::vector<int> pool;                    // numeric variable -> pool index
    std::vector<Bool> bools;
    std::vector<TAtom> atoms;
    std::vector<ObjStm> objs;
    std::vector<Clause> clauses;
    std::vector<Cost> costs;
    std::vector<std::pair<int, int>> project; // Boolean and step from which answers are projected to it
    std::vector<std::vector<Call>> calls;     // per step
    int bad_step{-1};                         // step with a malformed statement
    std::string bad_text;
    bool bad_ground{false};                   // rejected while grounding
    bool conjunctive_conditions() const {
        auto any = [](std::vector<SElem> const &el) { return std::any_of(el.begin(), el.end(), [](SElem const &e) { return e.cond.size() > 1; }); };
        return std::any_of(atoms.begin(), atoms.end(), [&](TAtom const &t) { return any(t.el); }) || std::any_of(objs.begin(), objs.end(), [&](ObjStm const &o) { return any(o.el); });
    }
    bool assumes() const { // externals are assumptions, too
        return std::any_of(bools.begin(), bools.end(), [](Bool const &b) { return b.k == Bool::Ext; }) ||
               std::any_of(calls.begin(), calls.end(), [](auto const &cs) { return std::any_of(cs.begin(), cs.end(), [](Call const &c) { return !c.assume.empty(); }); });
    }
    int nsteps() const { return static_cast<int>(calls.size()); }
    std::string step_text(int s) const;
    std::string text() const;
};

// ---------------------------------------------------------------- numeric variable names
struct PoolVar { char const *key; std::vector<Node> spell; };
inline std::vector<PoolVar> const &pool_vars() {
    auto N = Node::n;
    auto S = Node::sym;
    static std::vector<PoolVar> p{
        {"x", {S("x")}},
        {"y", {S("y")}},
        {"z", {S("z")}},
        {"f(1)", {Node::fun("f", {N(1)}), Node::fun("f", {Node::bin("-", N(3), N(2))}), Node::fun("f", {Node::bin("/", N(4), Node::bin("+", N(2), N(2)))})}},
        {"f(a,2)", {Node::fun("f", {S("a"), N(2)}), Node::fun("f", {S("a"), Node::bin("*", N(1), N(2))})}},
        {"(1,2)", {Node::tup({N(1), N(2)}), Node::tup({Node::bin("-", N(2), N(1)), N(2)})}},
        {"\"s t\"", {Node::str("s t")}},
        {"g(\"1.5\")", {Node::fun("g", {Node::str("1.5")})}},
        {"k(-h)", {Node::fun("k", {Node::neg(S("h"))})}},
        {"\"1.\"", {Node::str("1.")}},
        {"f(-1)", {Node::fun("f", {Node::neg(N(1))}), Node::fun("f", {Node::bin("-", N(1), N(2))})}},
        {"\"q\\\"n\\\\m\\n\"", {Node::str("q\\\"n\\\\m\\n")}},
        {"\"\"", {Node::str("")}},
        {"f(2147483647,\"\")", {Node::fun("f", {N(2147483647), Node::str("")})}},
        {"()", {Node::tup({})}},
        {"(x,)", {Node::tup({S("x")})}},
        {"((),-g(a))", {Node::tup({Node::tup({}), Node::neg(Node::fun("g", {S("a")}))})}},
    };
    return p;
}

// ---------------------------------------------------------------- rendering
inline std::string btext(Scenario const &s, std::vector<BLit> const &b) {
    std::string r;
    for (auto const &l : b) { r += (r.empty() ? "" : ", ") + std::string(l.neg ? "not " : "") + s.bools[l.v].name; }
    return r;
}
inline char const *rel_text(Rel r) {
    switch (r) {
        case Rel::LE: return "<=";
        case Rel::GE: return ">=";
        case Rel::EQ: return "=";
        case Rel::LT: return "<";
        case Rel::GT: return ">";
    }
    return "";
}
inline std::string elems_text(Scenario const &s, std::vector<SElem> const &el, bool full = false) {
    std::string r;
    for (auto const &e : el) {
        r += (r.empty() ? "" : "; ") + e.term.text(full);
        if (!e.cond.empty()) { r += " : " + btext(s, e.cond); }
    }
    return r;
}
// the identity of a theory atom: its elements form a set
inline std::string elems_key(Scenario const &s, std::vector<SElem> const &el) {
    std::set<std::string> r;
    for (auto const &e : el) { r.insert(elems_text(s, {e}, true)); }
    std::string k;
    for (auto const &x : r) { k += x + ";"; }
    return k;
}
inline std::string atom_text(Scenario const &s, TAtom const &t, bool full = false) {
    char const *n = t.k == TAtom::Sum ? "&sum { " : t.k == TAtom::Diff ? "&diff { " : "&dom { ";
    return n + elems_text(s, t.el, full) + " } " + rel_text(t.rel) + " " + t.guard.text(full);
}
inline std::string atom_key(Scenario const &s, TAtom const &t) { return fmt("%d %d ", t.k, static_cast<int>(t.rel)) + elems_key(s, t.el) + t.guard.text(true); }
inline std::string Scenario::step_text(int s) const {
    std::string r;
    for (auto const &b : bools) {
        if (b.step != s) { continue; }
        if (b.k == Bool::Choice) { r += "{ " + b.name + " }.\n"; }
        if (b.k == Bool::Ext) { r += "#external " + b.name + ".\n"; }
        if (b.k == Bool::Def) {
            for (auto const &body : b.bodies) { r += b.name + (body.empty() ? "" : " :- " + btext(*this, body)) + ".\n"; }
        }
    }
    for (auto const &t : atoms) {
        if (t.step == s) { r += atom_text(*this, t) + (t.body.empty() ? "" : " :- " + btext(*this, t.body)) + ".\n"; }
        for (auto const &b : t.alt) {
            if (t.step == s) { r += atom_text(*this, t) + " :- " + btext(*this, b) + ".\n"; }
        }
    }
    for (auto const &o : objs) {
        if (o.step == s) { r += std::string(o.max ? "&maximize" : "&minimize") + " { " + elems_text(*this, o.el) + " }.\n"; }
    }
    for (auto const &c : clauses) {
        if (c.step == s) { r += ":- " + btext(*this, c.body) + ".\n"; }
    }
    for (size_t i = 0; i < costs.size(); ++i) {
        auto const &c = costs[i];
        if (c.step == s) { r += fmt("#minimize { %ld@%d,%zu : ", c.w, c.level, i) + btext(*this, {c.l}) + " }.\n"; }
    }
    for (auto const &[v, st] : project) {
        if (st == s) { r += "#project " + bools[v].name + ".\n"; }
    }
    if (bad_step == s) { r += bad_text + "\n"; }
    return r;
}
inline std::string Scenario::text() const {
    std::string r;
    for (int s = 0; s < nsteps(); ++s) {
        r += fmt("%% step %d%s\n", s, strict ? " (strict)" : "") + step_text(s);
        for (auto const &c : calls[s]) {
            r += "% solve";
            for (auto const &[v, x] : c.ext) { r += fmt(" %s=%s", bools[v].name.c_str(), x == 0 ? "false" : x == 1 ? "true" : x == 2 ? "free" : "released"); }
            if (!c.assume.empty()) { r += " assuming " + btext(*this, c.assume); }
            if (c.limit > 0) { r += fmt(" limit %d", c.limit); }
            r += "\n";
        }
    }
    return r;
}

// ---------------------------------------------------------------- generation
class Gen {
  public:
    Gen(Choice &ch, ScenCfg const &cfg) : ch{ch}, cfg{cfg} {}
    Scenario run() {
        s.strict = cfg.strict_ok && ch.chance(PROG, 1, 3);
        fancy = ch.chance(PROG, 1, 3);
        conds = ch.chance(PROG, 1, 3);
        wide = ch.chance(PROG, 1, 8);
        degen = ch.chance(PROG, 1, 4);
        eqs = ch.chance(PROG, 1, 4);
        consts = ch.chance(PROG, 1, 6);
        if (cfg.big) { fancy = conds = false; }
        dense = ch.chance(PROG, 1, 2); // many constraints over few variables
        s.nvar = cfg.large ? ch.range(PROG, 2, cfg.max_num) : dense ? ch.range(PROG, 2, 3) : ch.range(PROG, 1, cfg.max_num);
        std::vector<int> all;
        for (size_t i = 0; i < pool_vars().size(); ++i) { all.push_back(static_cast<int>(i)); }
        bool odd = ch.chance(PROG, 1, 4);
        for (int i = 0; i < s.nvar; ++i) {
            size_t k = odd ? ch.draw(PROG, static_cast<uint32_t>(all.size())) : 0;
            s.pool.push_back(all[k]);
            all.erase(all.begin() + static_cast<long>(k));
        }
        int steps = ch.range(PROG, 1, cfg.max_steps);
        if (cfg.large) {
            dense = true;
            s.large = true;
        }
        int nb = cfg.large ? ch.range(PROG, 9, cfg.max_bool) : ch.range(PROG, dense ? cfg.max_bool / 2 : 1, cfg.max_bool + (dense && steps > 1 ? 2 : 0));
        int na = cfg.large ? ch.range(PROG, 12, cfg.max_atoms) : ch.range(PROG, dense ? cfg.max_atoms / 2 : 1, cfg.max_atoms + (dense && steps > 1 ? 4 : 0));
        bool ext = ch.chance(PROG, 1, 5) || (cfg.max_calls > 1 && ch.chance(PROG, 1, 2));
        bool defs = ch.chance(PROG, 1, 4);
        bool obj = cfg.objective || ch.chance(PROG, cfg.obj_pct, 100);
        if (cfg.degenerate) { degenerate(); return std::move(s); }
        for (int st = 0; st < steps; ++st) {
            int b = st == 0 ? std::max(1, dense && steps > 1 ? nb / 2 : nb / steps) : nb / steps;
            for (int i = 0; i < b; ++i) { add_bool(st, ext && ch.chance(PROG, 1, 4) ? Bool::Ext : Bool::Choice); }
            if (defs) {
                loops = ch.chance(PROG, 1, 3);
                for (int i = 0, e = ch.range(PROG, loops ? 2 : 0, loops ? 3 : 2); i < e; ++i) { add_def(st); }
                if (loops) { close_loops(st); }
                loops = false;
            }
            int a = st == 0 ? std::max(1, dense && steps > 1 ? na / 2 : na / steps) : ch.range(PROG, 0, na / steps);
            for (int i = 0; i < a; ++i) { add_atom(st); }
            for (int i = 0, e = ch.range(PROG, 0, cfg.large ? 6 : 2); i < e; ++i) { add_clause(st); }
            if (obj && st == 0 && ch.chance(PROG, 2, 3)) { fence(); }
            if (obj && (st == 0 || ch.chance(PROG, 1, 3))) { add_obj(st); }
            s.calls.emplace_back();
            int nc = ch.range(PROG, 1, cfg.max_calls);
            for (int i = 0; i < nc; ++i) { add_call(st); }
        }
        if (cfg.costs && ch.chance(PROG, 1, 2)) {
            for (int i = 0, e = ch.range(PROG, 1, 4); i < e; ++i) {
                auto l = blit();
                s.costs.push_back({ch.range(PROG, 0, 5) - 2L, ch.range(PROG, 1, 2), l, std::max(s.bools[l.v].step, ch.range(PROG, 0, steps - 1))});
            }
        }
        if (cfg.costs && ch.chance(PROG, 1, 4)) {
            for (size_t i = 0; i < s.bools.size(); ++i) { if (ch.chance(PROG, 1, 2)) { s.project.emplace_back(i, s.bools[i].step); } }
        }
        if (cfg.malformed && ch.chance(PROG, 2, 3)) {
            static char const *bad[] = {"&sum{ x*y } <= 1.", "&sum{ x/0 } <= 1.", "&sum{ x,y } <= 1.", "&dom{ 1 } = x.", "&dom{ 1..2 } = 3.",
                                        "&diff{ x } <= 1.", "&sum{ f(1/0) } <= 1.", "&sum{ x/y } <= 1.", "&maximize{ 3 }.", "&dom{ x..2 } = y.",
                                        "&sum{ 1/\"0.0\" } <= 1.", "&sum{ f(\"0\"/0) } <= 1.", "&sum{ f(a+1) } >= 2.", "&sum{ x; y..z } <= 1.", "&dom{ 1..2; 3..4 } = x.",
                                        "&sum{ f(1/2) } <= 1.", "&sum{ [x] } <= 1.", "&sum{ {x} } >= 1.", "&sum{ f([x]) } <= 1.", "&sum{ f(2147483647+1) } <= 1.", "&dom{ 1..2 } = -(x,y).", "&dom{ 1..2 } = -\"s\".",
                                        "&diff{ [x]-y } <= 1.", "&sum{ 2*[x] } <= 1.", "&sum{ x } <= [y].", "&maximize{ [x] }.", "&sum{ x } <= y/0.", "&sum{ g(1..2) } <= 1.", "&dom{ 1/0..2 } = x.", "&diff{ x-y; y-z } <= 1.",
                                        "&dom{ 1..2,3 } = x.", "&diff{ x-y,3 } <= 1.", "{ zc(1) }. &dom{ 1..2 : zc(1) } = x.", "{ zc(1) }. &diff{ x-y : zc(1) } <= 1.", "&sum{ x,1,2 } <= 1.", "&diff{ x-y-z } <= 1.", "&minimize{ x,y }.", "&maximize{ x*y }."};
            s.bad_step = ch.range(PROG, 0, steps - 1);
            s.bad_text = bad[ch.draw(PROG, sizeof(bad) / sizeof(bad[0]))];
            if (!s.strict && ch.chance(PROG, 1, 8)) { // strict constraints need strict mode
                static char const *lt[] = {"&sum{ x } < 1.", "&sum{ x; y } > 2.", "&dom{ 1..2 } < x.", "&diff{ x-y } < 3."};
                s.bad_text = lt[ch.draw(PROG, 4)];
                s.bad_ground = true;
            }
            if (s.bad_text == "&dom{ x..2 } = y." || s.bad_text == "&sum{ x; y..z } <= 1." || s.bad_text == "&sum{ g(1..2) } <= 1.") { s.bad_text = "&sum{ x*y } <= 1."; }
        }
        return std::move(s);
    }

  private:
    Choice &ch;
    ScenCfg const &cfg;
    Scenario s;
    bool loops{}; // positive recursion
    bool dense{}, fancy{}, conds{}, wide{}, degen{}, eqs{}, consts{}, bare{};
    std::set<std::string> used;

    // linear term with integer coefficient
    SElem term(int v, long c) {
        SElem e;
        auto const &n = pool_vars()[s.pool[v]].spell[0];
        e.term = c == 1 ? n : c == -1 ? Node::neg(n) : c < 0 ? Node::bin("*", Node::neg(Node::n(-c)), n) : Node::bin("*", Node::n(c), n);
        e.lin.add(v, Q{c});
        return e;
    }
    void row(std::vector<std::pair<int, long>> const &co, Rel r, long g) {
        TAtom t;
        for (auto const &[v, c] : co) { t.el.push_back(term(v, c)); }
        if (t.el.empty()) { return; }
        t.rel = r;
        t.guard = Node::n(g);
        t.g.c = Q{g};
        if (!bare && ch.chance(PROG, 1, 3)) { t.body = conj(1, 1); }
        if (used.insert(atom_key(s, t)).second) { s.atoms.push_back(std::move(t)); }
    }
    // one of the systems on which procedures departing from the rule of the smallest index cycle
    void cycle() {
        auto const &lib = cycle_systems();
        auto const &sys = lib[ch.draw(PROG, static_cast<uint32_t>(lib.size()))];
        int n = static_cast<int>(sys.rows.front().size());
        need_vars(n);
        if (sys.objective) {
            ObjStm o;
            o.max = !ch.chance(PROG, 1, 3);
            for (int v = 0; v < n; ++v) {
                if (sys.vec[v] != 0) { o.el.push_back(term(v, o.max ? sys.vec[v] : -sys.vec[v])); }
            }
            s.objs.push_back(std::move(o));
        }
        std::vector<BLit> body;
        uint32_t mode = ch.draw(PROG, 4); // bodies of the rows: none, none, one for all, arbitrary
        if (mode == 2) { body = conj(1, 1); }
        bare = true;
        for (int v = 0; v < n; ++v) { row({{v, 1}}, Rel::GE, 0); }
        for (size_t i = 0; i < sys.rows.size(); ++i) {
            std::vector<std::pair<int, long>> co;
            bool flip = ch.chance(PROG, 1, 4);
            for (int v = 0; v < n; ++v) {
                if (sys.rows[i][v] != 0) { co.emplace_back(v, flip ? -sys.rows[i][v] : sys.rows[i][v]); }
            }
            long b = sys.objective ? 0 : sys.vec[i];
            bare = mode != 3;
            size_t before = s.atoms.size();
            row(co, flip ? Rel::GE : Rel::LE, flip ? -b : b);
            if (mode == 2 && s.atoms.size() > before) { s.atoms.back().body = body; }
        }
        s.calls.emplace_back();
        add_call(0);
    }
    void need_vars(int n) {
        while (s.nvar < n) {
            int k = 0;
            while (std::find(s.pool.begin(), s.pool.end(), k) != s.pool.end()) { ++k; }
            s.pool.push_back(k);
            ++s.nvar;
        }
    }
    void degenerate() {
        for (int i = 0, e = ch.range(PROG, 1, 3); i < e; ++i) { add_bool(0, Bool::Choice); }
        if (ch.chance(PROG, 2, 3)) { return cycle(); }
        uint32_t kind = ch.draw(PROG, 8);
        bare = ch.chance(PROG, 1, 2);
        // objectives and rows of systems on which careless rules cycle: Beale, Chvatal, Kuhn, Marshall and Suurballe
        static long const tab[4][4][5] = {
            {{75, -15000, 2, -600, 0}, {25, -6000, -4, 900, 0}, {50, -9000, -2, 300, 0}, {0, 0, 1, 0, 1}},
            {{10, -57, -9, -24, 0}, {1, -11, -5, 18, 0}, {1, -3, -1, 2, 0}, {1, 0, 0, 0, 1}},
            {{2, 3, -1, -12, 0}, {-2, -9, 1, 9, 0}, {1, 3, -1, -6, 0}, {2, 3, -1, -12, 2}},
            {{4, -92, 8, -4, 0}, {1, -32, -4, 36, 0}, {1, -24, -1, 6, 0}, {0, 0, 1, 0, 1}}};
        std::vector<std::pair<int, long>> obj;
        if (kind < 4) {
            need_vars(4);
            std::vector<int> perm{0, 1, 2, 3};
            for (int i = 3; i > 0; --i) { std::swap(perm[i], perm[ch.draw(PROG, static_cast<uint32_t>(i + 1))]); }
            std::vector<int> rows{1, 2, 3, 4, 5, 6, 7};
            for (int i = 6; i > 0; --i) { std::swap(rows[i], rows[ch.draw(PROG, static_cast<uint32_t>(i + 1))]); }
            for (int r : rows) {
                if (r >= 4) { row({{perm[r - 4], 1}}, Rel::GE, 0); continue; }
                std::vector<std::pair<int, long>> co;
                for (int v = 0; v < 4; ++v) {
                    if (tab[kind][r][v] != 0) { co.emplace_back(perm[v], tab[kind][r][v]); }
                }
                if (ch.chance(PROG, 1, 3)) {
                    for (auto &c : co) { c.second = -c.second; }
                    row(co, Rel::GE, -tab[kind][r][4]);
                } else { row(co, Rel::LE, tab[kind][r][4]); }
            }
            for (int v = 0; v < 4; ++v) { obj.emplace_back(perm[v], tab[kind][0][v]); }
        }
        int m = kind < 4 ? (bare ? ch.range(PROG, 0, 1) : ch.range(PROG, 0, 2)) : ch.range(PROG, 4, cfg.max_atoms);
        for (int i = 0; i < m; ++i) {
            std::vector<std::pair<int, long>> co;
            for (int v = 0; v < s.nvar; ++v) {
                if (ch.chance(PROG, 2, 3)) { long c = ch.range(PROG, 1, 4); co.emplace_back(v, ch.chance(PROG, 1, 2) ? -c : c); }
            }
            uint32_t q = ch.draw(PROG, 8);
            row(co, q == 7 ? Rel::EQ : (q & 1) != 0 ? Rel::GE : Rel::LE, ch.chance(PROG, 3, 4) ? 0 : ch.range(PROG, 0, 3) - 1);
        }
        if (kind >= 4) {
            for (int v = 0; v < s.nvar; ++v) {
                if (ch.chance(PROG, 2, 3)) { row({{v, 1}}, Rel::GE, 0); }
                if (ch.chance(PROG, 1, 4)) { row({{v, 1}}, Rel::LE, ch.range(PROG, 0, 1)); }
                if (ch.chance(PROG, 3, 4)) { long c = ch.range(PROG, 1, 5); obj.emplace_back(v, ch.chance(PROG, 1, 2) ? -c : c); }
            }
        }
        if (!obj.empty() && !ch.chance(PROG, 1, 8)) {
            ObjStm o;
            o.max = !ch.chance(PROG, 1, 3);
            for (auto const &[v, c] : obj) {
                o.el.push_back(term(v, o.max ? c : -c));
            }
            s.objs.push_back(std::move(o));
        }
        s.calls.emplace_back();
        add_call(0);
    }

    void add_bool(int st, Bool::K k) {
        Bool b;
        b.k = k;
        b.step = st;
        b.name = fmt("%c(%zu)", k == Bool::Choice ? 'c' : k == Bool::Ext ? 'e' : 'd', s.bools.size());
        s.bools.push_back(b);
    }
    BLit blit() { return {static_cast<int>(ch.draw(PROG, static_cast<uint32_t>(s.bools.size()))), ch.chance(PROG, 1, 2)}; }
    std::vector<BLit> conj(int lo, int hi) {
        std::vector<BLit> r;
        for (int i = 0, e = ch.range(PROG, lo, hi); i < e; ++i) {
            auto l = blit();
            if (std::none_of(r.begin(), r.end(), [&](BLit const &o) { return o.v == l.v; })) { r.push_back(l); }
        }
        return r;
    }
    void add_def(int st) {
        std::vector<std::vector<BLit>> bodies;
        for (int i = 0, e = ch.range(PROG, 1, 2); i < e; ++i) { bodies.push_back(conj(1, 2)); }
        add_bool(st, Bool::Def);
        s.bools.back().bodies = bodies;
        if (loops) {
            for (auto &b : s.bools.back().bodies) {
                for (auto &l : b) { l.neg = l.neg && s.bools[l.v].k != Bool::Def; }
            }
        }
    }
    // the atoms defined in a step support each other in a cycle
    void close_loops(int st) {
        std::vector<int> d;
        for (size_t i = 0; i < s.bools.size(); ++i) { if (s.bools[i].k == Bool::Def && s.bools[i].step == st) { d.push_back(static_cast<int>(i)); } }
        for (size_t i = 0; i < d.size(); ++i) {
            if (!ch.chance(PROG, 3, 4)) { continue; }
            std::vector<BLit> b{{d[(i + 1) % d.size()], false}};
            if (b[0].v == d[i]) { continue; }
            if (ch.chance(PROG, 1, 2)) {
                auto l = blit();
                if (s.bools[l.v].k != Bool::Def) { b.push_back(l); }
            }
            s.bools[d[i]].bodies.push_back(b);
        }
    }
    void add_clause(int st) {
        Clause c{conj(2, 3), st};
        if (c.body.size() >= 2) { s.clauses.push_back(c); }
    }
    long num(long lo, long hi) {
        if (wide && ch.chance(PROG, 1, 4)) { return ch.chance(PROG, 1, 2) ? 2147483647 - ch.range(PROG, 0, 3) : 1000000 + ch.range(PROG, 0, 999); }
        return lo + static_cast<long>(ch.draw(PROG, static_cast<uint32_t>(hi - lo + 1)));
    }
    // constant expression
    std::pair<Node, Q> constant(int depth) {
        uint32_t k = fancy ? ch.draw(PROG, depth > 0 ? 8 : 4) : 0;
        if (k <= 1) {
            long v = degen ? num(0, 2) : num(0, 6);
            return {Node::n(v), Q{v}};
        }
        if (k <= 3) {
            int a = ch.range(PROG, 0, 9);
            uint32_t f = ch.draw(PROG, 15);
            if ((f == 10 || f == 11) && wide) {
                return {Node::str("12345678901234567890123.5"), Q{mpq_class("24691357802469135780247/2")}};
            }
            static char const *fr[] = {"5", "50", "25", "125", "00", "750", "1", "010", "0010", "9", "", "00", "03125", "0625000", "00010"};
            static long fn[] = {5000000, 5000000, 2500000, 1250000, 0, 7500000, 1000000, 100000, 10000, 9000000, 0, 0, 312500, 625000, 1000};
            bool neg = ch.chance(PROG, 1, 4);
            Q v{a * 10000000L + fn[f], 10000000L};
            return {Node::str(fmt("%s%s%d%s%s", neg ? "-" : "", f == 11 ? "00" : "", a, *fr[f] != 0 ? "." : "", fr[f])), neg ? -v : v};
        }
        auto x = constant(depth - 1);
        if (k == 4) { return {Node::neg(x.first), -x.second}; }
        auto y = constant(depth - 1);
        switch (k) {
            case 5: return {Node::bin("+", x.first, y.first), x.second + y.second};
            case 6: return {Node::bin("*", x.first, y.first), x.second * y.second};
            default: {
                if (y.second.sgn() == 0) { return {Node::bin("-", x.first, y.first), x.second}; }
                return {Node::bin("/", x.first, y.first), x.second / y.second};
            }
        }
    }
    std::pair<Node, int> var() {
        int v = static_cast<int>(ch.draw(PROG, static_cast<uint32_t>(s.nvar)));
        auto const &sp = pool_vars()[s.pool[v]].spell;
        return {sp[ch.draw(PROG, static_cast<uint32_t>(sp.size()))], v};
    }
    std::pair<Node, Lin> linear(int depth) {
        uint32_t k = fancy && depth > 0 ? ch.draw(PROG, 9) : ch.draw(PROG, 4);
        if (consts && ch.chance(PROG, 1, 3)) {
            auto c = constant(1);
            Lin l;
            l.c = c.second;
            return {c.first, l};
        }
        if (k <= 3) { // c*v, v, -v
            auto [n, v] = var();
            Lin l;
            long c = 1;
            switch (k) {
                case 0: break;
                case 1: c = -1; n = Node::neg(n); break;
                default:
                    c = num(1, 4);
                    if (k == 3) { c = -c; n = Node::bin("*", Node::neg(Node::n(-c)), n); } else { n = ch.chance(PROG, 1, 3) ? Node::bin("*", n, Node::n(c)) : Node::bin("*", Node::n(c), n); }
            }
            l.add(v, Q{c});
            return {n, l};
        }
        auto x = linear(depth - 1);
        if (k == 4) {
            Lin l;
            l.add(x.second, Q{-1});
            return {Node::neg(x.first), l};
        }
        if (k <= 6) {
            auto y = linear(depth - 1);
            x.second.add(y.second, Q{k == 5 ? 1 : -1});
            return {Node::bin(k == 5 ? "+" : "-", x.first, y.first), x.second};
        }
        auto c = constant(1);
        Lin l;
        if (k == 8 && c.second.sgn() != 0) {
            l.add(x.second, Q{1} / c.second);
            return {Node::bin("/", x.first, c.first), l};
        }
        l.add(x.second, c.second);
        return {ch.chance(PROG, 1, 2) ? Node::bin("*", c.first, x.first) : Node::bin("*", x.first, c.first), l};
    }
    Rel rel() {
        uint32_t k = ch.draw(PROG, s.strict ? 8 : (eqs ? 6 : 5));
        if (k == 5 && !s.strict) { return Rel::EQ; }
        static Rel r[] = {Rel::LE, Rel::GE, Rel::LE, Rel::GE, Rel::EQ, Rel::LT, Rel::GT, Rel::LT};
        return r[k];
    }
    std::vector<SElem> elems(int lo, int hi) {
        std::vector<SElem> r;
        std::set<std::string> seen;
        for (int i = 0, e = ch.range(PROG, lo, hi); i < e; ++i) {
            SElem x;
            std::tie(x.term, x.lin) = linear(2);
            if (conds && ch.chance(PROG, 1, 2)) { x.cond = conj(1, 2); }
            if (seen.insert(elem_key(x)).second) { r.push_back(std::move(x)); }
        }
        return r;
    }
    // Elements with the same term but other conditions are other elements. (Literals that become facts are dropped from
    // conditions, and elements the same afterwards are one; hence, the same term is used twice only where no literal is.)
    std::string elem_key(SElem const &x) {
        bool plain = s.calls.empty() && std::all_of(x.cond.begin(), x.cond.end(), [&](BLit const &l) { return s.bools[l.v].k == Bool::Choice; });
        if (!plain) { return x.term.text(true); }
        std::set<std::string> c;
        for (auto const &l : x.cond) { c.insert(btext(s, {l})); }
        auto k = x.term.text(true);
        for (auto const &t : c) { k += " " + t; }
        return k;
    }
    SElem marker() {
        SElem m;
        m.term = Node::bin("*", Node::n(0), Node::fun("u", {Node::n(static_cast<long>(used.size()))}));
        return m;
    }
    void add_atom(int st) {
        TAtom t;
        t.step = st;
        uint32_t k = ch.draw(PROG, 10);
        if (!ch.chance(PROG, 1, cfg.large ? 40 : dense ? 16 : 6)) {
            t.body = conj(1, ch.chance(PROG, 1, 4) ? 2 : 1);
            if (ch.chance(PROG, 1, 8)) { t.alt.push_back(conj(1, ch.chance(PROG, 1, 4) ? 2 : 1)); }
        }
        if (k == 9) { // dom
            t.k = TAtom::Dom;
            auto lo = constant(1), hi = constant(1);
            t.lo = lo.second;
            t.hi = hi.second;
            if (t.lo > t.hi && !ch.chance(PROG, 1, 4)) { std::swap(t.lo, t.hi); std::swap(lo, hi); }
            SElem e;
            e.term = Node::bin("..", lo.first, hi.first);
            t.el.push_back(e);
            t.rel = Rel::EQ;
            auto v = var();
            t.guard = v.first;
            t.g.add(v.second, Q{1});
        } else if (k == 8) { // diff
            t.k = TAtom::Diff;
            SElem e;
            Node l, r;
            if (ch.chance(PROG, 1, 8)) {
                auto c = constant(0);
                l = c.first;
                e.lin.c += c.second;
            } else {
                auto a = var();
                l = a.first;
                e.lin.add(a.second, Q{1});
            }
            if (ch.chance(PROG, 1, 5)) {
                auto c = constant(0);
                r = c.first;
                e.lin.c -= c.second;
            } else {
                auto b = var();
                r = b.first;
                e.lin.add(b.second, Q{-1});
            }
            e.term = Node::bin("-", l, r);
            t.el.push_back(e);
            t.rel = rel();
            guard(t);
        } else {
            int hi = cfg.big ? 4 : ch.chance(PROG, 1, 3) ? 4 : 2;
            t.el = elems(ch.chance(PROG, 1, 12) ? 0 : dense && ch.chance(PROG, 2, 3) ? 2 : 1, hi);
            t.rel = rel();
            guard(t);
        }
        push(std::move(t));
    }
    // bounds on the variables such that objectives are bounded more often
    void fence() {
        auto num = [&](long n) { return n < 0 ? Node::neg(Node::n(-n)) : Node::n(n); };
        for (int v = 0; v < s.nvar; ++v) {
            if (ch.chance(PROG, 1, 6)) { continue; }
            TAtom t;
            t.step = 0;
            if (ch.chance(PROG, 1, 5)) { t.body = conj(1, 1); }
            long lo = -ch.range(PROG, 0, 6), hi = ch.range(PROG, 0, 6);
            auto const &x = pool_vars()[s.pool[v]].spell[0];
            uint32_t k = ch.draw(PROG, 4);
            SElem e;
            if (k <= 1) {
                t.k = TAtom::Dom;
                t.lo = Q{lo};
                t.hi = Q{hi};
                e.term = Node::bin("..", num(lo), num(hi));
                t.rel = Rel::EQ;
                t.guard = x;
                t.g.add(v, Q{1});
            } else {
                t.k = TAtom::Sum;
                e.term = x;
                e.lin.add(v, Q{1});
                t.rel = k == 2 ? Rel::LE : Rel::GE;
                t.guard = num(k == 2 ? hi : lo);
                t.g.c = Q{k == 2 ? hi : lo};
            }
            t.el.push_back(e);
            push(std::move(t));
        }
    }
    void push(TAtom t) {
        auto tx = atom_key(s, t);
        if (!used.insert(tx).second) {
            if (t.k != TAtom::Sum) { return; }
            t.el.push_back(marker());
            used.insert(atom_key(s, t));
        }
        s.atoms.push_back(std::move(t));
    }
    void guard(TAtom &t) {
        if (ch.chance(PROG, 1, fancy ? 3 : 8)) {
            std::tie(t.guard, t.g) = linear(1);
        } else {
            auto c = constant(fancy ? 1 : 0);
            t.guard = c.first;
            t.g.c = c.second;
            if (!fancy && ch.chance(PROG, 1, 3)) {
                t.guard = Node::neg(c.first);
                t.g.c = -c.second;
            }
        }
    }
    void add_obj(int st) {
        for (int i = 0, e = ch.chance(PROG, 1, 6) ? 2 : 1; i < e; ++i) {
            ObjStm o;
            o.step = st;
            o.max = !ch.chance(PROG, 1, 2);
            bool sv = consts;
            consts = false;
            o.el = elems(1, 3);
            consts = sv;
            for (auto it = o.el.begin(); it != o.el.end();) { it = it->lin.c.sgn() != 0 ? o.el.erase(it) : it + 1; }
            if (o.el.empty()) { continue; }
            auto tx = fmt("obj%d ", static_cast<int>(o.max)) + elems_key(s, o.el);
            // (Elements whose conditions are known to be false are dropped and directives the same afterwards are one.)
            auto other = std::any_of(s.objs.begin(), s.objs.end(), [&](ObjStm const &p) {
                auto cond = [](SElem const &x) { return !x.cond.empty(); };
                return p.step == o.step && p.max == o.max && (std::any_of(p.el.begin(), p.el.end(), cond) || std::any_of(o.el.begin(), o.el.end(), cond));
            });
            if (!used.insert(tx).second || other) {
                o.el.push_back(marker());
                used.insert(fmt("obj%d ", static_cast<int>(o.max)) + elems_key(s, o.el));
            }
            s.objs.push_back(std::move(o));
        }
    }
    void add_call(int st) {
        Call c;
        for (size_t i = 0; i < s.bools.size(); ++i) {
            if (s.bools[i].k == Bool::Ext && ch.chance(PROG, 1, 2)) {
                uint32_t v = ch.draw(PROG, 8);
                c.ext.emplace_back(static_cast<int>(i), v < 4 ? 1 : v < 6 ? 0 : v == 6 ? 2 : 3);
            }
        }
        if (cfg.assumptions && ch.chance(PROG, 1, 3)) {
            for (auto const &l : conj(1, 2)) {
                if (s.bools[l.v].k == Bool::Choice) { c.assume.push_back(l); }
            }
        }
        if (cfg.limits && ch.chance(PROG, 1, 3)) { c.limit = ch.range(PROG, 1, 3); }
        if (cfg.large && c.limit == 0) { c.limit = ch.range(PROG, 1, 40); }
        s.calls[st].push_back(c);
    }
};

// ---------------------------------------------------------------- meaning
struct Answer {
    std::vector<bool> val; // all Booleans
    std::string key;       // true atom names
    bool feasible{false};
    bool bounded{true};
    V opt;
};

class Meaning {
  public:
    explicit Meaning(Scenario const &s) : s{s} {}
    std::map<int, int> ext; // current external values (persist over calls)
    void apply(Call const &c) {
        for (auto const &[v, x] : c.ext) {
            auto it = ext.find(v);
            if (it != ext.end() && it->second == 3) { continue; }
            ext[v] = x;
        }
    }
    static bool lit(std::vector<bool> const &val, BLit l) { return val[l.v] != l.neg; }
    static bool all(std::vector<bool> const &val, std::vector<BLit> const &b) {
        for (auto const &l : b) {
            if (!lit(val, l)) { return false; }
        }
        return true;
    }
    // defined atoms: the least fixpoint (in a cycle there is no negation)
    void complete(std::vector<bool> &val, int step) const {
        for (size_t i = 0; i < s.bools.size(); ++i) {
            if (s.bools[i].step > step || s.bools[i].k == Bool::Def) { val[i] = false; }
        }
        auto derived = [&](size_t i) { return std::any_of(s.bools[i].bodies.begin(), s.bools[i].bodies.end(), [&](auto const &b) { return all(val, b); }); };
        for (int st = 0; st <= step; ++st) {
            bool cycles = false;
            for (size_t i = 0; i < s.bools.size(); ++i) {
                if (s.bools[i].step != st || s.bools[i].k != Bool::Def) { continue; }
                val[i] = derived(i);
                for (auto const &b : s.bools[i].bodies) { for (auto const &l : b) { cycles = cycles || static_cast<size_t>(l.v) > i; } }
            }
            for (bool more = cycles; more;) {
                more = false;
                for (size_t i = 0; i < s.bools.size(); ++i) {
                    if (s.bools[i].step == st && s.bools[i].k == Bool::Def && !val[i] && derived(i)) { val[i] = more = true; }
                }
            }
        }
    }
    // costs by level, most important first
    std::vector<long> cost(std::vector<bool> const &val, int step) const {
        std::map<int, long, std::greater<>> r;
        for (auto const &c : s.costs) { if (c.step <= step) { r[c.level] += lit(val, c.l) ? c.w : 0; } }
        std::vector<long> v;
        for (auto const &x : r) { v.push_back(x.second); }
        return v;
    }
    std::string key(std::vector<bool> const &val) const {
        std::string k;
        for (size_t i = 0; i < val.size(); ++i) {
            if (val[i]) { k += (k.empty() ? "" : " ") + s.bools[i].name; }
        }
        return k;
    }
    static Lin elems_lin(std::vector<SElem> const &el, std::vector<bool> const &val) {
        Lin l;
        for (auto const &e : el) {
            if (all(val, e.cond)) { l.add(e.lin, Q{1}); }
        }
        return l;
    }
    static bool on(std::vector<bool> const &val, TAtom const &t) {
        bool r = all(val, t.body);
        for (auto const &b : t.alt) { r = r || all(val, b); }
        return r;
    }
    static void atom_cons(TAtom const &t, std::vector<bool> const &val, std::vector<Cons> &out) {
        if (t.k == TAtom::Dom) {
            Lin a = t.g, b = t.g;
            a.c -= t.lo;
            b.c -= t.hi;
            out.push_back({a, Rel::GE});
            out.push_back({b, Rel::LE});
            return;
        }
        Lin l = elems_lin(t.el, val);
        l.add(t.g, Q{-1});
        out.push_back({l, t.rel});
    }
    std::vector<Cons> active(std::vector<bool> const &val, int step) const {
        std::vector<Cons> r;
        for (auto const &t : s.atoms) {
            if (t.step <= step && on(val, t)) { atom_cons(t, val, r); }
        }
        return r;
    }
    bool has_objective(int step) const { return !objective_terms(step).empty(); }
    // The objective is absent if all its terms cancel out; conditional terms never cancel textually.
    std::vector<SElem const *> objective_terms(int step) const {
        std::vector<SElem const *> r;
        for (auto const &o : s.objs) {
            if (o.step <= step) {
                for (auto const &e : o.el) { r.push_back(&e); }
            }
        }
        return r;
    }
    Lin objective(std::vector<bool> const &val, int step) const {
        Lin l;
        for (auto const &o : s.objs) {
            if (o.step <= step) { l.add(elems_lin(o.el, val), Q{o.max ? 1 : -1}); }
        }
        return l;
    }
    // all Boolean candidates of a call
    void candidates(int step, std::vector<BLit> const &assume, std::function<void(std::vector<bool> const &)> const &f) const {
        std::vector<size_t> free;
        std::vector<bool> base(s.bools.size(), false);
        for (size_t i = 0; i < s.bools.size(); ++i) {
            auto const &b = s.bools[i];
            if (b.step > step) { continue; }
            if (b.k == Bool::Choice) { free.push_back(i); }
            if (b.k == Bool::Ext) {
                auto it = ext.find(static_cast<int>(i));
                if (it != ext.end() && it->second == 1) { base[i] = true; }
                if (it != ext.end() && it->second == 2) { free.push_back(i); }
            }
        }
        for (uint64_t m = 0; m < (1ull << free.size()); ++m) {
            auto val = base;
            for (size_t i = 0; i < free.size(); ++i) { val[free[i]] = ((m >> i) & 1) != 0; }
            complete(val, step);
            bool ok = all(val, assume);
            for (auto const &c : s.clauses) { ok = ok && !(c.step <= step && all(val, c.body)); }
            if (ok) { f(val); }
        }
    }
    void answer(std::map<std::string, Answer> &r, std::vector<bool> const &val, int step) const {
        auto cons = active(val, step);
        auto obj = objective(val, step);
        auto lp = solve_lp(cons, obj.co.empty() ? nullptr : &obj);
        if (lp.feasible) {
            Answer a;
            a.val = val;
            a.key = key(val);
            a.feasible = true;
            a.bounded = lp.bounded;
            a.opt = lp.opt;
            r.emplace(a.key, a);
        }
    }
    std::map<std::string, Answer> answers(int step, Call const &c) const {
        std::map<std::string, Answer> r;
        candidates(step, c.assume, [&](std::vector<bool> const &val) { answer(r, val, step); });
        return r;
    }
    // The same with partial assignments of no answer cut off; false if more than budget systems had to be solved.
    bool answers(int step, Call const &c, std::map<std::string, Answer> &r, int budget) const {
        size_t n = s.bools.size();
        std::vector<int> tv(n, 0); // -1 false, 1 true, 0 open
        std::vector<size_t> free;
        for (size_t i = 0; i < n; ++i) {
            auto const &b = s.bools[i];
            if (b.step > step) { tv[i] = -1; continue; }
            if (b.k == Bool::Choice) { free.push_back(i); }
            if (b.k == Bool::Ext) {
                auto it = ext.find(static_cast<int>(i));
                int x = it == ext.end() ? 0 : it->second;
                if (x == 2) { free.push_back(i); } else { tv[i] = x == 1 ? 1 : -1; }
            }
        }
        auto truth = [&](BLit l) { return l.neg ? -tv[l.v] : tv[l.v]; };
        auto sure = [&](std::vector<BLit> const &b) { return std::all_of(b.begin(), b.end(), [&](BLit l) { return truth(l) == 1; }); };
        auto open = [&](std::vector<BLit> const &b) { return !sure(b) && std::none_of(b.begin(), b.end(), [&](BLit l) { return truth(l) == -1; }); };
        std::vector<bool> val(n);
        std::function<bool(size_t, size_t)> go = [&](size_t k, size_t before) {
            for (auto const &l : c.assume) { if (truth(l) == -1) { return true; } }
            for (auto const &x : s.clauses) { if (x.step <= step && sure(x.body)) { return true; } }
            if (k == free.size()) {
                if (--budget < 0) { return false; }
                for (size_t i = 0; i < n; ++i) { val[i] = tv[i] == 1; }
                complete(val, step);
                if (!all(val, c.assume)) { return true; }
                for (auto const &x : s.clauses) { if (x.step <= step && all(val, x.body)) { return true; } }
                answer(r, val, step);
                return true;
            }
            for (size_t i = 0; i < n; ++i) { val[i] = tv[i] == 1; }
            std::vector<Cons> cs;
            for (auto const &t : s.atoms) {
                if (t.step > step || (!sure(t.body) && std::none_of(t.alt.begin(), t.alt.end(), sure))) { continue; }
                if (std::any_of(t.el.begin(), t.el.end(), [&](SElem const &e) { return open(e.cond); })) { continue; }
                atom_cons(t, val, cs);
            }
            if (cs.size() != before) {
                if (--budget < 0) { return false; }
                if (!solve_lp(cs).feasible) { return true; }
            }
            for (int v : {1, -1}) {
                tv[free[k]] = v;
                if (!go(k + 1, cs.size())) { return false; }
            }
            tv[free[k]] = 0;
            return true;
        };
        return go(0, 0);
    }

    Scenario const &s;
};

} // namespace sim
