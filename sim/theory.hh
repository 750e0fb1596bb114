// Independent reader of clingo's theory data: theory atoms to linear constraints over solver literals.
#pragma once
#include "oracle.hh"

namespace sim {

class TheoryReader {
  public:
    clingo_theory_atoms_t const *a;
    std::map<std::string, int> &names; // symbol text -> variable
    int next_other = 1000;
    TheoryReader(clingo_theory_atoms_t const *a, std::map<std::string, int> &n) : a{a}, names{n} {}

    struct Bad {};
    int var(std::string const &n) {
        auto it = names.find(n);
        if (it != names.end()) { return it->second; }
        int id = 1000 + static_cast<int>(names.size());
        names[n] = id;
        return id;
    }
    static bool decimal(std::string const &t, Q &out) { // "\"-1.50\""
        if (t.size() < 3 || t.front() != '"' || t.back() != '"') { return false; }
        auto s = t.substr(1, t.size() - 2);
        size_t i = 0;
        bool neg = false;
        if (s[i] == '-') { neg = true; ++i; }
        size_t d0 = i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])) != 0) { ++i; }
        if (i == d0) { return false; }
        std::string digits = s.substr(d0, i - d0), den = "1";
        if (i < s.size()) {
            if (s[i] != '.' || i + 1 == s.size()) { return false; }
            for (++i; i < s.size(); ++i) {
                if (isdigit(static_cast<unsigned char>(s[i])) == 0) { return false; }
                digits += s[i];
                den += "0";
            }
        }
        mpq_class q(mpz_class(digits, 10), mpz_class(den, 10));
        q.canonicalize();
        out = neg ? Q{mpq_class(-q)} : Q{q};
        return true;
    }
    std::string name(clingo_id_t t) {
        char const *n = nullptr;
        if (!clingo_theory_atoms_term_name(a, t, &n)) { throw Bad{}; }
        return n;
    }
    clingo_theory_term_type_t type(clingo_id_t t) {
        clingo_theory_term_type_t ty = 0;
        if (!clingo_theory_atoms_term_type(a, t, &ty)) { throw Bad{}; }
        return ty;
    }
    std::vector<clingo_id_t> args(clingo_id_t t) {
        clingo_id_t const *p = nullptr;
        size_t n = 0;
        if (!clingo_theory_atoms_term_arguments(a, t, &p, &n)) { throw Bad{}; }
        return {p, p + n};
    }
    // arithmetic inside function arguments: integers only
    bool arg_num(clingo_id_t t, Q &out) {
        if (type(t) == clingo_theory_term_type_number) {
            int n = 0;
            clingo_theory_atoms_term_number(a, t, &n);
            out = Q{n};
            return true;
        }
        if (type(t) == clingo_theory_term_type_function) {
            auto n = name(t);
            auto as = args(t);
            Q x, y;
            if (as.size() == 1 && n == "-" && arg_num(as[0], x)) { out = -x; return true; }
            if (as.size() == 2 && n.size() == 1 && strchr("+-*/", n[0]) != nullptr && arg_num(as[0], x) && arg_num(as[1], y)) {
                if (n == "/" && y.sgn() == 0) { throw Bad{}; }
                out = n == "+" ? x + y : n == "-" ? x - y : n == "*" ? x * y : x / y;
                return true;
            }
        }
        return false;
    }
    std::string sym(clingo_id_t t) {
        Q q;
        if (arg_num(t, q)) { return q.str(); }
        switch (type(t)) {
            case clingo_theory_term_type_symbol: return name(t);
            case clingo_theory_term_type_function: {
                auto n = name(t);
                auto as = args(t);
                if (n == "-" && as.size() == 1) {
                    auto s = sym(as[0]);
                    return s[0] == '-' ? s.substr(1) : "-" + s;
                }
                if (isalpha(static_cast<unsigned char>(n[0])) == 0 && n[0] != '_') { throw Bad{}; }
                std::string r = n + "(";
                for (size_t i = 0; i < as.size(); ++i) { r += (i > 0 ? "," : "") + sym(as[i]); }
                return r + ")";
            }
            case clingo_theory_term_type_tuple: {
                auto as = args(t);
                std::string r = "(";
                for (size_t i = 0; i < as.size(); ++i) { r += (i > 0 ? "," : "") + sym(as[i]); }
                return r + (as.size() == 1 ? ",)" : ")");
            }
            default: throw Bad{};
        }
    }
    Lin lin(clingo_id_t t) {
        Lin l;
        auto ty = type(t);
        if (ty == clingo_theory_term_type_number) {
            int n = 0;
            clingo_theory_atoms_term_number(a, t, &n);
            l.c = Q{n};
            return l;
        }
        if (ty == clingo_theory_term_type_symbol) {
            auto n = name(t);
            Q q;
            if (decimal(n, q)) { l.c = q; } else { l.add(var(n), Q{1}); }
            return l;
        }
        if (ty == clingo_theory_term_type_function) {
            auto n = name(t);
            auto as = args(t);
            if (as.size() == 1 && n == "-") {
                l.add(lin(as[0]), Q{-1});
                return l;
            }
            if (as.size() == 2 && n.size() == 1 && strchr("+-*/", n[0]) != nullptr) {
                auto x = lin(as[0]), y = lin(as[1]);
                if (n == "+" || n == "-") {
                    x.add(y, Q{n == "+" ? 1 : -1});
                    return x;
                }
                if (n == "/") {
                    if (!y.co.empty() || y.c.sgn() == 0) { throw Bad{}; }
                    l.add(x, Q{1} / y.c);
                    return l;
                }
                if (x.co.empty()) { l.add(y, x.c); return l; }
                if (!y.co.empty()) { throw Bad{}; }
                l.add(x, y.c);
                return l;
            }
        }
        l.add(var(sym(t)), Q{1});
        return l;
    }
    // appends the constraints of all atoms; lit maps program literals to solver literals
    bool read(std::function<int(int)> const &lit, std::vector<HostCons> &cons, std::vector<std::pair<int, Lin>> &obj) {
        size_t n = 0;
        if (!clingo_theory_atoms_size(a, &n)) { return false; }
        try {
            for (clingo_id_t i = 0; i < n; ++i) {
                clingo_id_t t = 0;
                clingo_theory_atoms_atom_term(a, i, &t);
                auto nm = name(t);
                bool mx = nm == "maximize", mn = nm == "minimize";
                if (!mx && !mn && nm != "sum" && nm != "diff" && nm != "dom") { continue; }
                clingo_id_t const *el = nullptr;
                size_t ne = 0;
                clingo_theory_atoms_atom_elements(a, i, &el, &ne);
                int al = 0;
                clingo_theory_atoms_atom_literal(a, i, &al);
                HostCons h;
                h.rel = Rel::LE;
                h.lit = mx || mn ? 0 : lit(al);
                Lin dlo, dhi;
                for (size_t k = 0; k < ne; ++k) {
                    clingo_id_t const *tp = nullptr, *cp = nullptr;
                    size_t nt = 0, nc = 0;
                    (void)cp;
                    clingo_theory_atoms_element_tuple(a, el[k], &tp, &nt);
                    clingo_literal_t const *cl = nullptr;
                    clingo_theory_atoms_element_condition(a, el[k], &cl, &nc);
                    int cond = 0;
                    if (nc > 0) {
                        int ci = 0;
                        clingo_theory_atoms_element_condition_id(a, el[k], &ci);
                        cond = lit(ci);
                    }
                    if (nt != 1) { throw Bad{}; }
                    if (nm == "dom") {
                        auto as = args(tp[0]);
                        if (as.size() != 2 || name(tp[0]) != "..") { throw Bad{}; }
                        dlo = lin(as[0]);
                        dhi = lin(as[1]);
                        continue;
                    }
                    auto l = lin(tp[0]);
                    if (mn) { Lin m; m.add(l, Q{-1}); l = m; }
                    if (mx || mn) { obj.emplace_back(cond, l); } else { h.el.emplace_back(cond, l); }
                }
                if (mx || mn) { continue; }
                char const *rel = nullptr;
                clingo_id_t gt = 0;
                bool has = false;
                clingo_theory_atoms_atom_has_guard(a, i, &has);
                if (!has) { throw Bad{}; }
                clingo_theory_atoms_atom_guard(a, i, &rel, &gt);
                auto g = lin(gt);
                if (nm == "dom") {
                    HostCons u = h;
                    h.base = g;
                    h.base.add(dlo, Q{-1});
                    h.rel = Rel::GE;
                    u.base = g;
                    u.base.add(dhi, Q{-1});
                    u.rel = Rel::LE;
                    cons.push_back(h);
                    cons.push_back(u);
                    continue;
                }
                h.base.add(g, Q{-1});
                std::string r = rel;
                h.rel = r == "<=" ? Rel::LE : r == ">=" ? Rel::GE : r == "=" ? Rel::EQ : r == "<" ? Rel::LT : Rel::GT;
                cons.push_back(h);
            }
        } catch (Bad const &) {
            return false;
        }
        return true;
    }
};

} // namespace sim
