// Reference linear arithmetic: exact feasibility and optimization over Q with infinitesimals.
// Independent of the code under test; every verdict is checked against a certificate.
#pragma once
#include "base.hh"

#include <map>
#include <optional>

namespace sim {

enum class Rel { LE = 0, GE = 1, EQ = 2, LT = 3, GT = 4 };

struct Lin { // sum of coefficient*variable plus constant
    std::map<int, Q> co;
    Q c;
    void add(int v, Q const &k) {
        auto [it, ins] = co.try_emplace(v, k);
        if (!ins) { it->second += k; }
        if (it->second.sgn() == 0) { co.erase(it); }
    }
    void add(Lin const &o, Q const &k) {
        for (auto const &[v, a] : o.co) { add(v, a * k); }
        c += o.c * k;
    }
};

struct Cons { // lin rel 0  (constant inside lin)
    Lin lin;
    Rel rel;
};

struct LPRes {
    bool feasible{false};
    bool bounded{true};
    V opt;                // optimum (if bounded and objective given)
    std::map<int, V> sol; // witness
};

inline bool holds(V const &v, Rel rel) { // v rel 0, strict relations strict in the standard part or infinitesimally
    int s = V::cmp(v, V{});
    switch (rel) {
        case Rel::LE: return s <= 0;
        case Rel::GE: return s >= 0;
        case Rel::EQ: return s == 0;
        case Rel::LT: return s < 0;
        case Rel::GT: return s > 0;
    }
    return false;
}

inline V eval(Lin const &l, std::map<int, V> const &sol) {
    V r{l.c};
    for (auto const &[v, a] : l.co) {
        auto it = sol.find(v);
        if (it != sol.end()) { r += a * it->second; }
    }
    return r;
}

[[noreturn]] inline void ref_fail(char const *what) {
    fprintf(stderr, "HARNESS: reference certificate check failed: %s\n", what);
    _Exit(97);
}

// The infinitesimal in "a*x < b" is normalized per constraint: a*x <= b - eps.
inline LPRes solve_lp(std::vector<Cons> const &cons, Lin const *obj = nullptr) {
    LPRes res;
    // column variables
    std::map<int, int> col;
    std::vector<int> names;
    auto reg = [&](Lin const &l) {
        for (auto const &[v, a] : l.co) {
            if (col.try_emplace(v, static_cast<int>(names.size())).second) { names.push_back(v); }
        }
    };
    for (auto const &c : cons) { reg(c.lin); }
    if (obj != nullptr) { reg(*obj); }
    size_t n = names.size();
    struct Row { std::vector<Q> a; };
    std::vector<Cons const *> rowc;
    for (auto const &c : cons) {
        if (c.lin.co.empty()) {
            if (!holds(V{c.lin.c}, c.rel)) { return res; }
        } else {
            rowc.push_back(&c);
        }
    }
    size_t m = rowc.size();
    // variables: 0..n-1 free columns, n..n+m-1 slacks, n+m objective
    size_t N = n + m + (obj != nullptr ? 1 : 0);
    std::vector<std::optional<V>> lo(N), up(N);
    std::vector<V> val(N);
    std::vector<std::vector<Q>> tab(m + (obj != nullptr ? 1 : 0), std::vector<Q>(n)); // basic rows
    std::vector<size_t> basic, nonb;
    for (size_t j = 0; j < n; ++j) { nonb.push_back(j); }
    for (size_t i = 0; i < m; ++i) {
        basic.push_back(n + i);
        for (auto const &[v, a] : rowc[i]->lin.co) { tab[i][col[v]] = a; }
        V b{-rowc[i]->lin.c};
        switch (rowc[i]->rel) {
            case Rel::LE: up[n + i] = b; break;
            case Rel::GE: lo[n + i] = b; break;
            case Rel::EQ: lo[n + i] = b; up[n + i] = b; break;
            case Rel::LT: up[n + i] = V{b.r, Q{-1}}; break;
            case Rel::GT: lo[n + i] = V{b.r, Q{1}}; break;
        }
    }
    if (obj != nullptr) {
        basic.push_back(n + m);
        for (auto const &[v, a] : obj->co) { tab[m][col[v]] = a; }
    }
    auto orig = tab; // for certificates
    auto coef_of = [&](size_t var, size_t j) -> Q { // coefficient of original column j in var
        if (var < n) { return var == j ? Q{1} : Q{0}; }
        return orig[var - n][j];
    };
    auto update = [&](size_t jc, V const &nv) {
        V d = nv - val[nonb[jc]];
        val[nonb[jc]] = nv;
        for (size_t i = 0; i < basic.size(); ++i) {
            if (tab[i][jc].sgn() != 0) { val[basic[i]] += tab[i][jc] * d; }
        }
    };
    auto pivot = [&](size_t i, size_t j) {
        Q p = tab[i][j];
        Q inv = Q{1} / p;
        for (size_t k = 0; k < n; ++k) {
            if (k != j && tab[i][k].sgn() != 0) { tab[i][k] = -(tab[i][k] * inv); }
        }
        tab[i][j] = inv;
        for (size_t r = 0; r < tab.size(); ++r) {
            if (r == i || tab[r][j].sgn() == 0) { continue; }
            Q f = tab[r][j];
            tab[r][j] = Q{0};
            for (size_t k = 0; k < n; ++k) {
                if (tab[i][k].sgn() != 0) { tab[r][k] += f * tab[i][k]; }
            }
        }
        std::swap(basic[i], nonb[j]);
    };
    // feasibility
    while (true) {
        size_t bi = SIZE_MAX;
        for (size_t i = 0; i < basic.size(); ++i) {
            auto v = basic[i];
            if ((lo[v] && val[v] < *lo[v]) || (up[v] && val[v] > *up[v])) {
                if (bi == SIZE_MAX || v < basic[bi]) { bi = i; }
            }
        }
        if (bi == SIZE_MAX) { break; }
        auto v = basic[bi];
        bool low = lo[v] && val[v] < *lo[v];
        size_t bj = SIZE_MAX;
        for (size_t j = 0; j < n; ++j) {
            int s = tab[bi][j].sgn();
            if (s == 0) { continue; }
            auto w = nonb[j];
            bool inc = low == (s > 0);
            if (inc ? (!up[w] || val[w] < *up[w]) : (!lo[w] || val[w] > *lo[w])) {
                if (bj == SIZE_MAX || w < nonb[bj]) { bj = j; }
            }
        }
        if (bj == SIZE_MAX) {
            // certificate: var v equals the combination of its row, which cannot reach the bound
            V lim{};
            for (size_t j = 0; j < n; ++j) {
                int s = tab[bi][j].sgn();
                if (s == 0) { continue; }
                auto w = nonb[j];
                auto const &b = (low == (s > 0)) ? up[w] : lo[w];
                if (!b) { ref_fail("farkas bound"); }
                lim += tab[bi][j] * *b;
            }
            for (size_t c = 0; c < n; ++c) {
                Q s = -coef_of(v, c);
                for (size_t j = 0; j < n; ++j) {
                    if (tab[bi][j].sgn() != 0) { s += tab[bi][j] * coef_of(nonb[j], c); }
                }
                if (s.sgn() != 0) { ref_fail("farkas combination"); }
            }
            if (low ? !(lim < *lo[v]) : !(lim > *up[v])) { ref_fail("farkas value"); }
            return res;
        }
        V target = low ? *lo[v] : *up[v];
        V d = Q{1} / tab[bi][bj] * (target - val[v]);
        update(bj, val[nonb[bj]] + d);
        pivot(bi, bj);
    }
    auto witness = [&]() {
        res.sol.clear();
        for (size_t j = 0; j < n; ++j) { res.sol[names[j]] = val[j]; }
        for (auto const &c : cons) {
            if (!holds(eval(c.lin, res.sol), c.rel)) { ref_fail("witness"); }
        }
    };
    witness();
    res.feasible = true;
    if (obj == nullptr) { return res; }
    // optimization; the objective variable n+m stays basic as it has no bounds
    while (true) {
        size_t zi = SIZE_MAX;
        for (size_t i = 0; i < basic.size(); ++i) {
            if (basic[i] == n + m) { zi = i; }
        }
        size_t bj = SIZE_MAX;
        bool inc = false;
        for (size_t j = 0; j < n; ++j) {
            int s = tab[zi][j].sgn();
            if (s == 0) { continue; }
            auto w = nonb[j];
            if (s > 0 ? (!up[w] || val[w] < *up[w]) : (!lo[w] || val[w] > *lo[w])) {
                if (bj == SIZE_MAX || w < nonb[bj]) { bj = j; inc = s > 0; }
            }
        }
        if (bj == SIZE_MAX) {
            V lim{obj->c};
            for (size_t j = 0; j < n; ++j) {
                int s = tab[zi][j].sgn();
                if (s == 0) { continue; }
                auto const &b = s > 0 ? up[nonb[j]] : lo[nonb[j]];
                if (!b) { ref_fail("dual bound"); }
                lim += tab[zi][j] * *b;
            }
            for (size_t c = 0; c < n; ++c) {
                Q s = -coef_of(n + m, c);
                for (size_t j = 0; j < n; ++j) {
                    if (tab[zi][j].sgn() != 0) { s += tab[zi][j] * coef_of(nonb[j], c); }
                }
                if (s.sgn() != 0) { ref_fail("dual combination"); }
            }
            witness();
            res.opt = lim;
            if (eval(*obj, res.sol) != lim) { ref_fail("optimum"); }
            return res;
        }
        // ratio test
        std::optional<V> best;
        size_t bi = SIZE_MAX;
        auto e = nonb[bj];
        if (inc ? up[e].has_value() : lo[e].has_value()) { best = inc ? *up[e] - val[e] : val[e] - *lo[e]; }
        for (size_t i = 0; i < basic.size(); ++i) {
            int s = tab[i][bj].sgn();
            if (s == 0 || i == zi) { continue; }
            auto v = basic[i];
            bool binc = inc == (s > 0);
            auto const &b = binc ? up[v] : lo[v];
            if (!b) { continue; }
            Q k = tab[i][bj];
            if (k.sgn() < 0) { k = -k; }
            V step = Q{1} / k * (binc ? *b - val[v] : val[v] - *b);
            if (!best || step < *best || (step == *best && bi != SIZE_MAX && v < basic[bi])) {
                best = step;
                bi = i;
            }
        }
        if (!best) {
            // ray certificate
            for (size_t v = 0; v < n + m; ++v) {
                Q d{0};
                if (v == e) {
                    d = Q{inc ? 1 : -1};
                } else {
                    for (size_t i = 0; i < basic.size(); ++i) {
                        if (basic[i] == v) { d = inc ? tab[i][bj] : -tab[i][bj]; }
                    }
                }
                if ((d.sgn() > 0 && up[v]) || (d.sgn() < 0 && lo[v])) { ref_fail("ray"); }
            }
            res.bounded = false;
            return res;
        }
        V nv = inc ? val[e] + *best : val[e] - *best;
        update(bj, nv);
        if (bi != SIZE_MAX) { pivot(bi, bj); }
    }
}

} // namespace sim
