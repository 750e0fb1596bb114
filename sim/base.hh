// Shared basics of the simulators: choice streams, hashing, counters, exact small rationals.
#pragma once
#include <gmpxx.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- hashing / PRNG
inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_bytes(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto const *c = static_cast<unsigned char const *>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h;
}
inline uint64_t hash_str(std::string const &s, uint64_t h = 1469598103934665603ull) {
    return hash_bytes(s.data(), s.size(), h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s{seed} {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
};

// ---------------------------------------------------------------- choice streams
// Every decision of a simulated run is one draw from one of four streams. A draw is recorded as the
// value it returned; replaying the recorded lists repeats the run, and a draw past the end of a
// replayed list returns 0, which is the simplest choice everywhere.
enum Stream { PROG = 0, HOST = 1, SCHED = 2, FAULT = 3, NSTREAM = 4 };
constexpr size_t STREAM_CAP = 1u << 17;

struct StreamBuf { // lives in shared memory so that a crashed run still has its trace
    uint32_t len[NSTREAM];
    uint32_t data[NSTREAM][STREAM_CAP];
};

struct Choice {
    bool replay{false};
    std::vector<Rng> rng;
    std::vector<uint32_t> in[NSTREAM];
    size_t pos[NSTREAM]{};
    StreamBuf *out{nullptr};

    void seed(uint64_t sd) {
        rng.clear();
        for (int i = 0; i < NSTREAM; ++i) {
            rng.emplace_back(mix64(sd * 4 + i + 1));
        }
    }
    // uniform in [0, n)
    uint32_t draw(Stream s, uint32_t n) {
        uint32_t v = 0;
        if (n > 1) {
            if (replay) {
                v = pos[s] < in[s].size() ? in[s][pos[s]] % n : 0;
            } else {
                v = static_cast<uint32_t>(rng[s].next() % n);
            }
        }
        ++pos[s];
        if (out != nullptr && out->len[s] < STREAM_CAP) {
            out->data[s][out->len[s]++] = v;
        }
        return v;
    }
    // true with probability num/den; the simple choice (0) is false
    bool chance(Stream s, uint32_t num, uint32_t den) {
        uint32_t v = draw(s, den);
        return v >= den - num && num > 0;
    }
    int range(Stream s, int lo, int hi) { return lo + static_cast<int>(draw(s, static_cast<uint32_t>(hi - lo + 1))); }
};

// ---------------------------------------------------------------- rationals
// Small fast path on 64 bit numerators/denominators; falls back to GMP.
class Q {
    int64_t n_{0};
    int64_t d_{1};
    std::unique_ptr<mpq_class> b_;
    static bool fits(__int128 x) { return x >= -INT64_MAX && x <= INT64_MAX; }
    static __int128 gcd128(__int128 a, __int128 b) {
        if (a < 0) { a = -a; }
        if (b < 0) { b = -b; }
        while (b != 0) {
            if (a <= INT64_MAX && b <= INT64_MAX) {
                auto x = static_cast<uint64_t>(a), y = static_cast<uint64_t>(b);
                while (y != 0) { auto t = x % y; x = y; y = t; }
                return static_cast<__int128>(x);
            }
            auto t = a % b; a = b; b = t;
        }
        return a;
    }
    static mpz_class mpz128(__int128 x) {
        bool neg = x < 0;
        unsigned __int128 u = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
        mpz_class r;
        mpz_set_ui(r.get_mpz_t(), static_cast<unsigned long>(u >> 64));
        r <<= 64;
        mpz_class lo;
        mpz_set_ui(lo.get_mpz_t(), static_cast<unsigned long>(u));
        r += lo;
        return neg ? mpz_class(-r) : r;
    }
    void set128(__int128 n, __int128 d) {
        auto g = gcd128(n, d);
        if (g > 1) { n /= g; d /= g; }
        if (d < 0) { n = -n; d = -d; }
        if (fits(n) && fits(d)) {
            n_ = static_cast<int64_t>(n);
            d_ = static_cast<int64_t>(d);
            b_.reset();
        } else {
            mpq_class q(mpz128(n), mpz128(d));
            q.canonicalize();
            b_ = std::make_unique<mpq_class>(std::move(q));
        }
    }
    void set_big(mpq_class q) {
        if (q.get_num().fits_slong_p() != 0 && q.get_den().fits_slong_p() != 0 && q.get_num() != LONG_MIN_()) {
            n_ = q.get_num().get_si();
            d_ = q.get_den().get_si();
            b_.reset();
        } else {
            b_ = std::make_unique<mpq_class>(std::move(q));
        }
    }
    static mpz_class LONG_MIN_() { return mpz_class("-9223372036854775808"); }

  public:
    Q() = default;
    Q(int64_t n) : n_{n} {} // NOLINT
    Q(int64_t n, int64_t d) { set128(n, d); }
    Q(mpq_class q) { // NOLINT
        q.canonicalize();
        set_big(std::move(q));
    }
    Q(Q const &o) : n_{o.n_}, d_{o.d_}, b_{o.b_ ? std::make_unique<mpq_class>(*o.b_) : nullptr} {}
    Q(Q &&o) noexcept = default;
    Q &operator=(Q const &o) {
        if (this != &o) {
            n_ = o.n_;
            d_ = o.d_;
            b_ = o.b_ ? std::make_unique<mpq_class>(*o.b_) : nullptr;
        }
        return *this;
    }
    Q &operator=(Q &&o) noexcept = default;
    mpq_class big() const {
        if (b_) { return *b_; }
        return mpq_class(mpz128(n_), mpz128(d_));
    }
    int sgn() const { return b_ ? ::sgn(*b_) : (n_ > 0) - (n_ < 0); }
    Q operator-() const {
        Q r(*this);
        if (r.b_) { *r.b_ = -*r.b_; } else { r.n_ = -r.n_; }
        return r;
    }
    friend Q operator+(Q const &a, Q const &b) {
        Q r;
        if (!a.b_ && !b.b_) {
            __int128 x = static_cast<__int128>(a.n_) * b.d_, y = static_cast<__int128>(b.n_) * a.d_;
            __int128 s;
            if (!__builtin_add_overflow(x, y, &s)) {
                r.set128(s, static_cast<__int128>(a.d_) * b.d_);
                return r;
            }
        }
        r.set_big(a.big() + b.big());
        return r;
    }
    friend Q operator-(Q const &a, Q const &b) { return a + (-b); }
    friend Q operator*(Q const &a, Q const &b) {
        Q r;
        if (!a.b_ && !b.b_) {
            r.set128(static_cast<__int128>(a.n_) * b.n_, static_cast<__int128>(a.d_) * b.d_);
            return r;
        }
        r.set_big(a.big() * b.big());
        return r;
    }
    friend Q operator/(Q const &a, Q const &b) {
        Q r;
        if (!a.b_ && !b.b_) {
            r.set128(static_cast<__int128>(a.n_) * b.d_, static_cast<__int128>(a.d_) * b.n_);
            return r;
        }
        r.set_big(a.big() / b.big());
        return r;
    }
    Q &operator+=(Q const &o) { return *this = *this + o; }
    Q &operator-=(Q const &o) { return *this = *this - o; }
    Q &operator*=(Q const &o) { return *this = *this * o; }
    static int cmp(Q const &a, Q const &b) {
        if (!a.b_ && !b.b_) {
            __int128 x = static_cast<__int128>(a.n_) * b.d_, y = static_cast<__int128>(b.n_) * a.d_;
            return (x > y) - (x < y);
        }
        return ::cmp(a.big(), b.big());
    }
    friend bool operator==(Q const &a, Q const &b) { return cmp(a, b) == 0; }
    friend bool operator!=(Q const &a, Q const &b) { return cmp(a, b) != 0; }
    friend bool operator<(Q const &a, Q const &b) { return cmp(a, b) < 0; }
    friend bool operator>(Q const &a, Q const &b) { return cmp(a, b) > 0; }
    friend bool operator<=(Q const &a, Q const &b) { return cmp(a, b) <= 0; }
    friend bool operator>=(Q const &a, Q const &b) { return cmp(a, b) >= 0; }
    std::string str() const { return big().get_str(); }
};

// value with infinitesimal part, ordered lexicographically
struct V {
    Q r;
    Q e;
    V() = default;
    V(Q a) : r{std::move(a)} {} // NOLINT
    V(Q a, Q b) : r{std::move(a)}, e{std::move(b)} {}
    friend V operator+(V const &a, V const &b) { return {a.r + b.r, a.e + b.e}; }
    friend V operator-(V const &a, V const &b) { return {a.r - b.r, a.e - b.e}; }
    friend V operator*(Q const &k, V const &a) { return {k * a.r, k * a.e}; }
    V &operator+=(V const &o) { r += o.r; e += o.e; return *this; }
    static int cmp(V const &a, V const &b) {
        int c = Q::cmp(a.r, b.r);
        return c != 0 ? c : Q::cmp(a.e, b.e);
    }
    friend bool operator==(V const &a, V const &b) { return cmp(a, b) == 0; }
    friend bool operator!=(V const &a, V const &b) { return cmp(a, b) != 0; }
    friend bool operator<(V const &a, V const &b) { return cmp(a, b) < 0; }
    friend bool operator>(V const &a, V const &b) { return cmp(a, b) > 0; }
    friend bool operator<=(V const &a, V const &b) { return cmp(a, b) <= 0; }
    friend bool operator>=(V const &a, V const &b) { return cmp(a, b) >= 0; }
    std::string str() const { return e.sgn() == 0 ? r.str() : r.str() + "+" + e.str() + "*e"; }
};

inline std::string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}

} // namespace sim
