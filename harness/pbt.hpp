// pbt.hpp - a small property-based testing engine.
//
// A relation is a function `void rel(pbt::Src& s)` that draws its input from the choice source
// `s`, runs the code under test and throws pbt::Failure when the oracle disagrees.  Every draw is
// recorded as a bounded integer; the recorded sequence *is* the test case: it can be replayed,
// hashed (distinctness), mutated (corpus exploration) and shrunk (deleting / lowering choices).
// Cases run in forked worker processes, so that an abort, a sanitizer report, a crash or a hang of
// the code under test is a failing case like any other; the choices of the running case live in
// shared memory.
#ifndef PBT_HPP_
#define PBT_HPP_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <array>
#include <chrono>
#include <complex>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    struct Failure {
        std::string msg;
    };
    struct Discard {
    };

    constexpr std::size_t MAX_CHOICES = 1u << 16;
    constexpr std::size_t MAX_MSG     = 1u << 14;

    // state of the currently running case, visible to the parent after a crash
    struct Shared {
        volatile std::uint64_t n_choices;
        volatile std::uint64_t index;
        volatile std::int64_t status; // 0 running, 1 ok, 2 failed, 3 discarded
        std::uint64_t choices[MAX_CHOICES];
        std::uint64_t bounds[MAX_CHOICES];
        char msg[MAX_MSG];
        char desc[MAX_MSG];
    };

    inline std::uint64_t splitmix(std::uint64_t& x)
    {
        std::uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    inline std::uint64_t hash_str(const std::string& s)
    {
        std::uint64_t h = 1469598103934665603ull;
        for(unsigned char c : s) {
            h = (h ^ c) * 1099511628211ull;
        }
        return h;
    }

    struct OverRun {
    };

    class Src
    {
    public:
        enum Mode { Random, Replay };

    private:
        Mode _mode;
        std::uint64_t _rng;
        std::vector<std::uint64_t> _given;
        Shared* _sh;
        std::size_t _pos = 0;
        double _size; // in (0,1]: how large generated structures may get
        bool _nontrivial = false;
        std::vector<std::string> _labels;
        std::string _desc;

    public:
        Src(std::uint64_t seed, double size, Shared* sh) : _mode(Random), _rng(seed), _sh(sh), _size(size)
        {
            _sh->n_choices = 0;
            _sh->msg[0]    = 0;
            _sh->desc[0]   = 0;
            _sh->status    = 0;
        }
        Src(const std::vector<std::uint64_t>& given, Shared* sh)
            : _mode(Replay), _rng(0), _given(given), _sh(sh), _size(1.)
        {
            _sh->n_choices = 0;
            _sh->msg[0]    = 0;
            _sh->desc[0]   = 0;
            _sh->status    = 0;
        }

        // ---- primitive: uniform integer in [0, n]; 0 is the simplest value
        std::uint64_t draw(std::uint64_t n, const std::function<std::uint64_t()>& gen)
        {
            if(_pos >= MAX_CHOICES) {
                throw Discard{};
            }
            std::uint64_t v;
            if(_mode == Random) {
                v = gen();
            } else {
                v = _pos < _given.size() ? _given[_pos] : 0;
            }
            if(v > n) {
                v %= (n + 1);
            }
            _sh->choices[_pos] = v;
            _sh->bounds[_pos]  = n;
            ++_pos;
            _sh->n_choices = _pos;
            return v;
        }
        std::uint64_t raw() { return splitmix(_rng); }
        std::uint64_t upto(std::uint64_t n)
        {
            return draw(n, [&]() { return n == ~0ull ? raw() : raw() % (n + 1); });
        }

        // ---- integers
        std::int64_t range(std::int64_t lo, std::int64_t hi)
        {
            return lo + static_cast<std::int64_t>(upto(static_cast<std::uint64_t>(hi - lo)));
        }
        // skewed towards lo, reaching hi; the scale grows with the size of the case
        std::int64_t sized(std::int64_t lo, std::int64_t hi)
        {
            const std::uint64_t n = static_cast<std::uint64_t>(hi - lo);
            return lo + static_cast<std::int64_t>(draw(n, [&]() -> std::uint64_t {
                       if(n == 0) {
                           return 0;
                       }
                       const std::uint64_t kind = raw() % 10;
                       if(kind == 0) {
                           return raw() % (n + 1);
                       }
                       const double u  = static_cast<double>(raw() >> 11) / 9007199254740992.0;
                       const double mx = std::max(1., _size * static_cast<double>(n));
                       if(kind < 6) { // linear in size
                           return std::min<std::uint64_t>(n, static_cast<std::uint64_t>(u * (mx + 1)));
                       }
                       // log-uniform
                       return std::min<std::uint64_t>(
                           n, static_cast<std::uint64_t>(std::exp(u * std::log(mx + 1.)) - 1. + 0.5));
                   }));
        }
        bool chance(unsigned num, unsigned den)
        {
            // drawing 0 means "no"
            return draw(1, [&]() -> std::uint64_t { return (raw() % den) < num ? 1 : 0; }) == 1;
        }
        bool boolean() { return chance(1, 2); }

        template <typename T>
        const T& pick(const std::vector<T>& v)
        {
            return v[upto(v.size() - 1)];
        }
        // index drawn with weights
        std::size_t weighted(const std::vector<unsigned>& w)
        {
            unsigned tot = 0;
            for(auto x : w) {
                tot += x;
            }
            return draw(w.size() - 1, [&]() -> std::uint64_t {
                unsigned r = raw() % tot;
                for(std::size_t i = 0; i < w.size(); ++i) {
                    if(r < w[i]) {
                        return i;
                    }
                    r -= w[i];
                }
                return 0;
            });
        }

        // ---- reals
        // multiples of 1/q in [-m, m]: exactly representable when q is a power of two
        double dyadic(int m, int q = 8)
        {
            const bool neg = boolean();
            const double x = static_cast<double>(upto(static_cast<std::uint64_t>(m) * q)) / q;
            return neg ? -x : x;
        }
        // a number of threads: usually few, sometimes more than there are processors
        int team() { return static_cast<int>(chance(1, 5) ? range(5, 24) : range(1, 4)); }

        double unit() { return static_cast<double>(upto((1ull << 53) - 1)) / 9007199254740992.0; }
        double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
        // a coefficient with special values (0, +-1, tiny, large) and dyadic / irrational ones
        double coeff()
        {
            switch(weighted({6, 1, 4, 8, 6, 2, 2})) {
                case 0: return 1.;
                case 1: return 0.;
                case 2: return -1.;
                case 3: return dyadic(8);
                case 4: return real(-3., 3.);
                case 5: return real(-1., 1.) * 1e-3;
                default: return real(-1., 1.) * 1e3;
            }
        }
        double nonzero()
        {
            double c = coeff();
            return c == 0. ? 0.5 : c;
        }
        std::complex<double> ccoeff()
        {
            double re = coeff();
            double im = chance(2, 3) ? coeff() : 0.;
            return {re, im};
        }

        // ---- bookkeeping
        void nontrivial(bool b = true) { _nontrivial = _nontrivial || b; }
        bool is_nontrivial() const { return _nontrivial; }
        void label(const std::string& l) { _labels.push_back(l); }
        const std::vector<std::string>& labels() const { return _labels; }
        template <typename F>
        void describe(F f)
        {
            std::ostringstream o;
            o.precision(17);
            f(o);
            _desc += o.str();
            if(_desc.size() > MAX_MSG - 8) {
                _desc.resize(MAX_MSG - 8);
            }
            std::strncpy(_sh->desc, _desc.c_str(), MAX_MSG - 1);
        }
        template <typename... Ts>
        void note(const Ts&... ts)
        {
            describe([&](std::ostream& o) {
                int _[] = {0, (o << ts << ' ', 0)...};
                (void)_;
            });
        }
        const std::string& desc() const { return _desc; }
        double size() const { return _size; }
        std::uint64_t hash() const
        {
            std::uint64_t h = 0x1234567;
            for(std::size_t i = 0; i < _pos; ++i) {
                std::uint64_t x = h ^ (_sh->choices[i] + 0x9E3779B97F4A7C15ull * (i + 1));
                h               = splitmix(x);
            }
            return h;
        }
    };

    template <typename... Ts>
    [[noreturn]] void fail(const Ts&... ts)
    {
        std::ostringstream o;
        o.precision(17);
        int _[] = {0, (o << ts, 0)...};
        (void)_;
        throw Failure{o.str()};
    }
    template <typename... Ts>
    void require(bool c, const Ts&... ts)
    {
        if(!c) {
            fail(ts...);
        }
    }
    inline void assume(bool c)
    {
        if(!c) {
            throw Discard{};
        }
    }
    template <typename A, typename B, typename... Ts>
    void equal(const A& a, const B& b, const Ts&... ts)
    {
        if(!(a == b)) {
            fail(ts..., ": got ", a, ", expected ", b);
        }
    }
    inline bool is_close(double a, double b, double scale, double tol)
    {
        return std::abs(a - b) <= tol * std::max(1e-300, std::max(scale, std::max(std::abs(a), std::abs(b))));
    }
    template <typename... Ts>
    void near(double a, double b, double scale, double tol, const Ts&... ts)
    {
        if(!is_close(a, b, scale, tol)) {
            fail(ts..., ": got ", a, ", expected ", b, " (difference ", a - b, ")");
        }
    }
    template <typename... Ts>
    void cnear(std::complex<double> a, std::complex<double> b, double scale, double tol, const Ts&... ts)
    {
        if(!(std::abs(a - b) <= tol * std::max(scale, std::max(std::abs(a), std::abs(b))))) {
            fail(ts..., ": got ", a, ", expected ", b);
        }
    }

    struct Relation {
        std::string name;
        std::string rule; // when a case counts as non-trivial
        unsigned weight;  // relative number of cases
        std::function<void(Src&)> fn;
    };
    inline std::vector<Relation>& relations()
    {
        static std::vector<Relation> r;
        return r;
    }
    struct Register {
        Register(const char* n, const char* rule, unsigned w, std::function<void(Src&)> f)
        {
            relations().push_back({n, rule, w, f});
        }
    };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define RELATION(name, weight, rule)                                                                \
    static void PBT_CAT(rel_, __LINE__)(pbt::Src & s);                                              \
    static pbt::Register PBT_CAT(reg_, __LINE__)(name, rule, weight, PBT_CAT(rel_, __LINE__));      \
    static void PBT_CAT(rel_, __LINE__)(pbt::Src & s)

    int main(int argc, char** argv);
} // namespace pbt
#endif
