// Reference semantics of fermionic operators: their action on occupation-number states
// (Jordan-Wigner signs).  Independent of the code under test.
#ifndef VERIF_FOCK_HPP_
#define VERIF_FOCK_HPP_
#include <complex>
#include <cstdint>
#include <map>
#include <vector>

namespace fock
{
    using cplx  = std::complex<double>;
    using State = std::map<std::uint64_t, cplx>;

    struct Op {
        bool creator;
        unsigned mode;
    };
    struct Product {
        cplx c;
        std::vector<Op> ops; // leftmost factor first
    };
    using Sum = std::vector<Product>;

    inline int parity_below(std::uint64_t st, unsigned mode)
    {
        return __builtin_popcountll(st & ((std::uint64_t(1) << mode) - 1)) & 1;
    }

    // apply a product of operators to one basis state; false if the result vanishes
    inline bool apply(const std::vector<Op>& ops, std::uint64_t& st, int& sign)
    {
        for(auto it = ops.rbegin(); it != ops.rend(); ++it) {
            const std::uint64_t bit = std::uint64_t(1) << it->mode;
            const bool occ          = (st & bit) != 0;
            if(occ == it->creator) {
                return false;
            }
            if(parity_below(st, it->mode)) {
                sign = -sign;
            }
            st ^= bit;
        }
        return true;
    }

    inline void apply(const Product& p, std::uint64_t st, cplx f, State& out)
    {
        int sign = 1;
        if(apply(p.ops, st, sign)) {
            out[st] += f * p.c * double(sign);
        }
    }

    inline State apply(const Sum& s, std::uint64_t st)
    {
        State out;
        for(const auto& p : s) {
            apply(p, st, 1., out);
        }
        return out;
    }

    inline State apply(const Sum& s, const State& in)
    {
        State out;
        for(const auto& kv : in) {
            for(const auto& p : s) {
                apply(p, kv.first, kv.second, out);
            }
        }
        return out;
    }

    // <bra| sum |ket>
    inline cplx element(const Sum& s, std::uint64_t bra, std::uint64_t ket)
    {
        const auto o = apply(s, ket);
        auto it      = o.find(bra);
        return it == o.end() ? cplx(0.) : it->second;
    }

    inline double weight(const Sum& s)
    {
        double w = 0;
        for(const auto& p : s) {
            w += std::abs(p.c);
        }
        return w;
    }

    // do two sums of products act equally on all states of m modes?
    inline bool same(const Sum& a, const Sum& b, unsigned m, double tol, std::uint64_t& where, cplx& va, cplx& vb)
    {
        const double sc = std::max(1e-300, std::max(weight(a), weight(b)));
        for(std::uint64_t st = 0; st < (std::uint64_t(1) << m); ++st) {
            const State x = apply(a, st), y = apply(b, st);
            auto cmp = [&](const State& p, const State& q, bool swap) {
                for(const auto& kv : p) {
                    auto it       = q.find(kv.first);
                    const cplx o  = it == q.end() ? cplx(0.) : it->second;
                    if(!(std::abs(kv.second - o) <= tol * sc)) {
                        where = st;
                        va    = swap ? o : kv.second;
                        vb    = swap ? kv.second : o;
                        return false;
                    }
                }
                return true;
            };
            if(!cmp(x, y, false) || !cmp(y, x, true)) {
                return false;
            }
        }
        return true;
    }

    // is the sum the zero operator on m modes (up to rounding)?
    inline bool vanishes(const Sum& a, unsigned m)
    {
        const double sc = std::max(1e-300, weight(a));
        for(std::uint64_t st = 0; st < (std::uint64_t(1) << m); ++st) {
            for(const auto& kv : apply(a, st)) {
                if(std::abs(kv.second) > 1e-9 * sc) {
                    return false;
                }
            }
        }
        return true;
    }

    inline Sum product(const Sum& a, const Sum& b)
    {
        Sum r;
        for(const auto& x : a) {
            for(const auto& y : b) {
                Product p{x.c * y.c, x.ops};
                p.ops.insert(p.ops.end(), y.ops.begin(), y.ops.end());
                r.push_back(p);
            }
        }
        return r;
    }
    inline Sum scaled(Sum a, cplx f)
    {
        for(auto& x : a) {
            x.c *= f;
        }
        return a;
    }
    inline Sum plus(Sum a, const Sum& b)
    {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    inline Sum adjoint(Sum a)
    {
        for(auto& x : a) {
            x.c = std::conj(x.c);
            std::vector<Op> r;
            for(auto it = x.ops.rbegin(); it != x.ops.rend(); ++it) {
                r.push_back(Op{!it->creator, it->mode});
            }
            x.ops = r;
        }
        return a;
    }
    inline Sum commutator(const Sum& a, const Sum& b) { return plus(product(a, b), scaled(product(b, a), -1.)); }
} // namespace fock
#endif
