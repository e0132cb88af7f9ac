// Generators of indices, operators and terms, and their translation to the reference semantics.
#ifndef VERIF_ALGEBRA_GEN_HPP_
#define VERIF_ALGEBRA_GEN_HPP_
#include "fock.hpp"
#include "pbt.hpp"

#include <deque>
#include <limits>
#include <list>
#include <string>
#include <tuple>
#include <type_traits>

#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term.hpp"

namespace gen
{
    namespace alg = ieompp::algebra;
    using pbt::Src;

    // ---- index values: small distinct alphabets with edge values
    template <typename T, typename = void>
    struct Values;

    template <>
    struct Values<bool> {
        static std::vector<bool> alphabet(Src&) { return {false, true}; }
    };

    template <typename T>
    struct Values<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
        static std::vector<T> alphabet(Src& s)
        {
            std::vector<T> v;
            const int n = static_cast<int>(s.sized(1, 3));
            for(int i = 0; i < n; ++i) {
                T x;
                switch(s.weighted({6, 2, 1, 1, 1})) {
                    case 0: x = static_cast<T>(s.upto(5)); break;
                    case 1: x = static_cast<T>(s.range(-3, 300)); break;
                    case 2: x = std::numeric_limits<T>::max(); break;
                    case 3: x = std::numeric_limits<T>::min(); break;
                    // congruent to a small number modulo 2^8, 2^16 or 2^32
                    default: x = static_cast<T>(s.upto(3) + (std::uint64_t(1) << s.pick(std::vector<int>{8, 16, 32}))); break;
                }
                if(std::find(v.begin(), v.end(), x) == v.end()) {
                    v.push_back(x);
                }
            }
            return v;
        }
    };

    template <typename T>
    struct Values<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
        static std::vector<T> alphabet(Src& s)
        {
            std::vector<T> v;
            const int n = static_cast<int>(s.sized(1, 3));
            for(int i = 0; i < n; ++i) {
                const T x = static_cast<T>(s.dyadic(4, 4));
                if(std::find(v.begin(), v.end(), x) == v.end()) {
                    v.push_back(x);
                }
            }
            return v;
        }
    };

    inline const std::vector<std::string>& names()
    {
        static const std::vector<std::string> n{"r_1", "r_2", "i", "j", "k", "q", "", "r", "ii", u8"σ", "A B", "r_10", "-", "1", "0", "j ", u8"σ'", "kk",
                                                  // longer texts with a common beginning
                                                  "lattice_site_number_1", "lattice_site_number_2", "lattice_site_number_10", "lattice_site_number_1 "};
        return n;
    }
    template <>
    struct Values<std::string> {
        static std::vector<std::string> alphabet(Src& s)
        {
            std::vector<std::string> v;
            const int n = static_cast<int>(s.sized(1, 4));
            for(int i = 0; i < n; ++i) {
                const std::string x = s.pick(names());
                if(std::find(v.begin(), v.end(), x) == v.end()) {
                    v.push_back(x);
                }
            }
            return v;
        }
    };
    template <>
    struct Values<const char*> {
        // pointers to distinct texts; sometimes the same text at two addresses
        static std::vector<const char*> alphabet(Src& s)
        {
            static std::deque<std::string> copies(names().begin(), names().end());
            std::vector<const char*> v;
            const int n = static_cast<int>(s.sized(1, 4));
            for(int i = 0; i < n; ++i) {
                const auto k      = s.upto(names().size() - 1);
                const char* const p = s.chance(1, 6) ? copies[k].c_str() : names()[k].c_str();
                if(std::find(v.begin(), v.end(), p) == v.end()) {
                    v.push_back(p);
                }
            }
            return v;
        }
    };

    // mostly short, sometimes long
    inline std::size_t length(Src& s, std::size_t small, std::size_t large)
    {
        return s.chance(1, 12) ? static_cast<std::size_t>(s.range(static_cast<std::int64_t>(small) + 1, static_cast<std::int64_t>(large))) : static_cast<std::size_t>(s.sized(0, static_cast<std::int64_t>(small)));
    }

    // ---- operators
    template <typename Op>
    struct Alphabets;
    template <typename... Ts>
    struct Alphabets<alg::Operator<Ts...>> {
        using Op      = alg::Operator<Ts...>;
        using Indices = std::tuple<Ts...>;
        std::tuple<std::vector<Ts>...> values;
        static Alphabets make(Src& s) { return Alphabets{std::tuple<std::vector<Ts>...>{Values<Ts>::alphabet(s)...}}; }

        template <std::size_t... I>
        Indices indices(Src& s, std::index_sequence<I...>) const
        {
            return Indices{one(s, std::get<I>(values))...};
        }
        template <typename T>
        static T one(Src& s, const std::vector<T>& v)
        {
            return v[s.upto(v.size() - 1)];
        }
        static bool one(Src& s, const std::vector<bool>& v) { return v[s.upto(v.size() - 1)]; }
        Indices indices(Src& s) const { return indices(s, std::index_sequence_for<Ts...>{}); }

        template <std::size_t... I>
        static Op build(bool creator, const Indices& idx, std::index_sequence<I...>)
        {
            return creator ? alg::make_creator(Ts(std::get<I>(idx))...) : alg::make_annihilator(Ts(std::get<I>(idx))...);
        }
        static Op build(bool creator, const Indices& idx) { return build(creator, idx, std::index_sequence_for<Ts...>{}); }
        Op op(Src& s) const
        {
            const bool cr = s.boolean();
            return build(cr, indices(s));
        }
    };

    // up to `m` distinct index tuples, from which operators are drawn
    template <typename Op>
    struct Modes {
        Alphabets<Op> alphabets;
        std::vector<typename Op::Indices> tuples;
        static Modes make(Src& s, std::size_t m)
        {
            Modes r{Alphabets<Op>::make(s), {}};
            const std::size_t n = m;
            for(std::size_t i = 0; i < n; ++i) {
                const auto t = r.alphabets.indices(s);
                if(std::find(r.tuples.begin(), r.tuples.end(), t) == r.tuples.end()) {
                    r.tuples.push_back(t);
                }
            }
            return r;
        }
        Op op(Src& s) const
        {
            const bool cr = s.boolean();
            return Alphabets<Op>::build(cr, tuples[s.upto(tuples.size() - 1)]);
        }
        // n operators; mostly alternating on each mode, so that the product is not the zero operator
        std::vector<Op> ops(Src& s, std::size_t n) const
        {
            std::vector<Op> r;
            std::vector<int> last(tuples.size(), -1);
            const bool alternate = !s.chance(1, 4);
            for(std::size_t i = 0; i < n; ++i) {
                bool cr             = s.boolean();
                const std::size_t k = s.upto(tuples.size() - 1);
                if(alternate && last[k] >= 0) {
                    cr = last[k] == 0;
                }
                last[k] = cr;
                r.push_back(Alphabets<Op>::build(cr, tuples[k]));
            }
            return r;
        }
        // index tuple -> mode number
        unsigned mode(const typename Op::Indices& t) const
        {
            for(unsigned i = 0; i < tuples.size(); ++i) {
                if(tuples[i] == t) {
                    return i;
                }
            }
            pbt::fail("an operator appeared whose indices occur in no input operator");
        }
        template <typename Container>
        std::vector<fock::Op> product(const Container& ops) const
        {
            std::vector<fock::Op> r;
            for(const auto& o : ops) {
                r.push_back(fock::Op{o.creator, mode(o.index_tuple())});
            }
            return r;
        }
    };

    template <typename T>
    struct IsComplex : std::false_type {
    };
    template <typename T>
    struct IsComplex<std::complex<T>> : std::true_type {
    };

    template <typename P>
    typename std::enable_if<std::is_integral<P>::value, P>::type number(Src& s)
    {
        return static_cast<P>(s.range(-9, 9));
    }
    template <typename P>
    typename std::enable_if<std::is_floating_point<P>::value, P>::type number(Src& s)
    {
        return static_cast<P>(s.coeff());
    }
    template <typename P>
    typename std::enable_if<IsComplex<P>::value, P>::type number(Src& s)
    {
        return P(s.ccoeff());
    }

    template <typename Tuple, std::size_t... I>
    void show_tuple(std::ostream& o, const Tuple& t, std::index_sequence<I...>)
    {
        int _[] = {0, (o << (I ? "," : "") << std::get<I>(t), 0)...};
        (void)_;
    }
    template <typename Op>
    void show_op(std::ostream& o, const Op& op)
    {
        o << (op.creator ? "c+(" : "c(");
        show_tuple(o, op.index_tuple(), std::make_index_sequence<Op::number_of_indices>{});
        o << ")";
    }
    template <typename Ops>
    void show_ops(std::ostream& o, const Ops& ops)
    {
        for(const auto& op : ops) {
            show_op(o, op);
        }
        if(ops.begin() == ops.end()) {
            o << "1";
        }
    }
    template <typename Term>
    void show_term(std::ostream& o, const Term& t)
    {
        o << "[" << t.prefactor << "]";
        show_ops(o, t.operators);
        o << " ";
    }
} // namespace gen
#endif
