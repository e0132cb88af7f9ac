// Symbolic operators under an assignment of values to the symbols.
#ifndef VERIF_SYMBOLIC_GEN_HPP_
#define VERIF_SYMBOLIC_GEN_HPP_
#include "algebra_gen.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/symbolic/prefactor.hpp"

using namespace gen;
namespace sym = ieompp::symbolic;

using Assignment = std::map<std::string, int>;

inline int value_of(const Assignment& a, const std::string& x)
{
    auto it = a.find(x);
    if(it == a.end()) {
        pbt::fail("a Kronecker delta mentions '", x, "', which is no symbol of the input");
    }
    return it->second;
}
template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type substitute(const Assignment&, const T& t)
{
    return std::to_string(t);
}
inline std::string substitute(const Assignment& a, const std::string& x) { return "v" + std::to_string(value_of(a, x)); }

using Key = std::vector<std::string>;
template <typename Tuple, std::size_t... I>
Key substitute_all(const Assignment& a, const Tuple& t, std::index_sequence<I...>)
{
    return Key{substitute(a, std::get<I>(t))...};
}

struct Translator {
    const Assignment& a;
    std::vector<Key>& modes;
    bool frozen = false;
    template <typename Ops>
    std::vector<fock::Op> ops(const Ops& v) const
    {
        std::vector<fock::Op> r;
        for(const auto& o : v) {
            const auto t = o.index_tuple();
            const Key k  = substitute_all(a, t, std::make_index_sequence<std::tuple_size<decltype(t)>::value>{});
            unsigned i   = 0;
            while(i < modes.size() && modes[i] != k) {
                ++i;
            }
            if(i == modes.size()) {
                modes.push_back(k);
            }
            r.push_back(fock::Op{o.creator, i});
        }
        return r;
    }
    template <typename Term>
    fock::Product term(const Term& t) const
    {
        fock::cplx c(t.prefactor.value);
        for(const auto& k : t.prefactor.kroneckers) {
            if(value_of(a, k.a) != value_of(a, k.b)) {
                c = 0.;
            }
        }
        return fock::Product{c, ops(t.operators)};
    }
};

// the symbols of an operator's string-like indices
template <typename T>
void collect(std::set<std::string>&, const T&)
{
}
inline void collect(std::set<std::string>& o, const std::string& x) { o.insert(x); }
inline void collect(std::set<std::string>& o, const char* x) { o.insert(x); }
template <typename Tuple, std::size_t... I>
void collect_all(std::set<std::string>& o, const Tuple& t, std::index_sequence<I...>)
{
    int _[] = {0, (collect(o, std::get<I>(t)), 0)...};
    (void)_;
}
#endif
