// A08: construction, index access and comparison of operators agree with the tuple of their indices.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/operator/is_symbolic.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/models/hubbard/operator_traits.hpp"
#include "ieompp/symbolic/index.hpp"

using namespace gen;
namespace hub = ieompp::models::hubbard;

template <typename Op, std::size_t I>
struct Access {
    static void check(Src& s, const typename Op::Indices& t, const typename Op::Indices& u, bool cr)
    {
        Access<Op, I - 1>::check(s, t, u, cr);
        constexpr std::size_t i = I - 1;
        Op op                   = Alphabets<Op>::build(cr, t);
        const Op cop            = op;
        pbt::require(alg::get_index<i>(op) == std::get<i>(t), "get_index<", i, "> of an operator");
        pbt::require(alg::get_index<i>(cop) == std::get<i>(t), "get_index<", i, "> of a const operator");
        pbt::require(alg::get_index<i>(Alphabets<Op>::build(cr, t)) == std::get<i>(t), "get_index<", i, "> of a temporary operator");
        alg::get_index<i>(op) = std::get<i>(u);
        auto v                = t;
        std::get<i>(v)        = std::get<i>(u);
        pbt::require(op.index_tuple() == v && op.creator == cr, "writing through get_index<", i, "> does not change exactly that index");
        using X = typename alg::IndexType<i, Op>::Type;
        static_assert(std::is_same<X, typename std::tuple_element<i, typename Op::Indices>::type>::value, "IndexType");
        pbt::equal(bool(alg::IsSymbolicIndex<i, Op>::value), !std::is_arithmetic<X>::value, "IsSymbolicIndex");
    }
};
template <typename Op>
struct Access<Op, 0> {
    static void check(Src&, const typename Op::Indices&, const typename Op::Indices&, bool) {}
};

template <typename Op, typename Tuple, std::size_t... I>
Op via_static(bool cr, const Tuple& t, std::index_sequence<I...>)
{
    return cr ? Op::make_creator(std::get<I>(t)...) : Op::make_annihilator(std::get<I>(t)...);
}
template <typename Op, typename Tuple, std::size_t... I>
Op via_static_rvalue(bool cr, const Tuple& t, std::index_sequence<I...>)
{
    return cr ? Op::make_creator(typename std::tuple_element<I, Tuple>::type(std::get<I>(t))...)
              : Op::make_annihilator(typename std::tuple_element<I, Tuple>::type(std::get<I>(t))...);
}
template <typename Op, typename Tuple, std::size_t... I>
Op via_lvalues(bool cr, const Tuple& t, std::index_sequence<I...>)
{
    return cr ? alg::make_creator(std::get<I>(t)...) : alg::make_annihilator(std::get<I>(t)...);
}

template <typename Op>
void access_case(Src& s)
{
    constexpr std::size_t N = Op::number_of_indices;
    using Seq               = std::make_index_sequence<N>;
    static_assert(N == std::tuple_size<typename Op::Indices>::value, "number_of_indices");
    const auto al = Alphabets<Op>::make(s);
    const auto t  = al.indices(s);
    const auto u  = s.chance(1, 4) ? t : al.indices(s);
    const bool c1 = s.boolean(), c2 = s.chance(2, 3) ? c1 : !c1;
    Op a = Alphabets<Op>::build(c1, t), b = Alphabets<Op>::build(c2, u);
    s.describe([&](std::ostream& o) {
        show_op(o, a);
        o << " ";
        show_op(o, b);
    });
    for(const Op& x : {via_static<Op>(c1, t, Seq{}), via_static_rvalue<Op>(c1, t, Seq{}), via_lvalues<Op>(c1, t, Seq{}), a}) {
        pbt::require(x.creator == c1, "a factory function made the wrong kind of operator");
        pbt::require(x.index_tuple() == t, "a factory function lost an index");
        pbt::require(alg::get_indices(x) == t, "get_indices");
    }
    Access<Op, N>::check(s, t, u, c1);
    const bool same = t == u, eq = same && c1 == c2;
    pbt::equal(a == b, eq, "==");
    pbt::equal(b == a, eq, "== (reversed)");
    pbt::equal(a != b, !eq, "!=");
    pbt::equal(a.same_indices(b), same, "same_indices");
    s.label(eq ? "equal" : same ? "same indices" : "different indices");
    s.nontrivial(!same);
}
#define RULE "the two operators have different indices"
RELATION("one_index", 2, RULE) { access_case<alg::Operator<int>>(s); }
RELATION("one_string", 2, RULE) { access_case<alg::Operator<std::string>>(s); }
RELATION("two_indices", 3, RULE) { access_case<alg::Operator<std::uint64_t, bool>>(s); }
RELATION("two_mixed", 2, RULE) { access_case<alg::Operator<bool, std::string>>(s); }
RELATION("two_alike", 3, RULE) { access_case<alg::Operator<int, int>>(s); }
RELATION("three_indices", 3, RULE) { access_case<alg::Operator<std::uint64_t, std::uint64_t, bool>>(s); }
RELATION("three_alike", 3, RULE) { access_case<alg::Operator<int, int, int>>(s); }
RELATION("five_mixed", 3, RULE) { access_case<alg::Operator<short, std::string, bool, double, std::uint64_t>>(s); }

// compile-time classification, looked up for generated index lists
struct Traits {
    std::string types;
    bool symbolic, has_bool, has_u64, has_string, h1, h2, is_op, is_term;
};
template <typename T>
struct Name;
#define NAME(T, n)                                                                                  \
    template <>                                                                                     \
    struct Name<T> {                                                                                \
        static std::string get() { return n; }                                                      \
    };
NAME(bool, "b")
NAME(int, "i")
NAME(std::uint64_t, "u")
NAME(double, "d")
NAME(std::string, "s")
template <typename... Ts>
Traits traits()
{
    using Op = alg::Operator<Ts...>;
    std::string n;
    int _[] = {0, (n += Name<Ts>::get(), 0)...};
    (void)_;
    return Traits{n,
                  alg::IsSymbolicOperator<Op>::value,
                  alg::HasIndexOfType<Op, bool>::value,
                  alg::HasIndexOfType<Op, std::uint64_t>::value,
                  alg::HasIndexOfType<Op, std::string>::value,
                  hub::Is1dHubbardOperator<Op>::value,
                  hub::Is2dHubbardOperator<Op>::value,
                  alg::IsOperator<Op>::value && !alg::IsOperator<std::tuple<Ts...>>::value,
                  alg::IsTerm<alg::Term<double, Op>>::value && !alg::IsTerm<Op>::value};
}
template <int D, typename... Ts>
struct All {
    static void add(std::vector<Traits>& v)
    {
        v.push_back(traits<Ts...>());
        All<D - 1, Ts..., bool>::add(v);
        All<D - 1, Ts..., int>::add(v);
        All<D - 1, Ts..., std::uint64_t>::add(v);
        All<D - 1, Ts..., double>::add(v);
        All<D - 1, Ts..., std::string>::add(v);
    }
};
template <typename... Ts>
struct All<0, Ts...> {
    static void add(std::vector<Traits>& v) { v.push_back(traits<Ts...>()); }
};
RELATION("classification", 2, "at least two indices")
{
    static const std::vector<Traits> table = [] {
        std::vector<Traits> v;
        All<2, bool>::add(v);
        All<2, int>::add(v);
        All<2, std::uint64_t>::add(v);
        All<1, double>::add(v);
        All<2, std::string>::add(v);
        v.push_back(traits<int, int, bool, int>());
        v.push_back(traits<int, int, int, std::string>());
        v.push_back(traits<double, double, double, bool>());
        v.push_back(traits<int, std::uint64_t, double, int>());
        return v;
    }();
    const Traits& t = table[s.upto(table.size() - 1)];
    s.note(t.types);
    auto has      = [&](char c) { return t.types.find(c) != std::string::npos; };
    auto integral = [](char c) { return c == 'b' || c == 'i' || c == 'u'; };
    pbt::equal(t.symbolic, has('s'), "IsSymbolicOperator");
    pbt::equal(t.has_bool, has('b'), "HasIndexOfType<bool>");
    pbt::equal(t.has_u64, has('u'), "HasIndexOfType<uint64_t>");
    pbt::equal(t.has_string, has('s'), "HasIndexOfType<string>");
    pbt::equal(t.h1, t.types.size() == 2 && integral(t.types[0]) && t.types[1] == 'b', "Is1dHubbardOperator");
    pbt::equal(t.h2, t.types.size() == 3 && integral(t.types[0]) && integral(t.types[1]) && t.types[2] == 'b', "Is2dHubbardOperator");
    pbt::require(t.is_op, "IsOperator");
    pbt::require(t.is_term, "IsTerm");
    s.nontrivial(t.types.size() >= 2);
}
static_assert(std::is_same<hub::SpatialIndexType<alg::Operator<int, bool>>::Type, int>::value, "1d spatial index");
