// A07: the text form of operators, products, terms, prefactors and tuples.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/string.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/tuple.hpp"

using namespace gen;
namespace sym = ieompp::symbolic;

// ---- reference texts
#ifdef IEOMPP_DISABLE_ARROWS
static const std::string UP = "1", DOWN = "0";
#else
static const std::string UP = u8"↑", DOWN = u8"↓";
#endif
inline std::string text(bool b) { return b ? UP : DOWN; }
template <typename T>
typename std::enable_if<!std::is_same<T, bool>::value, std::string>::type text(const T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}
template <typename Tuple, std::size_t... I>
std::string join_tuple(const Tuple& t, std::index_sequence<I...>)
{
    std::string r;
    int _[] = {0, (r += (I ? "," : "") + text(std::get<I>(t)), 0)...};
    (void)_;
    return r;
}
template <typename Op>
std::string ref_op(const Op& op)
{
    return std::string("c") + (op.creator ? u8"^†" : "") + "_{" + join_tuple(op.index_tuple(), std::make_index_sequence<Op::number_of_indices>{}) + "}";
}
template <typename Ops>
std::string ref_ops(const Ops& ops)
{
    std::string r;
    bool first = true;
    for(const auto& o : ops) {
        r += (first ? "" : " ") + ref_op(o);
        first = false;
    }
    return r;
}
template <typename X>
std::string rendered(const X& x)
{
    std::ostringstream o;
    o << "<";
    std::ostream& r = (o << x);
    pbt::require(&r == &o, "<< does not return the stream");
    o << ">";
    const std::string t = o.str();
    return t.substr(1, t.size() - 2);
}
template <typename P>
std::string ref_pref(const P& p)
{
    return text(p);
}
template <typename V>
std::string ref_pref(const sym::Prefactor<V>& p)
{
    if(p.kroneckers.empty()) {
        return text(p.value);
    }
    std::string r;
    if(std::is_signed<V>::value && p.value == V(-1)) {
        r = "-";
    } else if(p.value != V(1)) {
        r = text(p.value) + u8" ⋅ ";
    }
    bool first = true;
    for(const auto& k : p.kroneckers) {
        r += (first ? "" : " ") + std::string(u8"δ_{") + k.a + "," + k.b + "}";
        first = false;
    }
    return r;
}

template <typename Op>
void products(Src& s)
{
    auto m       = Modes<Op>::make(s, s.range(1, 5));
    const auto v = m.ops(s, length(s, 6, 40));
    s.describe([&](std::ostream& o) { show_ops(o, v); });
    for(const auto& o : v) {
        pbt::equal(rendered(o), ref_op(o), "operator");
    }
    alg::Monomial<Op> mon;
    for(const auto& o : v) {
        mon.push_back(o);
    }
    pbt::equal(rendered(mon), ref_ops(v), "monomial");
    alg::Term<double, Op> t{s.coeff(), {}};
    t.operators.assign(v.begin(), v.end());
    if(v.empty()) { // no product to show: only the prefactor must be there
        pbt::require(rendered(t).compare(0, text(t.prefactor).size(), text(t.prefactor)) == 0, "a term without operators does not start with its prefactor");
    } else {
        pbt::equal(rendered(t), text(t.prefactor) + u8" ⋅ " + ref_ops(v), "term");
    }
    s.nontrivial(v.size() >= 2);
}
#define RULE "at least two factors"
RELATION("products_one_index", 2, RULE) { products<alg::Operator<int>>(s); }
RELATION("products_one_bool", 1, RULE) { products<alg::Operator<bool>>(s); }
RELATION("products_hubbard_1d", 4, RULE) { products<alg::Operator<std::uint64_t, bool>>(s); }
RELATION("products_bool_first", 2, RULE) { products<alg::Operator<bool, std::string>>(s); }
RELATION("products_hubbard_2d", 4, RULE) { products<alg::Operator<std::uint64_t, std::uint64_t, bool>>(s); }
RELATION("products_four_indices", 2, RULE) { products<alg::Operator<bool, std::string, int, bool>>(s); }
RELATION("products_symbols", 2, RULE) { products<alg::Operator<const char*, bool>>(s); }

// close to one, but not one
template <typename V>
typename std::enable_if<std::is_integral<V>::value, V>::type close_to_one(Src&)
{
    return V(2);
}
template <typename V>
typename std::enable_if<!std::is_integral<V>::value, V>::type close_to_one(Src& s)
{
    const double x = std::ldexp(1., -static_cast<int>(s.range(4, 23)));
    return static_cast<V>(s.boolean() ? 1 + x : -1 - x);
}
template <typename V>
void prefactor_case(Src& s)
{
    sym::Prefactor<V> p{s.chance(1, 10) ? close_to_one<V>(s) : number<V>(s), {}};
    const auto n = static_cast<int>(gen::length(s, 4, 20));
    for(int i = 0; i < n; ++i) {
        const std::string a = s.pick(names()), b = s.pick(names());
        p.kroneckers.push_back(alg::make_kronecker(a, b));
        pbt::equal(rendered(p.kroneckers.back()), std::string(u8"δ_{") + a + "," + b + "}", "delta");
    }
    s.note(p.value, n, "deltas");
    pbt::equal(rendered(p), ref_pref(p), "prefactor");
    using Op = alg::Operator<std::string, bool>;
    auto m   = Modes<Op>::make(s, 3);
    alg::Term<sym::Prefactor<V>, Op> t{p, m.ops(s, s.range(1, 3))};
    pbt::equal(rendered(t), ref_pref(p) + u8" ⋅ " + ref_ops(t.operators), "symbolic term");
    s.label(p.value == V(1) ? "one" : p.value == V(-1) ? "minus one" : "other");
    s.nontrivial(n >= 1);
}
RELATION("prefactor_double", 3, "at least one delta") { prefactor_case<double>(s); }
RELATION("prefactor_int", 2, "at least one delta") { prefactor_case<int>(s); }
RELATION("prefactor_complex", 2, "at least one delta") { prefactor_case<std::complex<double>>(s); }

template <sym::IndexType K>
void index_case(Src& s, const std::string& stem)
{
    using I           = sym::Index<K>;
    const int n       = static_cast<int>(s.range(-5, 2000));
    const std::string t = s.pick(names());
    s.note(n, t);
    pbt::equal(rendered(I()), stem, "default index");
    pbt::equal(rendered(I(n)), stem + "_" + std::to_string(n), "numbered index");
    pbt::equal(rendered(I(t)), t, "named index");
    pbt::require(I(n) == I(stem + "_" + std::to_string(n)) && !(I(n) != I(n)), "equal indices");
    pbt::require(I(n) != I(n + 1) && !(I(n) == I(n + 1)), "different indices");
    pbt::require(I::type == K, "index type");
    s.nontrivial();
}
RELATION("symbolic_index", 2, "always")
{
    switch(s.upto(2)) {
        case 0: index_case<sym::IndexTypeSpace>(s, "r"); break;
        case 1: index_case<sym::IndexTypeMomentum>(s, "k"); break;
        default: index_case<sym::IndexTypeSpin>(s, u8"σ");
    }
}

template <typename... Ts>
void tuple_case(Src& s, const std::tuple<Ts...>& t, const std::vector<std::string>& parts)
{
    const std::vector<std::string> seps{",", "", ", ", ";", " | ", "("};
    const std::string d = s.pick(seps), l = s.pick(seps), r = s.pick(seps);
    std::string inner, with_comma;
    for(std::size_t i = 0; i < parts.size(); ++i) {
        inner += (i ? d : "") + parts[i];
        with_comma += (i ? "," : "") + parts[i];
    }
    s.note(with_comma);
    std::ostringstream o, p;
    ieompp::print_tuple(o, t);
    pbt::equal(o.str(), "(" + with_comma + ")", "print_tuple");
    ieompp::print_tuple(p, t, d, l, r);
    pbt::equal(p.str(), l + inner + r, "print_tuple with delimiters");
    s.nontrivial(parts.size() >= 2);
}
RELATION("tuples", 3, "at least two elements")
{
    const int a = number<int>(s);
    const std::string b = s.pick(names());
    const std::uint64_t c = s.upto(~0ull);
    const double d = s.dyadic(8);
    auto tx = [](double x) { return text(x); };
    switch(s.upto(5)) {
        case 4: tuple_case(s, std::make_tuple(c, b, a, b, a, b, d), {text(c), b, text(a), b, text(a), b, tx(d)}); break;
        case 5: tuple_case(s, std::make_tuple(d, c, c, d, c, a, b, d, c), {tx(d), text(c), text(c), tx(d), text(c), text(a), b, tx(d), text(c)}); break;
        case 0: tuple_case(s, std::make_tuple(a), {text(a)}); break;
        case 1: tuple_case(s, std::make_tuple(b, a), {b, text(a)}); break;
        case 2: tuple_case(s, std::make_tuple(a, b, c), {text(a), b, text(c)}); break;
        default: tuple_case(s, std::make_tuple(c, d, b, a, d), {text(c), tx(d), b, text(a), tx(d)});
    }
}
RELATION("compose", 2, "always")
{
    const int a = number<int>(s);
    const std::string b = s.pick(names());
    const std::uint64_t c = s.upto(~0ull);
    const double d = s.dyadic(8);
    s.note(a, b, c, d);
    pbt::equal(ieompp::compose(), std::string(), "compose()");
    pbt::equal(ieompp::compose(a), text(a), "compose(1)");
    pbt::equal(ieompp::compose(b, a, "x", c, 'y', d), b + text(a) + "x" + text(c) + "y" + text(d), "compose(6)");
    s.nontrivial();
}
