// A03: conjugation is the operator adjoint and multiplication the operator product.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"

using namespace gen;

template <typename Op>
std::vector<Op> conjugated(const std::vector<Op>& ops)
{
    std::vector<Op> r;
    for(auto it = ops.rbegin(); it != ops.rend(); ++it) {
        r.push_back(Alphabets<Op>::build(!it->creator, it->index_tuple()));
    }
    return r;
}
template <typename A, typename B>
bool same_ops(const A& a, const B& b)
{
    if(a.size() != b.size()) {
        return false;
    }
    auto j = b.begin();
    for(auto i = a.begin(); i != a.end(); ++i, ++j) {
        if(i->creator != j->creator || !(i->index_tuple() == j->index_tuple())) {
            return false;
        }
    }
    return true;
}
inline bool adjoint_is(const fock::Sum& a, const fock::Sum& adj, unsigned m)
{
    for(std::uint64_t k = 0; k < (std::uint64_t(1) << m); ++k) {
        for(const auto& kv : fock::apply(a, k)) {
            if(std::abs(fock::element(adj, k, kv.first) - std::conj(kv.second)) > 1e-12 * fock::weight(a)) {
                return false;
            }
        }
        for(const auto& kv : fock::apply(adj, k)) {
            if(std::abs(fock::element(a, k, kv.first) - std::conj(kv.second)) > 1e-12 * fock::weight(a)) {
                return false;
            }
        }
    }
    return true;
}

template <typename Op>
void operator_case(Src& s)
{
    auto m       = Modes<Op>::make(s, s.range(1, 5));
    const Op a   = m.op(s);
    const Op b   = s.boolean() ? m.op(s) : a.get_conjugate();
    const Op a0  = a;
    const auto c = a.get_conjugate();
    s.describe([&](std::ostream& o) {
        show_op(o, a);
        o << " ";
        show_op(o, b);
    });
    pbt::require(c.creator == !a.creator && c.index_tuple() == a.index_tuple(), "get_conjugate() does not flip exactly the creator flag");
    Op d = a;
    d.conjugate();
    pbt::require(d.creator == c.creator && d.index_tuple() == c.index_tuple(), "conjugate() and get_conjugate() differ");
    d.conjugate();
    pbt::require(d == a && !(d != a), "conjugating twice does not give the operator back");
    pbt::require(a == a0, "get_conjugate() changed its operand");
    const bool conj = a.creator != b.creator && a.index_tuple() == b.index_tuple();
    pbt::equal(a.is_conjugate(b), conj, "is_conjugate");
    pbt::equal(b.is_conjugate(a), conj, "is_conjugate is not symmetric");
    pbt::equal(a.is_conjugate(b), c == b, "is_conjugate disagrees with get_conjugate and ==");
    s.label(conj ? "conjugates" : "no conjugates");
    s.nontrivial();
}

template <typename Op>
alg::Monomial<Op> monomial(const std::vector<Op>& v)
{
    alg::Monomial<Op> m;
    for(const auto& o : v) {
        m.push_back(o);
    }
    return m;
}

template <typename Op>
void monomial_case(Src& s)
{
    using M         = alg::Monomial<Op>;
    auto m          = Modes<Op>::make(s, s.range(1, 5));
    const unsigned q = static_cast<unsigned>(m.tuples.size());
    const auto va = m.ops(s, length(s, 6, 40));
    auto vb = m.ops(s, length(s, 6, 40));
    if(s.chance(1, 3)) { // the conjugate of a, possibly with one factor changed, dropped or swapped
        vb = conjugated(va);
        if(!vb.empty() && s.boolean()) {
            switch(s.upto(2)) {
                case 0: vb[s.upto(vb.size() - 1)] = m.op(s); break;
                case 1: vb.erase(vb.begin() + s.upto(vb.size() - 1)); break;
                default: std::swap(vb[s.upto(vb.size() - 1)], vb[s.upto(vb.size() - 1)]);
            }
        }
    }
    const M a = monomial(va), b = monomial(vb);
    s.describe([&](std::ostream& o) {
        show_ops(o, va);
        o << "   ";
        show_ops(o, vb);
    });
    const M c = a.get_conjugate();
    pbt::require(same_ops(a, va), "get_conjugate() changed its operand");
    pbt::require(same_ops(c, conjugated(va)), "get_conjugate() is not the reversed product of the conjugated factors");
    pbt::require(adjoint_is({{1., m.product(a)}}, {{1., m.product(c)}}, q), "get_conjugate() is not the adjoint operator");
    M d = a;
    d.conjugate();
    pbt::require(d == c && !(d != c), "conjugate() and get_conjugate() differ");
    d.conjugate();
    pbt::require(d == a, "conjugating twice does not give the monomial back");
    const bool conj = same_ops(b, conjugated(va));
    pbt::equal(a.is_conjugate(b), conj, "is_conjugate");
    pbt::equal(b.is_conjugate(a), conj, "is_conjugate is not symmetric");
    pbt::equal(a == b, same_ops(va, vb), "==");
    pbt::equal(a != b, !same_ops(va, vb), "!=");

    std::vector<Op> cat(va);
    cat.insert(cat.end(), vb.begin(), vb.end());
    const M p = a * b;
    pbt::require(same_ops(p, cat), "a * b is not the concatenation");
    pbt::require(same_ops(a, va) && same_ops(b, vb), "a * b changed an operand");
    M e     = a;
    M& r    = (e *= b);
    pbt::require(&r == &e && same_ops(e, cat), "a *= b is not the concatenation");
    M f = a;
    if(s.boolean()) {
        f.reserve(f.size() * 2 + s.upto(3));
    }
    f *= f;
    std::vector<Op> twice(va);
    twice.insert(twice.end(), va.begin(), va.end());
    pbt::require(same_ops(f, twice), "a *= a is not a * a");
    pbt::require(same_ops(p.get_conjugate(), b.get_conjugate() * a.get_conjugate()), "(a b)^+ is not b^+ a^+");
    s.label(conj ? "conjugates" : "no conjugates");
    s.nontrivial(va.size() >= 2);
}

template <typename P, typename Op, typename Container>
void term_case(Src& s)
{
    using T          = alg::Term<P, Op, Container>;
    auto m           = Modes<Op>::make(s, s.range(1, 5));
    const unsigned q = static_cast<unsigned>(m.tuples.size());
    const auto va = m.ops(s, length(s, 6, 40)), vb0 = m.ops(s, length(s, 6, 40));
    const auto vb = s.chance(1, 3) ? va : vb0;
    const P pa = number<P>(s), pb = number<P>(s);
    T a, b;
    a.prefactor = pa;
    b.prefactor = pb;
    a.operators.assign(va.begin(), va.end());
    b.operators.assign(vb.begin(), vb.end());
    s.describe([&](std::ostream& o) {
        show_term(o, a);
        show_term(o, b);
    });
    const T a0 = a, b0 = b;
    const T c  = a.get_conjugate();
    pbt::require(a.prefactor == pa && same_ops(a.operators, va), "get_conjugate() changed its operand");
    pbt::require(fock::cplx(c.prefactor) == std::conj(fock::cplx(pa)), "the prefactor of the conjugate is not the complex conjugate");
    pbt::require(same_ops(c.operators, conjugated(va)), "the conjugate is not the reversed product of the conjugated factors");
    pbt::require(adjoint_is({{fock::cplx(pa), m.product(va)}}, {{fock::cplx(c.prefactor), m.product(c.operators)}}, q), "get_conjugate() is not the adjoint operator");
    T d = a;
    d.conjugate();
    pbt::require(d.prefactor == c.prefactor && same_ops(d.operators, c.operators), "conjugate() and get_conjugate() differ");
    d.conjugate();
    pbt::require(d.prefactor == pa && same_ops(d.operators, va), "conjugating twice does not give the term back");
    pbt::equal(a.have_same_operators(b), same_ops(va, vb), "have_same_operators");

    std::vector<Op> cat(va);
    cat.insert(cat.end(), vb.begin(), vb.end());
    const P pp = pa * pb;
    auto ok    = [&](const P& x, const P& y) { return std::abs(fock::cplx(x) - fock::cplx(y)) <= 1e-12 * std::abs(fock::cplx(y)); };
    const T p  = a * b;
    pbt::require(ok(p.prefactor, pp) && same_ops(p.operators, cat), "a * b is not the product");
    pbt::require(a.prefactor == pa && b.prefactor == pb && same_ops(a.operators, va) && same_ops(b.operators, vb), "a * b changed an operand");
    T e  = a;
    T& r = (e *= b);
    pbt::require(&r == &e && ok(e.prefactor, pp) && same_ops(e.operators, cat), "a *= b is not the product");
    T f = a;
    f *= f;
    std::vector<Op> twice(va);
    twice.insert(twice.end(), va.begin(), va.end());
    pbt::require(ok(f.prefactor, pa * pa) && same_ops(f.operators, twice), "a *= a is not a * a");
    s.label(same_ops(va, vb) ? "equal operators" : "different operators");
    s.nontrivial(va.size() >= 2 && std::abs(fock::cplx(pa)) > 0);
}

using C    = std::complex<double>;
using Hub1 = alg::Operator<std::uint64_t, bool>;
using Hub2 = alg::Operator<std::uint64_t, std::uint64_t, bool>;
using Str  = alg::Operator<std::string, bool>;
RELATION("operator_one_index", 1, "always") { operator_case<alg::Operator<int>>(s); }
RELATION("operator_two_indices", 1, "always") { operator_case<Hub1>(s); }
RELATION("operator_two_strings", 1, "always") { operator_case<alg::Operator<std::string, std::string>>(s); }
RELATION("operator_three_indices", 1, "always") { operator_case<Hub2>(s); }
RELATION("operator_four_indices", 1, "always") { operator_case<alg::Operator<int, std::string, bool, double>>(s); }
#define RULE_M "the first monomial has at least two factors"
RELATION("monomial_two_indices", 3, RULE_M) { monomial_case<Hub1>(s); }
RELATION("monomial_one_index", 2, RULE_M) { monomial_case<alg::Operator<int>>(s); }
RELATION("monomial_three_indices", 2, RULE_M) { monomial_case<Hub2>(s); }
RELATION("monomial_strings", 2, RULE_M) { monomial_case<Str>(s); }
#define RULE_T "the first term has at least two operators and a prefactor other than zero"
RELATION("term_double", 3, RULE_T) { term_case<double, Hub1, std::vector<Hub1>>(s); }
RELATION("term_complex", 4, RULE_T) { term_case<C, Hub1, std::vector<Hub1>>(s); }
RELATION("term_complex_float_deque", 2, RULE_T) { term_case<std::complex<float>, Hub2, std::deque<Hub2>>(s); }
RELATION("term_int_strings", 2, RULE_T) { term_case<int, Str, std::vector<Str>>(s); }
RELATION("term_monomial", 2, RULE_T) { term_case<C, alg::Operator<int>, alg::Monomial<alg::Operator<int>>>(s); }
RELATION("term_list", 2, RULE_T) { term_case<double, Hub2, std::list<Hub2>>(s); }
