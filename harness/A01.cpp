// A01: the terms commutate() appends sum to the operator commutator a*b - b*a.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/commutator.hpp"

using namespace gen;

template <typename Term, typename M>
fock::Product to_fock(const M& m, const Term& t)
{
    return fock::Product{fock::cplx(t.prefactor), m.product(t.operators)};
}

template <typename Term, typename Result>
void commutator_case(Src& s)
{
    using Op = typename Term::Operator;
    auto m   = Modes<Op>::make(s, 1 + s.range(1, 5));
    auto random_term = [&](std::size_t n) {
        Term t;
        t.prefactor = number<typename Term::Prefactor>(s);
        for(const auto& o : m.ops(s, n)) {
            t.operators.push_back(o);
        }
        return t;
    };
    // a term whose factors contract with those of t: some of t's conjugates in it
    auto related_term = [&](const Term& t, std::size_t n) {
        Term r;
        r.prefactor = number<typename Term::Prefactor>(s);
        const auto other = m.ops(s, n);
        std::vector<Op> pool(t.operators.begin(), t.operators.end());
        for(std::size_t i = 0; i < n; ++i) {
            if(!pool.empty() && s.chance(2, 3)) {
                const auto k = s.upto(pool.size() - 1);
                r.operators.push_back(pool[k].get_conjugate());
                pool.erase(pool.begin() + k);
            } else {
                r.operators.push_back(other[i]);
            }
        }
        return r;
    };
    std::size_t n = s.sized(0, 6), k = s.sized(0, 6);
    if(n % 2 == 1 && k % 2 == 1) { // only products of one even factor have a commutator of this form
        if(s.boolean()) {
            ++n;
        } else {
            ++k;
        }
    }
    const Term a = random_term(n);
    const Term b = s.boolean() ? random_term(k) : related_term(a, k);
    Result c;
    std::size_t before = s.upto(2);
    std::vector<Term> kept;
    for(std::size_t i = 0; i < before; ++i) {
        kept.push_back(random_term(s.upto(3)));
        c.push_back(kept.back());
    }
    // the arguments may be elements of the list the result is appended to
    const bool a_inside = s.chance(1, 5), b_inside = s.chance(1, 5);
    const std::size_t a_at = before, b_at = before + (a_inside ? 1 : 0);
    if(a_inside) {
        kept.push_back(a);
    }
    if(b_inside) {
        kept.push_back(b);
    }
    for(; before < kept.size(); ++before) {
        c.push_back(kept[before]);
    }
    s.describe([&](std::ostream& o) {
        o << "commutate(";
        show_term(o, a);
        o << ", ";
        show_term(o, b);
        o << ")" << (a_inside || b_inside ? ", appended to the list that holds " : "") << (a_inside ? "the first" : "") << (a_inside && b_inside ? " and " : "") << (b_inside ? "the second" : "");
    });
    const Term a0 = a, b0 = b;
    ieompp::algebra::commutate(a_inside ? *std::next(c.begin(), a_at) : a, b_inside ? *std::next(c.begin(), b_at) : b, c);
    pbt::require(a.prefactor == a0.prefactor && a.have_same_operators(a0) && b.prefactor == b0.prefactor && b.have_same_operators(b0), "an argument was changed");

    pbt::require(c.size() >= before, "the result container lost elements");
    auto it = c.begin();
    for(std::size_t i = 0; i < before; ++i, ++it) {
        pbt::require(it->prefactor == kept[i].prefactor && it->have_same_operators(kept[i]), "an element already in the container was changed");
    }
    fock::Sum got;
    std::size_t terms = 0;
    for(; it != c.end(); ++it) {
        got.push_back(to_fock(m, *it));
        ++terms;
        if(terms > 2 * (n + 1) * (k + 1) + 10) {
            pbt::fail("far too many terms");
        }
    }
    const fock::Sum expected = fock::commutator({to_fock(m, a)}, {to_fock(m, b)});
    std::uint64_t st;
    fock::cplx x, y;
    if(!fock::same(got, expected, static_cast<unsigned>(m.tuples.size()), 1e-10, st, x, y)) {
        std::ostringstream o;
        for(const auto& t : c) {
            show_term(o, t);
        }
        pbt::fail("the sum of the ", terms, " returned terms is not the commutator: on basis state ", st, " it has the matrix element ", x, " instead of ", y, "; returned: ", o.str());
    }
    s.label(terms == 0 ? "no contraction" : terms == 1 ? "one contraction" : "several contractions");
    s.label(n % 2 ? "odd,even" : k % 2 ? "even,odd" : "even,even");
    s.nontrivial(!fock::vanishes(expected, static_cast<unsigned>(m.tuples.size())));
}

// Long products on up to 60 modes. They are compared on states on which a*b, b*a and the products without one
// contracted pair do not vanish (if there are such states), with arbitrary occupations of the other modes.
bool not_vanishing(const std::vector<fock::Op>& p, std::uint64_t& state)
{
    std::map<unsigned, bool> now; // the modes touched so far
    for(auto it = p.rbegin(); it != p.rend(); ++it) {
        const auto at = now.find(it->mode);
        if(at == now.end()) {
            const std::uint64_t bit = std::uint64_t(1) << it->mode;
            state                   = it->creator ? state & ~bit : state | bit;
        } else if(at->second == it->creator) {
            return false;
        }
        now[it->mode] = it->creator;
    }
    return true;
}
template <typename Term>
void long_products(Src& s)
{
    using Op = typename Term::Operator;
    // sites in any order; two spins per site
    const auto sites = static_cast<std::uint64_t>(s.range(2, 30));
    const auto shift = s.boolean() ? 0 : s.upto(1u << 20);
    std::uint64_t x  = s.upto(~0ull);
    std::vector<unsigned> order(2 * sites);
    for(unsigned i = 0; i < order.size(); ++i) {
        order[i] = i;
    }
    for(std::size_t i = order.size(); i > 1; --i) {
        std::swap(order[i - 1], order[pbt::splitmix(x) % i]);
    }
    const auto make  = [&](const fock::Op& o) { return Op{o.creator, shift + o.mode / 2, o.mode % 2 == 1}; };
    const auto again = s.range(0, 3), contract = s.range(0, 8); // how often a mode occurs again, out of 20 and 8
    std::size_t fresh = 0;
    std::vector<fock::Op> a, b;
    const auto next = [&](const std::vector<fock::Op>& sofar) {
        if(!sofar.empty() && (fresh == order.size() || static_cast<std::int64_t>(pbt::splitmix(x) % 20) < again)) {
            const auto& o = sofar[pbt::splitmix(x) % sofar.size()];
            return fock::Op{!o.creator, o.mode};
        }
        const unsigned m = fresh < order.size() ? order[fresh++] : order[0];
        return fock::Op{pbt::splitmix(x) % 2 == 0, m};
    };
    auto n = static_cast<std::size_t>(s.range(1, 40)), k = static_cast<std::size_t>(s.range(1, 40));
    if(n % 2 == 1 && k % 2 == 1) {
        ++(s.boolean() ? n : k);
    }
    while(a.size() < n) {
        a.push_back(next(a));
    }
    std::vector<fock::Op> pool = a;
    while(b.size() < k) {
        if(!pool.empty() && static_cast<std::int64_t>(pbt::splitmix(x) % 8) < contract) {
            const auto at = pbt::splitmix(x) % pool.size();
            b.push_back({!pool[at].creator, pool[at].mode});
            pool.erase(pool.begin() + static_cast<std::ptrdiff_t>(at));
        } else {
            b.push_back(next(b));
        }
    }
    Term ta, tb;
    ta.prefactor = s.coeff();
    tb.prefactor = s.coeff();
    for(const auto& o : a) {
        ta.operators.push_back(make(o));
    }
    for(const auto& o : b) {
        tb.operators.push_back(make(o));
    }
    s.describe([&](std::ostream& o) {
        o << "commutate(";
        show_term(o, ta);
        o << ", ";
        show_term(o, tb);
        o << ")";
    });
    std::vector<Term> c;
    ieompp::algebra::commutate(ta, tb, c);
    fock::Sum got;
    for(const auto& t : c) {
        fock::Product p{t.prefactor, {}};
        for(const auto& o : t.operators) {
            const auto site = o.index1 - shift;
            pbt::require(site < sites, "an operator with another index appears in the result");
            p.ops.push_back({o.creator, static_cast<unsigned>(2 * site + o.index2)});
        }
        got.push_back(p);
    }
    const fock::Sum sa{{ta.prefactor, a}}, sb{{tb.prefactor, b}};
    const fock::Sum expected = fock::commutator(sa, sb);
    std::vector<std::vector<fock::Op>> products{expected[0].ops, expected[1].ops};
    for(std::size_t i = 0; i < n && products.size() < 60; ++i) {
        for(std::size_t j = 0; j < k && products.size() < 60; ++j) {
            if(a[i].mode == b[j].mode && a[i].creator != b[j].creator) {
                std::vector<fock::Op> p(a.begin(), a.begin() + static_cast<std::ptrdiff_t>(i));
                p.insert(p.end(), b.begin(), b.begin() + static_cast<std::ptrdiff_t>(j));
                p.insert(p.end(), b.begin() + static_cast<std::ptrdiff_t>(j) + 1, b.end());
                p.insert(p.end(), a.begin() + static_cast<std::ptrdiff_t>(i) + 1, a.end());
                products.push_back(p);
            }
        }
    }
    const std::size_t contractions = products.size() - 2;
    for(std::size_t i = 0; i < got.size() && i < 40; ++i) {
        products.push_back(got[i].ops);
    }
    const double scale = std::max(1e-300, std::abs(ta.prefactor * tb.prefactor));
    bool seen          = false;
    for(const auto& p : products) {
        std::uint64_t st = pbt::splitmix(x) & ((std::uint64_t(1) << (2 * sites)) - 1);
        if(!not_vanishing(p, st)) {
            continue;
        }
        fock::State difference = fock::apply(expected, st);
        for(const auto& e : difference) {
            seen = seen || std::abs(e.second) > 1e-9 * scale;
        }
        for(const auto& e : fock::apply(fock::scaled(got, -1.), st)) {
            difference[e.first] += e.second;
        }
        for(const auto& e : difference) {
            pbt::require(std::abs(e.second) <= 1e-9 * scale, "the sum of the ", got.size(), " returned terms is not the commutator: on basis state ", st, " it is off by ", e.second.real());
        }
    }
    s.label(contractions == 0 ? "no contraction" : contractions == 1 ? "one contraction" : contractions < 5 ? "a few contractions" : "many contractions");
    s.nontrivial(seen);
}

template <typename P, typename Op>
using T = alg::Term<P, Op>;
template <typename P, typename Op>
using TD = alg::Term<P, Op, std::deque<Op>>;
template <typename P, typename Op>
using TM = alg::Term<P, Op, alg::Monomial<Op>>;

#define RULE "the commutator is not the zero operator"
using Hub1 = alg::Operator<std::uint64_t, bool>;
using Hub2 = alg::Operator<std::uint64_t, std::uint64_t, bool>;
RELATION("hubbard_1d_operators", 8, RULE) { commutator_case<T<double, Hub1>, std::vector<T<double, Hub1>>>(s); }
RELATION("hubbard_1d_operators_list", 2, RULE) { commutator_case<T<double, Hub1>, std::list<T<double, Hub1>>>(s); }
RELATION("hubbard_2d_operators", 4, RULE) { commutator_case<T<double, Hub2>, std::vector<T<double, Hub2>>>(s); }
RELATION("one_index", 4, RULE) { commutator_case<T<double, alg::Operator<int>>, std::vector<T<double, alg::Operator<int>>>>(s); }
RELATION("one_index_complex", 3, RULE)
{
    using C = std::complex<double>;
    commutator_case<T<C, alg::Operator<std::uint64_t>>, std::deque<T<C, alg::Operator<std::uint64_t>>>>(s);
}
RELATION("two_signed_indices_complex", 4, RULE)
{
    using C  = std::complex<double>;
    using Op = alg::Operator<int, bool>;
    commutator_case<T<C, Op>, std::vector<T<C, Op>>>(s);
}
RELATION("three_indices_integer_prefactor", 3, RULE)
{
    using Op = alg::Operator<int, short, bool>;
    commutator_case<T<int, Op>, std::vector<T<int, Op>>>(s);
}
RELATION("four_indices", 2, RULE)
{
    using Op = alg::Operator<std::uint64_t, int, bool, bool>;
    commutator_case<T<double, Op>, std::vector<T<double, Op>>>(s);
}
RELATION("float_index", 1, RULE)
{
    using Op = alg::Operator<double, bool>;
    commutator_case<T<double, Op>, std::vector<T<double, Op>>>(s);
}
RELATION("operators_in_a_deque", 1, RULE) { commutator_case<TD<double, Hub1>, std::vector<TD<double, Hub1>>>(s); }
RELATION("long products", 4, RULE) { long_products<T<double, Hub1>>(s); }
RELATION("operators_in_a_monomial", 1, RULE) { commutator_case<TM<std::complex<double>, Hub1>, std::list<TM<std::complex<double>, Hub1>>>(s); }
