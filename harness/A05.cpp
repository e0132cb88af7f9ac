// A05: copy_as_unique_terms collects like terms without changing their sum.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/term/list.hpp"

using namespace gen;

template <typename Term, typename In, typename Out>
void unique_case(Src& s)
{
    using Op     = typename Term::Operator;
    using P      = typename Term::Prefactor;
    auto m       = Modes<Op>::make(s, s.range(1, 4));
    const auto n = static_cast<int>(length(s, 24, s.chance(1, 8) ? 2500 : 250));
    // a few operator strings, each used several times
    std::vector<std::vector<Op>> strings;
    const auto k = n > 24 ? s.range(1, 200) : s.range(1, 6);
    for(int i = 0; i < k; ++i) {
        std::vector<Op> o;
        if(!strings.empty() && s.chance(1, 2)) {
            o = s.pick(strings);
            if(!o.empty() && s.boolean()) {
                o[s.upto(o.size() - 1)] = m.op(s);
            } else {
                o.push_back(m.op(s));
            }
        } else {
            const auto len = static_cast<int>(length(s, 4, 16));
            for(int j = 0; j < len; ++j) {
                o.push_back(m.op(s));
            }
        }
        strings.push_back(o);
    }
    In in;
    std::vector<Term> terms;
    for(int i = 0; i < n; ++i) {
        Term t;
        t.prefactor   = number<P>(s);
        const auto& o = strings[s.upto(strings.size() - 1)];
        t.operators.assign(o.begin(), o.end());
        terms.push_back(t);
        in.push_back(t);
    }
    Out out;
    const auto before = s.chance(1, 6) ? s.upto(40) : s.upto(2);
    for(std::uint64_t i = 0; i < before; ++i) {
        Term t;
        t.prefactor = P(7);
        if(!terms.empty() && s.boolean()) {
            t.operators = terms[0].operators;
        }
        out.push_back(t);
    }
    const std::vector<Term> kept(out.begin(), out.end());
    s.describe([&](std::ostream& o) {
        for(const auto& t : terms) {
            show_term(o, t);
        }
    });
    alg::copy_as_unique_terms(in, out);

    pbt::equal(in.size(), terms.size(), "the input changed its size");
    auto j = terms.begin();
    for(const auto& t : in) {
        pbt::require(t.prefactor == j->prefactor && t.have_same_operators(*j), "the input was changed");
        ++j;
    }
    pbt::require(out.size() >= kept.size(), "the result lost elements");
    const std::vector<Term> all(out.begin(), out.end());
    for(std::size_t i = 0; i < kept.size(); ++i) {
        pbt::require(all[i].prefactor == kept[i].prefactor && all[i].have_same_operators(kept[i]), "an element already in the result was changed");
    }
    const std::vector<Term> res(all.begin() + kept.size(), all.end());

    // reference: sums per operator string
    struct Entry {
        Term t;
        std::complex<double> sum;
        double weight;
        bool seen;
    };
    std::vector<Entry> ref;
    bool merged = false;
    for(const auto& t : terms) {
        auto it = std::find_if(ref.begin(), ref.end(), [&](const Entry& e) { return e.t.have_same_operators(t); });
        if(it == ref.end()) {
            ref.push_back(Entry{t, std::complex<double>(t.prefactor), std::abs(std::complex<double>(t.prefactor)), false});
        } else {
            it->sum += std::complex<double>(t.prefactor);
            it->weight += std::abs(std::complex<double>(t.prefactor));
            merged = true;
        }
    }
    for(const auto& t : res) {
        auto it = std::find_if(ref.begin(), ref.end(), [&](const Entry& e) { return e.t.have_same_operators(t); });
        pbt::require(it != ref.end(), "the result contains an operator string that is not in the input");
        pbt::require(!it->seen, "an operator string occurs twice in the result");
        it->seen = true;
        pbt::require(std::abs(std::complex<double>(t.prefactor) - it->sum) <= 1e-6 * it->weight * (std::is_same<P, std::complex<float>>::value ? 10. : 1e-4),
                     "a prefactor is not the sum of the like terms: ", t.prefactor, " instead of ", it->sum);
    }
    for(const auto& e : ref) {
        pbt::require(e.seen || std::abs(e.sum) <= 1e-9 * e.weight, "an operator string of the input is missing from the result");
    }
    alg::TermSmaller<Term> lt;
    for(std::size_t i = 1; i < res.size(); ++i) {
        pbt::require(lt(res[i - 1], res[i]), "the result is not in ascending order");
    }
    s.label(merged ? "like terms" : "no like terms");
    s.nontrivial(merged && ref.size() >= 2);
}

#define RULE "at least two distinct operator strings and at least one occurring twice"
using C     = std::complex<double>;
using Hub1  = alg::Operator<std::uint64_t, bool>;
using Hub2  = alg::Operator<std::uint64_t, std::uint64_t, bool>;
using TD    = alg::Term<double, Hub1>;
using TC    = alg::Term<C, Hub2>;
using TI    = alg::Term<int, alg::Operator<int>>;
using TS    = alg::Term<double, alg::Operator<std::string, bool>>;
RELATION("vector_to_vector", 4, RULE) { unique_case<TD, std::vector<TD>, std::vector<TD>>(s); }
RELATION("vector_to_list_complex", 3, RULE) { unique_case<TC, std::vector<TC>, std::list<TC>>(s); }
RELATION("list_to_vector_int", 3, RULE) { unique_case<TI, std::list<TI>, std::vector<TI>>(s); }
RELATION("deque_to_deque_strings", 3, RULE) { unique_case<TS, std::deque<TS>, std::deque<TS>>(s); }
