// A04: OperatorSmaller/Greater and TermSmaller/Greater are strict total orders with the stated key.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/term/order.hpp"

using namespace gen;

// reference: creators first, then the index tuple lexicographically (std::tuple comparison)
template <typename Op>
int ref_cmp(const Op& a, const Op& b)
{
    if(a.creator != b.creator) {
        return a.creator ? -1 : 1;
    }
    const auto x = a.index_tuple(), y = b.index_tuple();
    return x < y ? -1 : y < x ? 1 : 0;
}
template <typename T>
int ref_cmp_terms(const T& a, const T& b)
{
    if(a.operators.size() != b.operators.size()) {
        return a.operators.size() < b.operators.size() ? -1 : 1;
    }
    auto j = b.operators.begin();
    for(auto i = a.operators.begin(); i != a.operators.end(); ++i, ++j) {
        const int c = ref_cmp(*i, *j);
        if(c != 0) {
            return c;
        }
    }
    return 0;
}

template <typename X, typename Smaller, typename Greater, typename Cmp>
void laws(const std::vector<X>& v, Smaller lt, Greater gt, Cmp cmp, bool& ordered_pair)
{
    for(const auto& a : v) {
        pbt::require(!lt(a, a) && !gt(a, a), "an element is ordered before itself");
        for(const auto& b : v) {
            const int c = cmp(a, b);
            pbt::equal(lt(a, b), c < 0, "smaller");
            pbt::equal(gt(a, b), c > 0, "greater");
            pbt::require(lt(a, b) == gt(b, a), "greater is not the converse of smaller");
            pbt::require(!(lt(a, b) && lt(b, a)), "smaller is not asymmetric");
            ordered_pair = ordered_pair || c != 0;
            for(const auto& d : v) {
                pbt::require(!(lt(a, b) && lt(b, d)) || lt(a, d), "smaller is not transitive");
                pbt::require(!(gt(a, b) && gt(b, d)) || gt(a, d), "greater is not transitive");
            }
        }
    }
}

template <typename Op>
void operator_case(Src& s)
{
    auto m = Modes<Op>::make(s, s.range(1, 5));
    std::vector<Op> v;
    const auto n = s.range(2, 6);
    for(int i = 0; i < n; ++i) {
        v.push_back(m.op(s));
    }
    s.describe([&](std::ostream& o) { show_ops(o, v); });
    bool nt = false;
    laws(v, alg::OperatorSmaller<Op>{}, alg::OperatorGreater<Op>{}, [](const Op& a, const Op& b) { return ref_cmp(a, b); }, nt);
    auto w = v;
    std::sort(w.begin(), w.end(), alg::OperatorSmaller<Op>{});
    auto x = v;
    std::sort(x.begin(), x.end(), alg::OperatorGreater<Op>{});
    std::reverse(x.begin(), x.end());
    pbt::require(w == x, "sorting in descending order is not the reverse of sorting in ascending order");
    pbt::require(std::is_permutation(w.begin(), w.end(), v.begin()), "sorting lost an operator");
    for(std::size_t i = 1; i < w.size(); ++i) {
        pbt::require(!(w[i].creator && !w[i - 1].creator), "an annihilator is sorted before a creator");
    }
    s.nontrivial(nt);
}

template <typename Op, typename Container>
void term_case(Src& s)
{
    using T = alg::Term<double, Op, Container>;
    auto m  = Modes<Op>::make(s, s.range(1, 4));
    std::vector<T> v;
    const auto n = s.range(2, 5);
    for(int i = 0; i < n; ++i) {
        T t;
        t.prefactor = number<double>(s);
        std::vector<Op> ops;
        if(!v.empty() && s.boolean()) { // share a prefix with an earlier term
            const auto& o = v[s.upto(v.size() - 1)].operators;
            ops.assign(o.begin(), o.end());
            if(!ops.empty()) {
                switch(s.upto(3)) {
                    case 0: ops[s.upto(ops.size() - 1)] = m.op(s); break;
                    case 1: ops.pop_back(); break;
                    case 2: ops.push_back(m.op(s)); break;
                    default: break;
                }
            }
        } else {
            const auto k = static_cast<int>(length(s, 4, 20));
            for(int j = 0; j < k; ++j) {
                ops.push_back(m.op(s));
            }
            if(s.chance(1, 60)) { // longer by a multiple of 2^8
                ops.insert(ops.end(), 256 * s.range(1, 2), m.op(s));
            }
        }
        t.operators.assign(ops.begin(), ops.end());
        v.push_back(t);
    }
    s.describe([&](std::ostream& o) {
        for(const auto& t : v) {
            show_term(o, t);
        }
    });
    bool nt = false;
    laws(v, alg::TermSmaller<T>{}, alg::TermGreater<T>{}, [](const T& a, const T& b) { return ref_cmp_terms(a, b); }, nt);
    s.nontrivial(nt);
}

#define RULE "two of the compared elements differ"
using Hub1 = alg::Operator<std::uint64_t, bool>;
using Hub2 = alg::Operator<std::uint64_t, std::uint64_t, bool>;
RELATION("operators_one_index", 2, RULE) { operator_case<alg::Operator<int>>(s); }
RELATION("operators_one_long_index", 2, RULE) { operator_case<alg::Operator<std::uint64_t>>(s); }
RELATION("operators_one_string", 2, RULE) { operator_case<alg::Operator<std::string>>(s); }
RELATION("operators_two_indices", 3, RULE) { operator_case<Hub1>(s); }
RELATION("operators_string_spin", 2, RULE) { operator_case<alg::Operator<std::string, bool>>(s); }
RELATION("operators_three_indices", 3, RULE) { operator_case<Hub2>(s); }
RELATION("operators_three_mixed", 2, RULE) { operator_case<alg::Operator<int, std::string, double>>(s); }
RELATION("operators_four_indices", 2, RULE) { operator_case<alg::Operator<bool, int, short, bool>>(s); }
RELATION("terms_two_indices", 4, RULE) { term_case<Hub1, std::vector<Hub1>>(s); }
RELATION("terms_one_index_deque", 2, RULE) { term_case<alg::Operator<int>, std::deque<alg::Operator<int>>>(s); }
RELATION("terms_three_indices", 3, RULE) { term_case<Hub2, std::vector<Hub2>>(s); }
RELATION("terms_strings_list", 2, RULE)
{
    using Op = alg::Operator<std::string, std::string>;
    term_case<Op, std::list<Op>>(s);
}
