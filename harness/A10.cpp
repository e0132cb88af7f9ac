// A10: the anticommutation test and the anticommutator of two operators.
#include "symbolic_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/anticommutator.hpp"

// {a, b} under an assignment
template <typename Op>
bool nonzero(const Assignment& v, const Op& a, const Op& b)
{
    const auto ta = a.index_tuple(), tb = b.index_tuple();
    constexpr auto seq = std::make_index_sequence<Op::number_of_indices>{};
    return a.creator != b.creator && substitute_all(v, ta, seq) == substitute_all(v, tb, seq);
}

template <typename Op, typename Value, bool Symbolic>
void pair_case(Src& s)
{
    using Pref = sym::Prefactor<Value>;
    using Term = alg::Term<Pref, Op>;
    const auto m = Modes<Op>::make(s, 1 + s.range(1, 3));
    const Op a = m.op(s), b = s.chance(1, 3) ? a.get_conjugate() : m.op(s);
    s.describe([&](std::ostream& o) {
        show_op(o, a);
        o << ", ";
        show_op(o, b);
    });
    std::set<std::string> symbols;
    for(const auto& t : m.tuples) {
        collect_all(symbols, t, std::make_index_sequence<Op::number_of_indices>{});
    }
    const std::vector<std::string> syms(symbols.begin(), symbols.end());
    // with equal symbols everywhere the deltas are satisfied
    Assignment equal;
    for(const auto& x : syms) {
        equal[x] = 0;
    }
    const bool possible = nonzero(equal, a, b);
    pbt::equal(alg::anticommutates(a, b), !possible, "anticommutates");
    pbt::equal(alg::anticommutates(b, a), !possible, "anticommutates is not symmetric");
    if(!possible) {
        s.label("anticommutes");
        s.nontrivial(a.creator != b.creator);
        return;
    }
    Pref p;
    p.value = number<Value>(s);
    if(!syms.empty() && s.boolean()) {
        const std::string x = s.pick(syms), y = s.pick(syms);
        p.kroneckers.push_back(alg::make_kronecker(x, y));
    }
    const Pref before(p);
    alg::anticommutator<Term>(a, b, p);
    pbt::require(p.value == before.value, "the anticommutator changes the value of the prefactor");
    bool both[2] = {false, false};
    const auto rounds = syms.size() < 2 ? 1 : 6;
    for(int round = 0; round < rounds; ++round) {
        Assignment v;
        int next = 0;
        for(const auto& x : syms) {
            v[x] = round == 0 ? next++ : round == 1 ? 0 : static_cast<int>(s.upto(2));
        }
        auto deltas = [&](const Pref& q) {
            return std::all_of(q.kroneckers.begin(), q.kroneckers.end(), [&](const typename Pref::Kronecker& k) { return value_of(v, k.a) == value_of(v, k.b); });
        };
        const bool ref = deltas(before) && nonzero(v, a, b);
        both[ref]      = true;
        pbt::equal(deltas(p), ref, "the deltas of the anticommutator are satisfied");
    }
    s.label("may contribute");
    s.nontrivial(!Symbolic || (both[0] && both[1]));
}
#define RULE "one creator and one annihilator; with symbols: the deltas hold under one assignment and fail under another"
RELATION("one index", 1, RULE) { pair_case<alg::Operator<int>, double, false>(s); }
RELATION("two indices", 2, RULE) { pair_case<alg::Operator<std::uint64_t, bool>, double, false>(s); }
RELATION("three indices", 2, RULE) { pair_case<alg::Operator<int, std::uint64_t, bool>, double, false>(s); }
RELATION("four indices", 2, RULE) { pair_case<alg::Operator<bool, int, std::uint16_t, bool>, double, false>(s); }
RELATION("string", 2, RULE) { pair_case<alg::Operator<std::string>, double, true>(s); }
RELATION("string and spin", 3, RULE) { pair_case<alg::Operator<std::string, bool>, double, true>(s); }
RELATION("char pointer and spin", 3, RULE) { pair_case<alg::Operator<const char*, bool>, double, true>(s); }
RELATION("number, string and spin", 3, RULE) { pair_case<alg::Operator<int, std::string, bool>, double, true>(s); }
RELATION("numbers and string", 2, RULE) { pair_case<alg::Operator<int, bool, std::string>, double, true>(s); }
RELATION("five indices", 2, RULE) { pair_case<alg::Operator<std::string, int, std::uint16_t, bool, std::string>, double, true>(s); }
RELATION("strings and numbers", 3, RULE) { pair_case<alg::Operator<std::string, std::uint64_t, std::string, bool>, double, true>(s); }
