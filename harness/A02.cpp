// A02: a symbolic commutator holds for every assignment of values to the symbols.
#include "symbolic_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/commutator.hpp"

template <typename Op, typename Value>
void symbolic_case(Src& s)
{
    using Pref = sym::Prefactor<Value>;
    using Term = alg::Term<Pref, Op>;
    auto m     = Modes<Op>::make(s, 1 + s.range(1, 5));

    std::set<std::string> symbols;
    for(const auto& t : m.tuples) {
        collect_all(symbols, t, std::make_index_sequence<Op::number_of_indices>{});
    }
    const std::vector<std::string> syms(symbols.begin(), symbols.end());

    auto random_term = [&](std::size_t n, const Term* like) {
        Term t;
        t.prefactor.value = number<Value>(s);
        const auto nk     = s.chance(1, 4) ? s.range(1, 2) : 0;
        for(int i = 0; i < nk; ++i) {
            const std::string x = s.pick(syms), y = s.pick(syms);
            t.prefactor.kroneckers.push_back(alg::make_kronecker(x, y));
        }
        const auto fresh = m.ops(s, n);
        std::vector<Op> pool;
        if(like) {
            pool.assign(like->operators.begin(), like->operators.end());
        }
        for(std::size_t i = 0; i < n; ++i) {
            if(!pool.empty() && s.boolean()) {
                const auto k = s.upto(pool.size() - 1);
                t.operators.push_back(pool[k].get_conjugate());
                pool.erase(pool.begin() + k);
            } else {
                t.operators.push_back(fresh[i]);
            }
        }
        return t;
    };
    const std::size_t n = gen::length(s, 4, 8);
    std::size_t k       = gen::length(s, 4, 8);
    if(n % 2 == 1 && k % 2 == 1) {
        ++k;
    }
    const Term a = random_term(n, nullptr);
    const Term b = random_term(k, &a);
    // optionally a nested commutator [d, [a, b]]
    const bool nested = s.chance(1, 3);
    const Term d      = nested ? random_term(s.sized(0, 3), &b) : Term{};
    const bool d_ok   = nested && (d.operators.size() % 2 == 0 || (n + k) % 2 == 0);

    s.describe([&](std::ostream& o) {
        o << (nested ? "nested " : "") << "commutate(";
        auto show = [&](const Term& t) {
            o << "[" << t.prefactor.value;
            for(const auto& kr : t.prefactor.kroneckers) {
                o << " d(" << kr.a << "," << kr.b << ")";
            }
            o << "]";
            show_ops(o, t.operators);
        };
        show(a);
        o << ", ";
        show(b);
        o << ")";
    });

    std::vector<Term> ab, dab;
    ieompp::algebra::commutate(a, b, ab);
    if(d_ok) {
        for(const auto& t : ab) {
            ieompp::algebra::commutate(d, t, dab);
        }
    }

    // assignments: distinct values, all equal, and random ones with coincidences
    bool interesting = false, coincide = false;
    for(int round = 0; round < 4; ++round) {
        Assignment v;
        int next = 0;
        std::set<int> used;
        for(const auto& x : syms) {
            v[x] = round == 0 ? next++ : round == 1 ? 0 : static_cast<int>(s.upto(std::min<std::size_t>(syms.size(), 3)));
            used.insert(v[x]);
        }
        std::vector<Key> modes;
        Translator tr{v, modes};
        const fock::Sum ca{tr.term(a)}, cb{tr.term(b)};
        fock::Sum expected = fock::commutator(ca, cb), got;
        for(const auto& t : ab) {
            got.push_back(tr.term(t));
        }
        std::uint64_t st;
        fock::cplx x, y;
        auto assignment = [&]() {
            std::ostringstream o;
            for(const auto& kv : v) {
                o << kv.first << "=" << kv.second << " ";
            }
            return o.str();
        };
        if(!fock::same(got, expected, static_cast<unsigned>(modes.size()), 1e-10, st, x, y)) {
            pbt::fail("with ", assignment(), " the ", ab.size(), " returned terms do not sum to the commutator: matrix element ", x, " instead of ", y);
        }
        if(used.size() < syms.size() && !fock::vanishes(expected, static_cast<unsigned>(modes.size()))) {
            coincide = true;
        }
        interesting = interesting || !fock::vanishes(expected, static_cast<unsigned>(modes.size()));
        if(d_ok) {
            const fock::Sum cd{tr.term(d)};
            expected = fock::commutator(cd, fock::commutator(ca, cb));
            got.clear();
            for(const auto& t : dab) {
                got.push_back(tr.term(t));
            }
            if(!fock::same(got, expected, static_cast<unsigned>(modes.size()), 1e-10, st, x, y)) {
                pbt::fail("with ", assignment(), " the ", dab.size(), " terms of the nested commutator do not sum to it: matrix element ", x, " instead of ", y);
            }
        }
    }
    if(d_ok) {
        s.label("nested");
    }
    if(coincide) {
        s.label("distinct symbols with equal values");
    }
    s.nontrivial(interesting);
}

#define RULE "the commutator is not the zero operator under at least one of the assignments tried"
using C = std::complex<double>;
RELATION("string_index", 4, RULE) { symbolic_case<alg::Operator<std::string>, double>(s); }
RELATION("string_and_spin", 5, RULE) { symbolic_case<alg::Operator<std::string, bool>, double>(s); }
RELATION("two_strings", 4, RULE) { symbolic_case<alg::Operator<std::string, std::string>, C>(s); }
RELATION("char_pointer_and_spin", 4, RULE) { symbolic_case<alg::Operator<const char*, bool>, double>(s); }
RELATION("number_string_spin", 4, RULE) { symbolic_case<alg::Operator<int, std::string, bool>, C>(s); }
RELATION("string_number", 3, RULE) { symbolic_case<alg::Operator<std::string, std::uint64_t>, double>(s); }
RELATION("spin_and_string", 3, RULE) { symbolic_case<alg::Operator<bool, std::string>, double>(s); }
RELATION("number_spin_string", 2, RULE) { symbolic_case<alg::Operator<int, bool, std::string>, double>(s); }
RELATION("string_spin_string", 2, RULE) { symbolic_case<alg::Operator<std::string, bool, std::string>, C>(s); }
RELATION("four_mixed", 3, RULE) { symbolic_case<alg::Operator<std::string, std::string, bool, std::string>, double>(s); }
