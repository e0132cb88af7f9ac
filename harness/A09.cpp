// A09: creations, spin and momentum of a term are additive and change sign under conjugation.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include <Eigen/Dense>
#include "ieompp/algebra/term/checks.hpp"

using namespace gen;

struct MomentumSpace {
    using Vector = Eigen::Vector2d;
    std::vector<Vector> points, lv;
    const Vector& operator[](std::size_t i) const { return points[i]; }
    const std::vector<Vector>& lattice_vectors() const { return lv; }
};

template <typename Term, std::size_t SpinAt>
void numbers_case(Src& s)
{
    using Op = typename Term::Operator;
    auto m   = Modes<Op>::make(s, s.range(1, 6));
    Term a, b;
    a.prefactor    = number<typename Term::Prefactor>(s);
    b.prefactor    = number<typename Term::Prefactor>(s);
    const auto big = s.chance(1, 50);
    auto va = m.ops(s, big ? 300 : s.sized(0, 8));
    if(big && s.boolean()) { // nearly all factors create, or nearly all annihilate, with the same spin
        const auto first = va.front();
        for(std::size_t i = 0; i < va.size(); ++i) {
            if(i % 16) {
                va[i] = first;
            }
        }
    }
    const auto vb = m.ops(s, s.sized(0, 8));
    a.operators.assign(va.begin(), va.end());
    b.operators.assign(vb.begin(), vb.end());
    s.describe([&](std::ostream& o) {
        show_term(o, a);
        show_term(o, b);
    });
    int creations = 0, spin = 0;
    for(const auto& o : va) {
        const int sgn = o.creator ? 1 : -1;
        creations += sgn;
        spin += sgn * (std::get<SpinAt>(o.index_tuple()) ? 1 : -1);
    }
    const Term p = a * b, c = a.get_conjugate();
    pbt::equal(alg::total_creations(a), creations, "total_creations");
    pbt::equal(alg::total_creations(p), alg::total_creations(a) + alg::total_creations(b), "total_creations of a product");
    pbt::equal(alg::total_creations(c), -alg::total_creations(a), "total_creations of the conjugate");
    pbt::equal((alg::total_spin<SpinAt>(a)), spin, "total_spin");
    pbt::equal((alg::total_spin<SpinAt>(p)), (alg::total_spin<SpinAt>(a)) + (alg::total_spin<SpinAt>(b)), "total_spin of a product");
    pbt::equal((alg::total_spin<SpinAt>(c)), -(alg::total_spin<SpinAt>(a)), "total_spin of the conjugate");
    s.nontrivial(va.size() >= 2 && creations != 0);
}

template <std::size_t At, typename Op>
void momentum_case(Src& s)
{
    MomentumSpace ms;
    const auto n = s.range(1, 8);
    for(int i = 0; i < n; ++i) {
        ms.points.push_back(Eigen::Vector2d(s.real(-4, 4), s.dyadic(4)));
    }
    ms.lv = {Eigen::Vector2d(s.dyadic(4), 1.), Eigen::Vector2d(0., s.dyadic(4))};
    using T = alg::Term<double, Op>;
    T a{number<double>(s), {}}, b{number<double>(s), {}};
    auto fill = [&](T& t) {
        const auto k = s.chance(1, 60) ? s.range(100, 300) : s.sized(0, 8);
        for(int i = 0; i < k; ++i) {
            const auto q  = s.upto(n - 1);
            const bool cr = s.boolean(), sp = s.boolean();
            auto op = Alphabets<Op>::build(cr, typename Op::Indices{});
            alg::get_index<At>(op) = q;
            alg::get_index<1 - At>(op) = sp;
            t.operators.push_back(op);
        }
    };
    fill(a);
    fill(b);
    s.describe([&](std::ostream& o) {
        show_term(o, a);
        show_term(o, b);
    });
    Eigen::Vector2d ref(0., 0.);
    for(const auto& o : a.operators) {
        ref += (o.creator ? 1. : -1.) * ms.points[std::get<At>(o.index_tuple())];
    }
    const Eigen::Vector2d k = alg::total_momentum<At>(a, ms), l = alg::total_momentum<At>(b, ms);
    const Eigen::Vector2d kp = alg::total_momentum<At>(a * b, ms), kc = alg::total_momentum<At>(a.get_conjugate(), ms);
    auto near = [](const Eigen::Vector2d& x, const Eigen::Vector2d& y) { return (x - y).norm() <= 1e-12 * (1. + x.norm() + y.norm()) * 100; };
    pbt::require(near(k, ref), "total_momentum");
    pbt::require(near(kp, k + l), "total_momentum of a product");
    pbt::require(near(kc, -k), "total_momentum of the conjugate");
    s.nontrivial(a.operators.size() >= 2);
}

#define RULE "at least two factors and a nonzero number of creations"
using C = std::complex<double>;
RELATION("one_dimension", 3, RULE) { numbers_case<alg::Term<double, alg::Operator<std::uint64_t, bool>>, 1>(s); }
RELATION("two_dimensions", 3, RULE) { numbers_case<alg::Term<C, alg::Operator<int, int, bool>>, 2>(s); }
RELATION("spin_first", 2, RULE) { numbers_case<alg::Term<int, alg::Operator<bool, std::string>>, 0>(s); }
RELATION("spin_only", 1, RULE) { numbers_case<alg::Term<double, alg::Operator<bool>>, 0>(s); }
RELATION("momentum", 3, "at least two factors") { momentum_case<0, alg::Operator<std::uint64_t, bool>>(s); }
RELATION("momentum_second_index", 2, "at least two factors") { momentum_case<1, alg::Operator<bool, std::uint64_t>>(s); }
