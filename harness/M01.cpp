// M01: real-space operator bases.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include <omp.h>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;

template <typename I>
using Mono = alg::Monomial<alg::Operator<I, bool>>;

template <typename M, typename I>
bool is_op(const M& m, std::size_t at, bool creator, I site, bool spin)
{
    return m[at].creator == creator && m[at].index1 == site && m[at].index2 == spin;
}

template <typename M>
std::string str(const M& m)
{
    std::ostringstream o;
    for(const auto& p : m) {
        o << (p.creator ? "+" : "-") << p.index1 << (p.index2 ? "u" : "d") << " ";
    }
    return o.str();
}

template <typename B>
void check_conjugate(const B& basis, Src& s)
{
    const B before(basis);
    omp_set_num_threads(s.team());
    const B c = basis.get_conjugate();
    pbt::require(c.size() == basis.size() && c.N == basis.N, "size of the conjugated basis");
    for(std::size_t i = 0; i < basis.size(); ++i) {
        const auto& m = basis[i];
        pbt::require(m.size() == before[i].size() && str(m) == str(before[i]), "get_conjugate changes the basis");
        pbt::require(c[i].size() == m.size(), "length of a conjugated basis operator");
        for(std::size_t k = 0; k < m.size(); ++k) {
            const auto& o = m[m.size() - 1 - k];
            pbt::require(is_op(c[i], k, !o.creator, o.index1, o.index2), "conjugate of basis operator ", i, ": ", str(c[i]), " of ", str(m));
        }
    }
}

template <typename I, typename Lattice>
void bases(Src& s, const Lattice& lattice)
{
    const std::uint64_t N = lattice.size();
    if(s.boolean()) {
        const hrs::Basis1Operator<Mono<I>> b(lattice);
        pbt::require(b.size() == N && b.N == N, "size of the one-operator basis");
        for(std::uint64_t i = 0; i < N; ++i) {
            pbt::require(b[i].size() == 1 && is_op(b[i], 0, true, static_cast<I>(i), true), "one-operator basis at ", i, ": ", str(b[i]));
        }
        check_conjugate(b, s);
    } else {
        pbt::assume(N <= 12);
        const hrs::Basis3Operator<Mono<I>> b(lattice);
        pbt::require(b.N == N && b.N_squared == N * N && b.size() == N * (N * N + 1), "size of the three-operator basis");
        for(std::uint64_t i = 0; i < N; ++i) {
            pbt::require(b[i].size() == 1 && is_op(b[i], 0, true, static_cast<I>(i), true), "three-operator basis at ", i, ": ", str(b[i]));
        }
        std::vector<bool> seen(b.size(), false);
        for(std::uint64_t x = 0; x < N; ++x) {
            for(std::uint64_t y = 0; y < N; ++y) {
                for(std::uint64_t z = 0; z < N; ++z) {
                    const auto i = b.get_3op_index(x, y, z);
                    pbt::require(i >= N && i < b.size() && !seen[i], "get_3op_index(", x, ",", y, ",", z, ") = ", i, " is used twice or out of range");
                    seen[i] = true;
                    pbt::require(b[i].size() == 3 && is_op(b[i], 0, true, static_cast<I>(x), true) && is_op(b[i], 1, true, static_cast<I>(y), false) && is_op(b[i], 2, false, static_cast<I>(z), false),
                                 "three-operator basis at (", x, ",", y, ",", z, "): ", str(b[i]));
                }
            }
        }
        check_conjugate(b, s);
        s.label("three operators");
    }
    static_assert(hrs::IsOneOperatorBasis<hrs::Basis1Operator<Mono<I>>>::value && !hrs::IsThreeOperatorBasis<hrs::Basis1Operator<Mono<I>>>::value, "");
    static_assert(!hrs::IsOneOperatorBasis<hrs::Basis3Operator<Mono<I>>>::value && hrs::IsThreeOperatorBasis<hrs::Basis3Operator<Mono<I>>>::value, "");
    s.nontrivial(N >= 3);
}

template <typename I>
void chain_case(Src& s)
{
    const auto N = s.boolean() ? s.range(1, 12) : gen::lattice_size(s, 1, 500);
    s.note("chain", N);
    const ieompp::lattices::PeriodicChain<double, I> l(static_cast<I>(N), 1.);
    bases<I>(s, l);
}
template <typename I>
void square_case(Src& s)
{
    const bool small = s.boolean();
    const auto nx = s.range(1, small ? 4 : 20), ny = s.range(1, small ? 3 : 20);
    s.note(nx, "x", ny);
    const ieompp::lattices::PeriodicSquareLattice<double, I> l(static_cast<I>(nx), static_cast<I>(ny), 1., 1.);
    bases<I>(s, l);
}
#define RULE "at least three sites"
RELATION("chain_u64", 4, RULE) { chain_case<std::uint64_t>(s); }
RELATION("chain_int", 2, RULE) { chain_case<int>(s); }
RELATION("square_u64", 2, RULE) { square_case<std::uint64_t>(s); }

// bases of some ten thousand elements
RELATION("large", 1, "more than twelve sites")
{
    const auto N = s.chance(1, 12) ? s.range(25, 46) : s.range(13, 24);
    s.note("large chain", N);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> l(static_cast<std::uint64_t>(N), 1.);
    const hrs::Basis3Operator<Mono<std::uint64_t>> b(l);
    const std::uint64_t n = N;
    pbt::require(b.N == n && b.N_squared == n * n && b.size() == n * (n * n + 1), "size of the three-operator basis");
    omp_set_num_threads(s.team());
    const auto c = b.get_conjugate();
    pbt::require(c.size() == b.size(), "size of the conjugated basis");
    std::uint64_t i = 0;
    const auto at = [&](std::uint64_t x) { if(!(b[x].size() == 1 && is_op(b[x], 0, true, x, true) && c[x].size() == 1 && is_op(c[x], 0, false, x, true))) pbt::fail("three-operator basis at ", x, ": ", str(b[x]), ", conjugated ", str(c[x])); };
    for(; i < n; ++i) {
        at(i);
    }
    for(std::uint64_t x = 0; x < n; ++x) {
        for(std::uint64_t y = 0; y < n; ++y) {
            for(std::uint64_t z = 0; z < n; ++z, ++i) {
                if(b.get_3op_index(x, y, z) != i) pbt::fail("get_3op_index(", x, ",", y, ",", z, ") = ", b.get_3op_index(x, y, z), ", expected ", i);
                const auto &m = b[i], &k = c[i];
                if(!(m.size() == 3 && is_op(m, 0, true, x, true) && is_op(m, 1, true, y, false) && is_op(m, 2, false, z, false))) pbt::fail("three-operator basis at (", x, ",", y, ",", z, "): ", str(m));
                if(!(k.size() == 3 && is_op(k, 0, true, z, false) && is_op(k, 1, false, y, false) && is_op(k, 2, false, x, true))) pbt::fail("conjugated basis at (", x, ",", y, ",", z, "): ", str(k));
            }
        }
    }
    s.nontrivial(true);
}

// one history of bases of changing size: no state is shared between them
RELATION("history", 1, "bases of at least two sizes")
{
    std::set<std::int64_t> sizes;
    const auto k = s.range(1, 4);
    for(int i = 0; i < k; ++i) {
        const auto N = s.range(1, 8);
        sizes.insert(N);
        s.note("chain", N);
        const ieompp::lattices::PeriodicChain<double, std::uint64_t> l(N, 1.);
        bases<std::uint64_t>(s, l);
    }
    s.nontrivial(sizes.size() >= 2);
}
