// M11: Liouvillian matrices in the real-space bases.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include <cassert>
#include <blaze/Math.h>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "hubbard_reference.hpp"
#include "sparse_check.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
template <typename I>
using Mono = alg::Monomial<alg::Operator<I, bool>>;

// The basis operators sqrt(2) c+ and sqrt(8) (c+c+c - delta/2 c+) are orthonormal at infinite
// temperature; the matrix is the projection of [H, .].  At infinite temperature the projection
// keeps the terms normal ordered with <c+_a c_b> = delta_ab / 2.
const wick::Green hot = [](std::size_t a, std::size_t b, bool) { return a == b ? 0.5 : 0.; };
const double n1 = std::sqrt(2.), n3 = std::sqrt(8.);

template <typename I, typename Scalar, typename Lattice>
void three(Src& s, const Lattice& lattice, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M)
{
    const std::size_t n = lattice.size();
    // both parameters are one by default
    const int given = s.chance(1, 8) ? static_cast<int>(s.upto(1)) : 2;
    using P = typename sparse_check::Real<Scalar>::Type;
    const P J = given > 0 ? sparse_check::parameter<Scalar>(s) : P(1), U = given > 1 ? sparse_check::parameter<Scalar>(s) : P(1);
    const double factor = given == 2 ? sparse_check::factor<Scalar>(s) : 1.;
    const P Jf = static_cast<P>(J * factor), Uf = static_cast<P>(U * factor);
    s.note("J", Jf, "U", Uf);
    const hrs::Basis3Operator<Mono<I>> basis(lattice);
    const auto L = given == 0 ? hrs::make_liouvillian<P>() : given == 1 ? hrs::make_liouvillian<P>(J) : hrs::make_liouvillian(Jf, Uf);
    hrs::init_matrix(L, M, basis, lattice);
    sparse_check::shape(M, basis.size());
    const auto neighbors = [&](std::size_t i) { return lattice.neighbors(static_cast<I>(i)); };
    const double scale   = std::max<double>(std::abs(J), std::abs(U));
    const auto row       = [&](std::size_t r) {
        wick::Sum a;
        if(r < n) {
            a = {{n1, {{true, r, true}}}};
        } else {
            const std::size_t x = r - n, r1 = x / n / n, r2 = x / n % n, r3 = x % n;
            a = {{n3, {{true, r1, true}, {true, r2, false}, {false, r3, false}}}};
            if(r2 == r3) {
                a.push_back({-n3 / 2., {{true, r1, true}}});
            }
        }
        auto ref = hubbard_ref::interaction_and_hopping(n, a, J, U, neighbors, hot);
        for(auto& kv : ref) {
            kv.second /= kv.first < n ? n1 : n3;
        }
        sparse_check::scaled_row(M, r, ref, factor, scale, r);
    };
    for(std::size_t r = 0; r < n; ++r) {
        row(r);
    }
    if(n <= 3) {
        for(std::size_t r = n; r < M.rows(); ++r) {
            row(r);
        }
    } else {
        for(int i = 0; i < 40; ++i) {
            const std::size_t a = s.upto(n - 1);
            const std::size_t b = s.chance(1, 3) ? a : s.upto(n - 1);
            const std::size_t c = s.chance(1, 3) ? a : s.chance(1, 3) ? b : s.upto(n - 1);
            row(n + (a * n + b) * n + c);
        }
    }
    // hermitian, for all elements
    const double tolerance = sparse_check::tolerance(M) * scale * factor;
    std::map<std::pair<std::size_t, std::size_t>, std::complex<double>> all;
    for(std::size_t r = 0; r < M.rows(); ++r) {
        for(auto it = M.begin(r); it != M.end(r); ++it) {
            all[{r, it->index()}] += it->value();
        }
    }
    for(const auto& kv : all) {
        const auto t = all.find({kv.first.second, kv.first.first});
        pbt::require(t != all.end() ? std::abs(t->second - std::conj(kv.second)) <= tolerance : std::abs(kv.second) <= tolerance, "not hermitian at ", kv.first.first, ",", kv.first.second);
    }
    s.nontrivial(U != 0. && J != 0.);
}
template <typename I, typename Scalar, typename Lattice>
void one(Src& s, const Lattice& lattice, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M)
{
    const std::size_t n = lattice.size();
    const auto J = sparse_check::parameter<Scalar>(s), U = sparse_check::parameter<Scalar>(s);
    using P             = typename sparse_check::Real<Scalar>::Type;
    const double factor = sparse_check::factor<Scalar>(s);
    const P Jf = static_cast<P>(J * factor), Uf = static_cast<P>(U * factor);
    s.note("J", Jf, "U", Uf);
    const hrs::Basis1Operator<Mono<I>> basis(lattice);
    hrs::init_kinetic_matrix(hrs::make_liouvillian(Jf, Uf), M, basis, lattice);
    sparse_check::shape(M, n);
    for(std::size_t r = 0; r < n; ++r) {
        const auto ref = hubbard_ref::interaction_and_hopping(n, {{1., {{true, r, true}}}}, J, 0., [&](std::size_t i) { return lattice.neighbors(static_cast<I>(i)); }, hot);
        sparse_check::scaled_row(M, r, ref, factor, std::abs(J), "c+_", r);
    }
    s.nontrivial(J != 0.);
}
template <typename I, typename Scalar>
void chain(Src& s, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M, bool single)
{
    const std::uint64_t n = single ? gen::lattice_size(s, 3, 300) : s.chance(1, 40) ? s.chance(1, 10) ? s.range(41, 43) : s.range(9, 16) : s.weighted({6, 5, 4, 3, 2, 2}) + 3;
    s.note("chain", n);
    const ieompp::lattices::PeriodicChain<double, I> l(static_cast<I>(n), 1.);
    single ? one<I>(s, l, M) : three<I>(s, l, M);
}
template <typename I, typename Scalar>
void square(Src& s, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M, bool single)
{
    const std::uint64_t nx = single ? s.range(3, 15) : s.range(3, 4), ny = single ? s.range(3, 15) : s.range(3, 12 / nx);
    s.note(nx, "x", ny);
    const ieompp::lattices::PeriodicSquareLattice<double, I> l(static_cast<I>(nx), static_cast<I>(ny), 1., 1.);
    single ? one<I>(s, l, M) : three<I>(s, l, M);
}
#define RULE3 "neither J nor U vanishes"
RELATION("chain three real", 8, RULE3) { blaze::CompressedMatrix<double, blaze::rowMajor> M; chain<std::uint64_t>(s, M, false); }
RELATION("chain three complex", 4, RULE3) { blaze::CompressedMatrix<std::complex<double>, blaze::rowMajor> M; chain<int>(s, M, false); }
RELATION("chain three float", 2, RULE3) { blaze::CompressedMatrix<float, blaze::rowMajor> M; chain<std::uint64_t>(s, M, false); }
RELATION("square three", 1, RULE3) { blaze::CompressedMatrix<double, blaze::rowMajor> M; square<std::uint64_t>(s, M, false); }
RELATION("kinetic", 4, "J does not vanish")
{
    blaze::CompressedMatrix<double, blaze::rowMajor> M;
    s.boolean() ? chain<std::uint64_t>(s, M, true) : square<std::uint64_t>(s, M, true);
}
RELATION("history", 2, "a matrix is filled at least twice")
{
    blaze::CompressedMatrix<std::complex<double>, blaze::rowMajor> M;
    const auto k = s.range(1, 4);
    for(int i = 0; i < k; ++i) {
        const bool single = s.boolean();
        single && s.boolean() ? square<std::uint64_t>(s, M, true) : chain<std::uint64_t>(s, M, single);
    }
    s.nontrivial(k >= 2);
}
