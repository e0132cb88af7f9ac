// M13: the Liouvillian matrix in momentum space.
#include "lattice_gen.hpp"
#include "momentum_gen.hpp"
#include "pbt_main.hpp"
#include <cassert>
#include <blaze/Math.h>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "hubbard_reference.hpp"
#include "sparse_check.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hms = ieompp::models::hubbard_momentum_space;
using Mono    = alg::Monomial<alg::Operator<std::uint64_t, bool>>;
using cplx    = std::complex<double>;
template <typename T>
using Sparse = blaze::CompressedMatrix<T, blaze::rowMajor>;

// the matrix is the Fourier transform of the real-space Liouvillian.
// phase(k, r) = exp(i k r)
template <typename Scalar, typename Space, typename Lattice>
void fourier(Src& s, const Space& space, const Lattice& lattice, const std::function<double(std::size_t, std::size_t)>& angle, Sparse<Scalar>& M)
{
    const std::size_t n = lattice.size();
    // both parameters are one by default
    const int given = s.chance(1, 8) ? static_cast<int>(s.upto(1)) : 2;
    const double J = given > 0 ? s.coeff() : 1., U = given > 1 ? s.coeff() : 1.;
    const std::uint64_t q = gen::site(s, n);
    s.note("J", J, "U", U, "q", q);
    const hms::Basis3Operator<Mono> basis(q, space);
    const auto L = given == 0 ? hms::make_liouvillian<double>(space, lattice) : given == 1 ? hms::make_liouvillian<double>(space, lattice, J) : hms::make_liouvillian(space, lattice, J, U);
    hms::init_matrix(L, M, basis, lattice);
    sparse_check::shape(M, basis.size());
    const double scale = std::max(std::abs(J), std::abs(U));

    // real-space rows, at infinite temperature (see M11)
    const wick::Green hot      = [](std::size_t a, std::size_t b, bool) { return a == b ? 0.5 : 0.; };
    const double n1            = std::sqrt(2.), n3 = std::sqrt(8.);
    const auto neighbors       = [&](std::size_t i) { return lattice.neighbors(i); };
    const std::size_t size     = n + n * n * n;
    std::vector<hubbard_ref::Row> R(size);
    for(std::size_t r = 0; r < size; ++r) {
        wick::Sum a{{n1, {{true, r, true}}}};
        if(r >= n) {
            const std::size_t x = r - n, r1 = x / n / n, r2 = x / n % n, r3 = x % n;
            a = {{n3, {{true, r1, true}, {true, r2, false}, {false, r3, false}}}};
            if(r2 == r3) {
                a.push_back({-n3 / 2., {{true, r1, true}}});
            }
        }
        R[r] = hubbard_ref::interaction_and_hopping(n, a, J, U, neighbors, hot);
        for(auto& kv : R[r]) {
            kv.second /= kv.first < n ? n1 : n3;
        }
    }
    std::vector<cplx> phase(n * n);
    for(std::size_t k = 0; k < n; ++k) {
        for(std::size_t r = 0; r < n; ++r) {
            phase[k * n + r] = std::polar(1. / std::sqrt(double(n)), angle(k, r));
        }
    }
    // A_b = sum_r v_b(r) B_r
    std::vector<std::vector<cplx>> v(basis.size(), std::vector<cplx>(size));
    for(std::size_t r = 0; r < n; ++r) {
        v[0][r] = phase[q * n + r];
    }
    for(std::size_t b = 1; b < basis.size(); ++b) {
        const std::size_t k1 = basis[b][0].index1, k2 = basis[b][1].index1, k3 = basis[b][2].index1;
        for(std::size_t x = 0; x < n * n * n; ++x) {
            v[b][n + x] = phase[k1 * n + x / n / n] * phase[k2 * n + x / n % n] * std::conj(phase[k3 * n + x % n]);
        }
    }
    for(std::size_t b = 0; b < basis.size(); ++b) {
        std::vector<cplx> w(size);
        for(std::size_t r = 0; r < size; ++r) {
            if(v[b][r] != 0.) {
                for(const auto& kv : R[r]) {
                    w[kv.first] += v[b][r] * kv.second;
                }
            }
        }
        std::vector<cplx> got(basis.size());
        for(auto it = M.begin(b); it != M.end(b); ++it) {
            got[it->index()] += it->value();
        }
        for(std::size_t a = 0; a < basis.size(); ++a) {
            cplx ref = 0.;
            for(std::size_t r = 0; r < size; ++r) {
                ref += std::conj(v[a][r]) * w[r];
            }
            pbt::require(std::abs(got[a] - ref) <= 1e-10 * scale, "element ", b, ",", a, ": ", got[a], ", expected ", ref);
        }
    }
    s.nontrivial(J != 0. && U != 0. && n >= 2);
}

// the closed form, for arbitrary single-particle energies and larger systems
struct Flat {
    std::size_t n;
    std::size_t size() const { return n; }
};
template <typename Scalar, typename Space>
void closed(Src& s, const Space& space, Sparse<Scalar>& M)
{
    const std::size_t n   = space.size();
    const std::uint64_t q = gen::site(s, n);
    double fermi;
    auto e = gen::energies(s, n, fermi);
    // an interaction of the order of the energies
    double largest = 0.;
    for(double x : e.e) {
        largest = std::max(largest, std::abs(x));
    }
    if(sizeof(typename sparse_check::Real<Scalar>::Type) == 4 && (largest < 1e-20 || largest > 1e20)) {
        for(double& x : e.e) { // not in single precision
            x = 0.;
        }
        largest = 0.;
    }
    const auto U = static_cast<typename sparse_check::Real<Scalar>::Type>(sparse_check::parameter<Scalar>(s) * (largest > 0. && (largest < 1e-3 || largest > 1e3) ? largest : 1.));
    s.note("U", U, "q", q);
    const hms::Basis3Operator<Mono> basis(q, space);
    const hms::Liouvillian<typename sparse_check::Real<Scalar>::Type, gen::Energies> L{e, U};
    hms::init_matrix(L, M, basis, space);
    sparse_check::shape(M, basis.size());
    hubbard_ref::Row ref;
    ref[0] = e(q) + U / 2.;
    for(std::size_t i = 1; i < basis.size(); ++i) {
        ref[i] = U / (2. * n);
    }
    double scale = std::abs(double(U));
    for(double x : e.e) {
        scale = std::max(scale, std::abs(x));
    }
    sparse_check::scaled_row(M, 0, ref, 1., scale, 0);
    for(std::size_t r = 1; r < basis.size(); ++r) {
        const auto& m = basis[r];
        sparse_check::scaled_row(M, r, {{0, U / (2. * n)}, {r, e(m[0].index1) + e(m[1].index1) - e(m[2].index1) + U / 2.}}, 1., scale, r);
    }
    s.nontrivial(n >= 2 && U != 0.);
}

template <typename Scalar>
void chain_case(Src& s, Sparse<Scalar>& M, bool exact)
{
    const std::uint64_t n = exact ? 2 * s.range(1, s.chance(1, 8) ? 3 : 2) : gen::lattice_size(s, 1, 40); // odd chains have no periodic momentum grid
    s.note("chain", n);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> k(n), l(n, 1.);
    if(exact) {
        const double pi = std::acos(-1.);
        fourier(s, k, l, [&](std::size_t i, std::size_t r) { return (-pi + 2. * pi * double(i) / n) * double(r); }, M);
    } else {
        closed(s, k, M);
    }
}
template <typename Scalar>
void square_case(Src& s, Sparse<Scalar>& M, bool exact)
{
    const std::uint64_t nx = exact ? 2 : s.range(1, 7), ny = exact ? 2 : s.range(1, 7);
    s.note(nx, "x", ny);
    const ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t> k(nx, ny), l(nx, ny, 1., 1.);
    if(exact) {
        const double pi = std::acos(-1.);
        fourier(s, k, l, [&](std::size_t i, std::size_t r) {
            return (-pi + 2. * pi * double(k.x_index(i)) / nx) * double(l.x_index(r)) + (-pi + 2. * pi * double(k.y_index(i)) / ny) * double(l.y_index(r));
        }, M);
    } else {
        closed(s, k, M);
    }
}
#define RULE "at least two sites, neither J nor U vanishes"
RELATION("chain, Fourier transform", 3, RULE) { Sparse<double> M; chain_case(s, M, true); }
RELATION("square, Fourier transform", 1, RULE) { Sparse<cplx> M; square_case(s, M, true); }
RELATION("chain, energies", 4, "at least two sites and U does not vanish") { Sparse<double> M; chain_case(s, M, false); }
RELATION("chain, energies, float", 2, "at least two sites and U does not vanish") { Sparse<float> M; chain_case(s, M, false); }
RELATION("square, energies", 2, "at least two sites and U does not vanish") { Sparse<cplx> M; square_case(s, M, false); }
RELATION("history", 2, "a matrix is filled at least twice")
{
    Sparse<cplx> M;
    const auto k = s.range(1, 4);
    for(int i = 0; i < k; ++i) {
        s.boolean() ? square_case(s, M, false) : chain_case(s, M, false);
    }
    s.nontrivial(k >= 2);
}
