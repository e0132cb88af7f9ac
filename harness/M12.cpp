// M12: Liouvillian matrices in the normal-ordered real-space bases.
#include "lattice_gen.hpp"
#include "real_gen.hpp"
#include "pbt_main.hpp"
#include <cassert>
#include <blaze/Math.h>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "hubbard_reference.hpp"
#include "sparse_check.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
using Mono    = alg::Monomial<alg::Operator<std::uint64_t, bool>>;

struct Ev {
    std::vector<double> g;
    std::size_t n;
    double operator()(std::uint64_t a, std::uint64_t b) const { return g.at(a * n + b); }
};

template <typename Scalar, typename Lattice>
void three(Src& s, const Lattice& lattice, const std::function<std::size_t(std::size_t, std::size_t, bool)>& shell, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M)
{
    const std::size_t n = lattice.size();
    // invariant under the translations of the lattice: one value per distance or per displacement
    std::map<std::size_t, double> values;
    Ev ev{std::vector<double>(n * n), n};
    const bool sparse = s.chance(1, 4), directed = s.chance(1, 3);
    for(std::size_t a = 0; a < n; ++a) {
        for(std::size_t b = 0; b < n; ++b) {
            const auto c = shell(a, b, directed);
            if(!values.count(c)) {
                values[c] = sparse && s.boolean() ? 0. : s.chance(1, 4) ? 0.5 : s.real(-1., 1.);
            }
            ev.g[a * n + b] = values[c];
        }
    }
    auto J = sparse_check::parameter<Scalar>(s);
    if(s.chance(1, 8)) { // without hopping it suffices that all occupations agree
        J = 0;
        for(std::size_t a = 0; a < n; ++a) {
            for(std::size_t b = 0; b < n; ++b) {
                ev.g[a * n + b] = a == b ? ev.g[0] : s.real(-1., 1.);
            }
        }
    }
    const auto U = sparse_check::parameter<Scalar>(s);
    s.note("J", J, "U", U);
    const hrs::Basis3Operator<Mono> basis(lattice);
    const auto L = hrs::make_liouvillian(J, U);
    hrs::init_matrix_no(L, M, basis, lattice, ev);
    sparse_check::shape(M, basis.size());
    const auto neighbors = [&](std::size_t i) { return lattice.neighbors(i); };
    const wick::Green g  = [&](std::size_t a, std::size_t b, bool) { return ev.g[a * n + b]; };
    const double scale   = std::max<double>(std::abs(J), std::abs(U));
    for(std::size_t r1 = 0; r1 < n; ++r1) {
        const auto ref = hubbard_ref::interaction_and_hopping(n, {{1., {{true, r1, true}}}}, J, U, neighbors, g);
        sparse_check::row(M, r1, ref, scale, "c+_", r1);
    }
    // all rows of small lattices, a sample of large ones
    std::vector<std::size_t> rows;
    if(n <= 4) {
        for(std::size_t r = 0; r < n * n * n; ++r) {
            rows.push_back(r);
        }
    } else {
        for(int i = 0; i < 30; ++i) {
            std::size_t a = s.upto(n - 1);
            std::size_t b = s.chance(1, 3) ? a : s.upto(n - 1);
            std::size_t c = s.chance(1, 3) ? a : s.chance(1, 3) ? b : s.upto(n - 1);
            rows.push_back((a * n + b) * n + c);
        }
    }
    for(const auto r : rows) {
        const std::size_t r1 = r / n / n, r2 = r / n % n, r3 = r % n;
        const wick::Sum a{{1., {{true, r1, true}, {true, r2, false}, {false, r3, false}}}, {-ev.g[r2 * n + r3], {{true, r1, true}}}};
        sparse_check::row(M, n + r, hubbard_ref::interaction_and_hopping(n, a, J, U, neighbors, g), scale, ":c+_", r1, "up c+_", r2, "down c_", r3, "down:");
    }
    s.nontrivial(U != 0. && J != 0. && values.size() >= 2);
}
template <typename Scalar, typename Lattice>
void one(Src& s, const Lattice& lattice, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M)
{
    const std::size_t n = lattice.size();
    const auto J = sparse_check::parameter<Scalar>(s), U = sparse_check::parameter<Scalar>(s);
    s.note("J", J, "U", U);
    const hrs::Basis1Operator<Mono> basis(lattice);
    hrs::init_kinetic_matrix_no(hrs::make_liouvillian(J, U), M, basis, lattice);
    sparse_check::shape(M, n);
    for(std::size_t r = 0; r < n; ++r) {
        const auto ref = hubbard_ref::interaction_and_hopping(n, {{1., {{true, r, true}}}}, J, 0., [&](std::size_t i) { return lattice.neighbors(i); },
                                                              [](std::size_t, std::size_t, bool) { return 0.; });
        sparse_check::row(M, r, ref, std::abs(J), "c+_", r);
    }
    s.nontrivial(J != 0.);
}
template <typename Scalar>
void chain(Src& s, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M, bool single)
{
    const std::uint64_t n = single ? gen::lattice_size(s, 3, 200) : s.chance(1, 30) ? s.range(9, 20) : s.weighted({6, 5, 3, 2, 1, 1}) + 3;
    s.note("chain", n);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> l(n, 1.);
    if(single) {
        one(s, l, M);
    } else {
        three(s, l, [n](std::size_t a, std::size_t b, bool directed) { const std::size_t d = (a + n - b) % n; return directed ? d : std::min<std::size_t>(d, n - d); }, M);
    }
}
template <typename Scalar>
void square(Src& s, blaze::CompressedMatrix<Scalar, blaze::rowMajor>& M, bool single)
{
    const std::uint64_t nx = single ? s.range(3, 12) : s.range(3, 4), ny = single ? s.range(3, 12) : 3;
    s.note(nx, "x", ny);
    const ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t> l(nx, ny, 1., 1.);
    if(single) {
        one(s, l, M);
    } else {
        three(s, l, [&](std::size_t a, std::size_t b, bool directed) {
            const std::size_t dx = (l.x_index(a) + nx - l.x_index(b)) % nx, dy = (l.y_index(a) + ny - l.y_index(b)) % ny;
            return directed ? dx * 1000 + dy : std::min(dx, nx - dx) * 1000 + std::min(dy, ny - dy);
        }, M);
    }
}
#define RULE3 "J and U do not vanish and at least two distances have their own expectation value"
RELATION("chain three real", 8, RULE3) { blaze::CompressedMatrix<double, blaze::rowMajor> M; chain(s, M, false); }
RELATION("chain three complex", 4, RULE3) { blaze::CompressedMatrix<std::complex<double>, blaze::rowMajor> M; chain(s, M, false); }
RELATION("chain three float", 2, RULE3) { blaze::CompressedMatrix<float, blaze::rowMajor> M; chain(s, M, false); }
RELATION("square three", 1, RULE3) { blaze::CompressedMatrix<double, blaze::rowMajor> M; square(s, M, false); }
RELATION("kinetic", 4, "J does not vanish")
{
    blaze::CompressedMatrix<double, blaze::rowMajor> M;
    s.boolean() ? chain(s, M, true) : square(s, M, true);
}
RELATION("history", 2, "a matrix is filled at least twice")
{
    blaze::CompressedMatrix<std::complex<double>, blaze::rowMajor> M;
    const auto k = s.range(1, 4);
    for(int i = 0; i < k; ++i) {
        const bool single = s.boolean();
        single && s.boolean() ? square(s, M, true) : chain(s, M, single);
    }
    s.nontrivial(k >= 2);
}
