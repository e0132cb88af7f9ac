// M02: momentum-space operator basis.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include <omp.h>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hms = ieompp::models::hubbard_momentum_space;
using M = alg::Monomial<alg::Operator<std::uint64_t, bool>>;

bool is_op(const M& m, std::size_t at, bool creator, std::uint64_t k, bool spin)
{
    return m[at].creator == creator && m[at].index1 == k && m[at].index2 == spin;
}

// `third` gives the momentum index of k1 + k2 - q
template <typename Space>
void basis_case(Src& s, const Space& space, std::uint64_t q, const std::function<std::uint64_t(std::uint64_t, std::uint64_t)>& third)
{
    using B               = hms::Basis3Operator<M>;
    const std::uint64_t N = space.size();
    const B b(q, space);
    pbt::require(b.N == N && b.size() == N * N + 1, "size of the basis");
    pbt::require(b[0].size() == 1 && is_op(b[0], 0, true, q, true), "the first basis operator");
    for(std::uint64_t i = 0; i < N; ++i) {
        for(std::uint64_t j = 0; j < N; ++j) {
            const auto at = b.get_3op_index(i, j);
            pbt::require(at == 1 + i * N + j, "get_3op_index(", i, ",", j, ")");
            const auto& m = b[at];
            pbt::require(m.size() == 3 && is_op(m, 0, true, i, true) && is_op(m, 1, true, j, false), "creators of basis operator (", i, ",", j, ")");
            pbt::require(!m[2].creator && !m[2].index2, "annihilator of basis operator (", i, ",", j, ")");
            pbt::equal(m[2].index1, third(i, j), "momentum of the annihilator of basis operator (", i, ",", j, ")");
        }
    }
    const B before(b);
    omp_set_num_threads(s.team());
    const B c = b.get_conjugate();
    pbt::require(std::equal(b.begin(), b.end(), before.begin()), "get_conjugate changes the basis");
    B d(b);
    d.conjugate();
    pbt::require(c.size() == b.size() && d.size() == b.size(), "size of the conjugated basis");
    for(std::size_t i = 0; i < b.size(); ++i) {
        const auto& m = b[i];
        pbt::require(c[i].size() == m.size() && d[i].size() == m.size(), "length of a conjugated basis operator");
        for(std::size_t k = 0; k < m.size(); ++k) {
            const auto& o = m[m.size() - 1 - k];
            pbt::require(is_op(c[i], k, !o.creator, o.index1, o.index2), "get_conjugate: basis operator ", i);
            pbt::require(is_op(d[i], k, !o.creator, o.index1, o.index2), "conjugate: basis operator ", i);
        }
    }
    d.conjugate();
    pbt::require(std::equal(b.begin(), b.end(), d.begin()), "conjugating twice");
    static_assert(hms::IsThreeOperatorBasis<B>::value && !hms::IsOneOperatorBasis<B>::value, "");
}

// site i of a momentum chain of N sites has the momentum -pi + 2 pi i / N
std::int64_t shifted(std::int64_t i, std::int64_t j, std::int64_t q, std::int64_t n) { return ((i + j - q) % n + n) % n; }

RELATION("chain", 4, "at least three momenta")
{
    const auto N = s.chance(1, 60) ? s.range(41, 300) : gen::lattice_size(s, 1, 40);
    const auto q = gen::site(s, N);
    s.note("chain", N, "q", q);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> k(N);
    basis_case(s, k, q, [&](std::uint64_t i, std::uint64_t j) { return shifted(i, j, q, N); });
    s.nontrivial(N >= 3);
}
RELATION("square", 3, "both sides have at least two momenta and differ")
{
    const bool large = s.chance(1, 60);
    const auto nx = s.range(1, large ? 17 : 7), ny = s.range(1, large ? 17 : 7);
    const ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t> k(nx, ny);
    const std::uint64_t q = gen::site(s, nx * ny);
    s.note(nx, "x", ny, "q", q);
    basis_case(s, k, q, [&](std::uint64_t i, std::uint64_t j) {
        return k.index(shifted(k.x_index(i), k.x_index(j), k.x_index(q), nx), shifted(k.y_index(i), k.y_index(j), k.y_index(q), ny));
    });
    s.nontrivial(nx >= 2 && ny >= 2 && nx != ny);
}
