// C01: parallel loops: no data race and the result of one thread, under every schedule.
// Compiled with ThreadSanitizer and the OpenMP run time of schedules.hpp.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "real_gen.hpp"
#include "programs.hpp"
#include <cassert>
#include <memory>
#include <blaze/Math.h>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/types/eigen/dot_product.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using pbt::Src;
namespace alg   = ieompp::algebra;
namespace hrs   = ieompp::models::hubbard_real_space;
namespace hms   = ieompp::models::hubbard_momentum_space;
namespace hub   = ieompp::models::hubbard;
namespace types = ieompp::types;
using Op        = alg::Operator<std::uint64_t, bool>;
using Mono      = alg::Monomial<Op>;
using Chain     = ieompp::lattices::PeriodicChain<double, std::uint64_t>;
using Square    = ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t>;
using Basis1    = hrs::Basis1Operator<Mono>;
using Basis3    = hrs::Basis3Operator<Mono>;
using C         = std::complex<double>;

// one thread as long as it exists
struct Serial {
    const int threads = schedules::control().max_threads, limit = schedules::control().limit;
    Serial() { schedules::control().max_threads = schedules::control().limit = 1; }
    ~Serial()
    {
        schedules::control().max_threads = threads;
        schedules::control().limit       = limit;
    }
};
template <typename F>
auto alone(F f)
{
    const Serial serial;
    return f();
}
void threads(Src& s)
{
    const int n = static_cast<int>(s.chance(1, 8) ? s.range(9, 24) : s.range(2, 8));
    s.note("threads", n);
    omp_set_num_threads(n);
}
void parallel(Src& s) { s.nontrivial(schedules::control().widest >= 2); }
const char* RULE = "a region with at least two threads";

void near(double a, double b, double scale, const char* what) { pbt::near(a, b, scale, 1e-11, what, " by several threads and by one"); }
template <typename B>
void same(const B& a, const B& b, const char* what)
{
    pbt::require(a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()), what, " made by several threads differs from the one made by one");
}

template <typename Lattice>
void real_bases(Src& s, const Lattice& l)
{
    threads(s);
    const Basis1 a(l), a1 = alone([&]() { return Basis1(l); });
    same(a, a1, "Basis1Operator");
    same(a.get_conjugate(), alone([&]() { return a1.get_conjugate(); }), "conjugate of Basis1Operator");
    const Basis3 b(l), b1 = alone([&]() { return Basis3(l); });
    same(b, b1, "Basis3Operator");
    same(b.get_conjugate(), alone([&]() { return b1.get_conjugate(); }), "conjugate of Basis3Operator");
    parallel(s);
}
template <typename Space>
void momentum_basis(Src& s, const Space& k)
{
    threads(s);
    const std::uint64_t q = s.range(0, k.size() - 1);
    using B               = hms::Basis3Operator<Mono>;
    const B b(q, k), b1 = alone([&]() { return B(q, k); });
    same(b, b1, "Basis3Operator in momentum space");
    same(b.get_conjugate(), alone([&]() { return b1.get_conjugate(); }), "conjugate of Basis3Operator in momentum space");
    B d(b);
    d.conjugate();
    same(d, b1.get_conjugate(), "Basis3Operator in momentum space conjugated in place");
    parallel(s);
}
RELATION("bases", 30, RULE)
{
    switch(s.range(0, 3)) {
        case 0: {
            const auto n = s.range(1, 7);
            s.note("chain", n);
            real_bases(s, Chain(n, 1.));
            break;
        }
        case 1: {
            const auto x = s.range(1, 3), y = s.range(1, 3);
            s.note(x, "x", y);
            real_bases(s, Square(x, y, 1., 1.));
            break;
        }
        case 2: {
            const auto n = s.range(1, 20);
            s.note("momenta", n);
            momentum_basis(s, Chain(n));
            break;
        }
        default: {
            const auto x = s.range(1, 5), y = s.range(1, 5);
            s.note("momenta", x, "x", y);
            momentum_basis(s, Square(x, y));
        }
    }
}

RELATION("dispersions", 20, RULE)
{
    const double J = s.coeff();
    if(s.boolean()) {
        const auto n = s.sized(1, 300);
        s.note("chain", n, "J", J);
        threads(s);
        const Chain k(n), l(n, gen::spacing<double>(s));
        const auto d = hub::make_dispersion(k, l, J), e = alone([&]() { return hub::make_dispersion(k, l, J); });
        for(std::int64_t i = 0; i < n; ++i) {
            pbt::equal(d(i), e(i), "dispersion at momentum ", i);
        }
    } else {
        const auto x = s.range(1, 9), y = s.range(1, 9);
        s.note(x, "x", y, "J", J);
        threads(s);
        const Square k(x, y), l(x, y, gen::spacing<double>(s), gen::spacing<double>(s));
        const auto d = hub::make_dispersion(k, l, J), e = alone([&]() { return hub::make_dispersion(k, l, J); });
        for(std::int64_t i = 0; i < x * y; ++i) {
            pbt::equal(d(i), e(i), "dispersion at momentum ", i);
        }
    }
    parallel(s);
}

RELATION("expectation values", 20, RULE)
{
    if(s.boolean()) {
        const std::uint64_t n = s.sized(1, 300);
        s.note("chain", n);
        threads(s);
        const Chain l(n, gen::spacing<double>(s));
        const double filling = s.unit(), kf = s.real(0., 3.14);
        using E = hrs::ExpectationValue1DHalfFilled<double, Chain>;
        const E a(l, filling, kf), b = alone([&]() { return E(l, filling, kf); });
        for(std::uint64_t i = 0; i < n; ++i) {
            pbt::equal(a(0, i), b(0, i), "expectation value at distance ", i);
        }
    } else {
        const std::uint64_t x = s.range(1, 12), y = s.range(1, 12);
        s.note(x, "x", y);
        threads(s);
        const Square l(x, y, 1., 1.);
        using E = hrs::ExpectationValue2DHalfFilled<double, Square>;
        const E a(l), b = alone([&]() { return E(l); });
        for(std::uint64_t i = 0; i < x * y; ++i) {
            pbt::equal(a(0, i), b(0, i), "expectation value between the sites 0 and ", i);
        }
    }
    parallel(s);
}

double scale(const std::vector<C>& h, double n)
{
    double a = 0.;
    for(const auto& x : h) {
        a += std::abs(x);
    }
    return 1. + a * a * n;
}

// each evaluation after others on objects of other sizes
RELATION("jumps on the chain", 60, RULE)
{
    const auto steps = s.range(1, 3);
    for(int t = 0; t < steps; ++t) {
        const int kind = s.range(0, 2);
        const auto N   = kind == 0 ? s.sized(1, 60) : s.range(1, 6);
        const Chain l(N, gen::spacing<double>(s));
        const gen::Green g = gen::green(s, kind == 0 ? 1 : N, true, false);
        const auto green   = [&g](const Op& a, const Op& b) { return g(a.index1 % g.n, b.index1 % g.n, a.index2); };
        const double kf    = s.real(-3., 3.);
        s.note(kind == 0 ? "one" : kind == 1 ? "three" : "normal-ordered", "N", N, "k_F", kf);
        threads(s);
        if(kind == 0) {
            using J = hrs::FermiJump1D<double, Basis1>;
            const Basis1 b(l);
            const J j(l, green, kf), one = alone([&]() { return J(l, green, kf); });
            const auto h = gen::amplitudes(s, b.size());
            threads(s);
            near(j(b, h), alone([&]() { return one(b, h); }), scale(h, 1.), "jump");
        } else if(kind == 1) {
            using J = hrs::FermiJump1D<double, Basis3>;
            const Basis3 b(l);
            const J j(b, l, green, kf), one = alone([&]() { return J(b, l, green, kf); });
            same(j.fourier_coefficients(), one.fourier_coefficients(), "vector of Fourier coefficients");
            const auto h = gen::amplitudes(s, b.size());
            threads(s);
            near(j(h), alone([&]() { return one(h); }), scale(h, 9.), "jump");
        } else if(s.boolean()) {
            using J = hrs::FermiJump1D_NO<double, Basis3>;
            const J j(l, green), one = alone([&]() { return J(l, green); });
            const auto h = gen::amplitudes(s, N + N * N * N);
            threads(s);
            near(j(h), alone([&]() { return one(h); }), scale(h, 1.), "normal-ordered jump");
        } else {
            using J = hrs::FermiJump1D_NO<double, Basis1>;
            const J j(l, green), one = alone([&]() { return J(l, green); });
            const auto h = gen::amplitudes(s, N);
            threads(s);
            near(j(h), alone([&]() { return one(h); }), scale(h, 1.), "normal-ordered jump");
        }
    }
    parallel(s);
}
RELATION("jumps on the square", 20, RULE)
{
    const auto steps = s.range(1, 3);
    for(int t = 0; t < steps; ++t) {
        const auto x = s.range(1, 3), y = s.range(1, x > 2 ? 2 : 3);
        const Square l(x, y, gen::spacing<double>(s), gen::spacing<double>(s));
        const gen::Green g = gen::green(s, x * y, true, false);
        const auto green   = [&g](const Op& a, const Op& b) { return g(a.index1, b.index1, a.index2); };
        const Square::Vector kf{s.real(-3., 3.), s.real(-3., 3.)};
        s.note(x, "x", y);
        threads(s);
        using J = hrs::FermiJump2D<double, Basis3>;
        const Basis3 b(l);
        const J j(b, l, green, kf), one = alone([&]() { return J(b, l, green, kf); });
        same(j.fourier_coefficients(), one.fourier_coefficients(), "vector of Fourier coefficients");
        const auto h = gen::amplitudes(s, b.size());
        threads(s);
        near(j(h), alone([&]() { return one(h); }), scale(h, 9.), "jump");
    }
    parallel(s);
}

template <typename Basis, typename Lattice>
void occupation(Src& s, const Lattice& l)
{
    const std::size_t N = l.size();
    const gen::Green g  = gen::green(s, N, true, false);
    const Basis b(l), c = b.get_conjugate();
    hrs::SiteOccupation<double, Basis> n{[&](const Op& a, const Op& b) { return g(a.index1, b.index1, a.index2); }, std::cref(b), std::cref(c)};
    const auto h = gen::amplitudes(s, b.size());
    threads(s);
    near(n(h), alone([&]() { return n(h); }), scale(h, 9.), "site occupation");
}
template <typename Lattice>
void occupation_all_pairs(Src& s, const Lattice& l)
{
    const std::size_t N = l.size();
    const gen::Green g  = gen::green(s, N, true, false);
    const Basis3 b(l), c = b.get_conjugate();
    hrs::SiteOccupation<double, Basis3> n{[&](const Op& a, const Op& b) { return g(a.index1, b.index1, a.index2); }, std::cref(b), std::cref(c)};
    n.exploit_inversion_symmetry = false;
    const auto h = gen::amplitudes(s, b.size());
    threads(s);
    near(n(h), alone([&]() { return n(h); }), scale(h, 9.), "site occupation from all pairs");
}
RELATION("occupation", 50, RULE)
{
    const int kind = s.range(0, 2);
    if(s.chance(2, 3)) {
        const auto N = kind == 0 ? s.range(1, 24) : s.range(1, 3);
        s.note(kind == 0 ? "one" : kind == 1 ? "three" : "all pairs", "chain", N);
        const Chain l(N, 1.);
        kind == 0 ? occupation<Basis1>(s, l) : kind == 1 ? occupation<Basis3>(s, l) : occupation_all_pairs(s, l);
    } else {
        const auto x = s.range(1, kind == 0 ? 4 : 2), y = s.range(1, kind == 0 ? 4 : 2);
        s.note(kind == 0 ? "one" : kind == 1 ? "three" : "all pairs", x, "x", y);
        const Square l(x, y, 1., 1.);
        kind == 0 ? occupation<Basis1>(s, l) : kind == 1 ? occupation<Basis3>(s, l) : occupation_all_pairs(s, l);
    }
    parallel(s);
}

RELATION("products", 40, RULE)
{
    const auto steps = s.range(1, 3);
    for(int t = 0; t < steps; ++t) {
        const std::size_t n = s.sized(1, 14);
        const int kind      = s.range(0, 3);
        s.note(kind == 0 ? "function and Blaze vector" : kind == 1 ? "function and Eigen vector" : kind == 2 ? "sparse Blaze matrix" : "sparse Eigen matrix", n);
        threads(s);
        std::uint64_t x = s.upto(~0ull);
        std::vector<C> m(n * n), v(n);
        for(auto* a : {&m, &v}) {
            for(auto& e : *a) {
                const std::uint64_t r = pbt::splitmix(x);
                e = C((static_cast<int>(r % 17) - 8) / 8., (static_cast<int>((r >> 20) % 17) - 8) / 8.);
            }
        }
        const types::FunctionMatrix<C> f(n, n, [&](std::size_t i, std::size_t j) { return m[i * n + j]; });
        std::vector<C> a(n), b(n);
        auto both = [&](auto& matrix, auto vector) {
            for(std::size_t i = 0; i < n; ++i) {
                vector[i] = v[i];
            }
            auto one = vector;
            types::multiply_assign(matrix, vector);
            {
                const Serial serial;
                types::multiply_assign(matrix, one);
            }
            for(std::size_t i = 0; i < n; ++i) {
                pbt::equal(vector[i], one[i], "element ", i, " of the product by several threads and by one");
            }
        };
        if(kind == 0) {
            both(f, blaze::DynamicVector<C, blaze::columnVector>(n));
        } else if(kind == 1) {
            both(f, Eigen::Matrix<C, Eigen::Dynamic, 1>(n));
        } else if(kind == 2) {
            blaze::CompressedMatrix<C, blaze::rowMajor> matrix(n, n);
            for(std::size_t i = 0; i < n * n; ++i) {
                matrix.insert(i / n, i % n, m[i]);
            }
            both(matrix, blaze::DynamicVector<C, blaze::columnVector>(n));
        } else {
            Eigen::SparseMatrix<C> matrix(n, n);
            for(std::size_t i = 0; i < n * n; ++i) {
                matrix.insert(i / n, i % n) = m[i];
            }
            both(matrix, Eigen::Matrix<C, Eigen::Dynamic, 1>(n));
        }
    }
    parallel(s);
}

// ---- the programs, compiled in the same way
void compare(const programs::Table& a, const programs::Table& b)
{
    pbt::equal(a.size(), b.size(), "number of data lines");
    for(std::size_t i = 0; i < a.size(); ++i) {
        pbt::equal(a[i].size(), b[i].size(), "number of columns");
        for(std::size_t j = 0; j < a[i].size(); ++j) {
            pbt::require(std::abs(a[i][j] - b[i][j]) <= 2e-5 * std::abs(b[i][j]) + 1e-9, "data line ", i, ", column ", j, ": ", a[i][j], " by several threads, ", b[i][j], " by one");
        }
    }
}
programs::Table execute(Src& s, const std::string& program, const std::vector<std::string>& args, int threads, const std::string& schedule)
{
    programs::Scratch dir;
    programs::Environment env;
    env.threads  = threads;
    env.schedule = schedule;
    env.seconds  = 200;
    const auto r = programs::run(dir, program, args, env);
    pbt::require(r.status != 66, "data race between the threads of ", program);
    programs::succeeds(r, program);
    return programs::table(programs::content(dir / dir.only("txt")));
}
std::string schedule(Src& s)
{
    const bool ordered = s.boolean();
    std::string r      = ordered ? "ordered " + std::to_string(s.upto(~0ull >> 1)) : "concurrent 0";
    r += " " + std::to_string(s.chance(1, 4) ? s.range(2, 4) : 64);
    s.note(r);
    return r;
}
RELATION("programs", 8, "at least two threads")
{
    static const std::vector<std::string> names = {"hubbard_real_1d_rk4", "hubbard_real_1d_rk4_jump", "hubbard_real_2d_rk4_jump", "hubbard_real_1d_kinetic_rk4"};
    const std::string program = s.pick(names);
    std::vector<std::string> args{"--dt=0.02", "--t_end=" + programs::text(0.02 * s.range(1, 3)), "--measurement_interval=1", "--J=" + programs::text(s.range(-4, 4) / 2.)};
    if(program == "hubbard_real_2d_rk4_jump") {
        args.push_back("--Nx=3");
        args.push_back("--Ny=3");
    } else {
        args.push_back("--N=" + std::to_string(s.range(3, 4)));
    }
    if(program != "hubbard_real_1d_kinetic_rk4") {
        args.push_back("--U=" + programs::text(s.range(-4, 8) / 2.));
    }
    s.note(program);
    for(const auto& a : args) {
        s.note(a);
    }
    const int n = s.range(2, 6);
    s.note("threads", n);
    const std::string how = schedule(s);
    compare(execute(s, program, args, n, how), execute(s, program, args, 1, "concurrent 0 64"));
    s.nontrivial(n >= 2);
}
RELATION("theory program", 1, "always")
{
    const int n = s.range(2, 6);
    s.note("threads", n);
    const std::string how = schedule(s);
    execute(s, "hubbard_real_1d_kinetic_theory", {}, n, how);
    s.nontrivial(true);
}
