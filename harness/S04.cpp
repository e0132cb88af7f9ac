// S04: the programs for the square lattice and momentum space and those without options.
#include "fermi_sea_reference.hpp"
#include "pbt_main.hpp"
#include "evolution_reference.hpp"
#include <blaze/Math.h>
#include <blaze/math/serialization/MatrixSerializer.h>
#include <blaze/util/Serialization.h>
#include <boost/math/special_functions/bessel.hpp>

using pbt::Src;
using programs::text;
using model::C;
const double pi = std::acos(-1.);

double parameter(Src& s, double most) { return s.chance(1, 12) ? s.pick(std::vector<double>{0., 1e-2, -1e-3, 1e-4}) : s.boolean() ? 1. : s.boolean() ? s.range(-4, 4) / 4. * most : s.real(-most, most); }
void note_all(Src& s, const std::vector<std::string>& args)
{
    for(const auto& a : args) {
        s.note(a);
    }
}

RELATION("square jump", 3, "at least two measurements after the start")
{
    const std::size_t nx = s.range(3, 4), ny = nx == 3 && s.chance(1, 4) ? 4 : 3, n = nx * ny;
    auto p = model::plan(s);
    if(n > 9) {
        p.steps = std::min<std::uint64_t>(p.steps, 6);
        p.t_end = p.dt * (p.steps - 0.5);
    }
    const bool kx_given = s.boolean(), ky_given = s.chance(1, 4) ? !kx_given : kx_given;
    const double J = parameter(s, 2.), U = parameter(s, 3.);
    const double kx = !kx_given ? pi / 2 : s.boolean() ? s.range(-8, 8) * pi / 8 : s.real(-pi, pi), ky = !ky_given ? pi / 2 : s.boolean() ? s.range(-8, 8) * pi / 8 : s.real(-pi, pi);
    std::vector<std::pair<std::string, std::string>> o{{"Nx", std::to_string(nx)}, {"Ny", std::to_string(ny)}, {"J", text(J)}, {"U", text(U)}, {"dt", text(p.dt)}, {"t_end", text(p.t_end)}, {"measurement_interval", std::to_string(p.interval)}, {"out", "jump.txt"}};
    if(kx_given) {
        o.push_back({"kx", text(kx)});
    }
    if(ky_given) {
        o.push_back({"ky", text(ky)});
    }
    const auto args = programs::arguments(s, o);
    note_all(s, args);
    programs::Scratch dir;
    programs::Environment env;
    env.threads = s.team();
    programs::succeeds(programs::run(dir, "hubbard_real_2d_rk4_jump", args, env), "hubbard_real_2d_rk4_jump");

    auto ring = [](std::size_t a, std::size_t b, std::size_t n) {
        const std::size_t d = a > b ? a - b : b - a;
        return double(std::min(d, n - d));
    };
    auto sinc = [](double x) { return std::abs(x) < 1e-9 ? 1. : std::sin(x) / x; };
    const wick::Green g = [&](std::size_t a, std::size_t b, bool) {
        const double dx = ring(a / ny, b / ny, nx), dy = ring(a % ny, b % ny, ny);
        return 0.5 * sinc(0.5 * pi * (dx + dy)) * sinc(0.5 * pi * (dx - dy));
    };
    const model::Ring neighbors = [&](std::size_t i) {
        const std::size_t x = i / ny, y = i % ny;
        return std::vector<std::size_t>{(x + 1) % nx * ny + y, (x + nx - 1) % nx * ny + y, x * ny + (y + 1) % ny, x * ny + (y + ny - 1) % ny};
    };
    double scale = 1.;
    const auto ref = model::expected(p, model::matrix3(n, J, U, neighbors), [&](const model::Vector& h) {
        for(const auto& x : h) {
            scale = std::max(scale, std::norm(x));
        }
        return std::vector<double>{model::jump(n, h, g, [&](std::size_t i) { return kx * double(i / ny) + ky * double(i % ny); })};
    });
    model::compare(programs::table(programs::content(dir / "jump.txt")), ref, scale);
    s.nontrivial(ref.size() >= 3);
}

RELATION("momentum", 4, "an interaction and at least three momenta, J does not vanish")
{
    std::uint64_t n = s.sized(1, 14);
    const double J  = parameter(s, 2.), U = parameter(s, 4.);
    if(n % 4 == 0 && J != 0.) {
        ++n; // there are momenta at the Fermi energy: rounding decides
    }
    const double dt = s.boolean() ? 0.01 : s.real(1e-3, 5e-2);
    std::vector<std::pair<std::string, std::string>> o{{"N", std::to_string(n)}, {"J", text(J)}, {"U", text(U)}, {"dt", text(dt)}};
    static const std::vector<std::string> outs = {"k.txt", "momentum", "a.b.txt", "sub/k.txt", "sub/m", "./a.b/k.dat", "./k.d"};
    const std::string out = s.pick(outs);
    o.push_back({"out", out});
    const auto args = programs::arguments(s, o);
    note_all(s, args);
    programs::Scratch dir;
    programs::Environment env;
    env.threads  = s.team();
    mkdir((dir / "sub").c_str(), 0700);
    mkdir((dir / "a.b").c_str(), 0700);
    const auto r = programs::run(dir, "hubbard_momentum_1d_rk4", args, env);
    programs::succeeds(r, "hubbard_momentum_1d_rk4");

    struct Basis {
        struct Monomial {
            struct Operator {
                bool creator;
                std::size_t index1;
                bool index2;
            };
        };
        std::vector<std::vector<Monomial::Operator>> b;
        std::size_t size() const { return b.size(); }
        const std::vector<Monomial::Operator>& operator[](std::size_t i) const { return b[i]; }
    } basis;
    const std::size_t q = n / 2;
    gen::Energies e;
    for(std::size_t k = 0; k < n; ++k) {
        e.e.push_back(-2. * J * std::cos(-pi + 2. * pi * double(k) / n));
    }
    basis.b.push_back({{true, q, true}});
    model::Rows m(1);
    m[0][0] = e.e[q] + U / 2.;
    for(std::size_t k1 = 0; k1 < n; ++k1) {
        for(std::size_t k2 = 0; k2 < n; ++k2) {
            // -pi + 2 pi i / n: the offset -pi of k1 + k2 - q is that of a single momentum
            const std::size_t k3 = (k1 + k2 + n - q) % n, at = basis.size();
            basis.b.push_back({{true, k1, true}, {true, k2, false}, {false, k3, false}});
            m.push_back({{0, U / (2. * n)}, {at, e.e[k1] + e.e[k2] - e.e[k3] + U / 2.}});
            m[0][at] = U / (2. * n);
        }
    }
    const auto states = sea::reference(basis, e, 0.);
    auto number = [&](const model::Vector& h) {
        std::map<std::vector<char>, C> sum;
        for(std::size_t j = 0; j < basis.size(); ++j) {
            for(const auto& x : states[j]) {
                sum[x.first] += std::conj(h[j]) * x.second;
            }
        }
        double r = 0.;
        for(const auto& x : sum) {
            r += std::norm(x.second);
        }
        return r;
    };
    model::Vector h(basis.size());
    h[0] = 1.;
    programs::Table ref{{number(h)}};
    for(int i = 0; i < 8; ++i) {
        model::step(m, h, dt);
    }
    ref.push_back({number(h)});
    model::compare(programs::table(r.out), ref, 1.);

    // the matrix file
    const auto slash = out.rfind('/'), dot = out.rfind('.');
    const std::string stem = dot == std::string::npos || (slash != std::string::npos && dot < slash) ? out : out.substr(0, dot);
    const std::string file = dir / (stem + "_matrix.blaze");
    pbt::require(programs::exists(dir / out), "no output file");
    pbt::require(programs::exists(dir / (stem + ".rsp")) && programs::exists(dir / (stem + ".log")), "no response or log file");
    pbt::require(programs::exists(file), "no matrix file");
    blaze::CompressedMatrix<C, blaze::rowMajor> M;
    std::ifstream strm(file.c_str(), std::ifstream::binary);
    blaze::Archive<std::ifstream> archive(strm);
    archive >> M;
    pbt::require(M.rows() == basis.size() && M.columns() == basis.size(), "the matrix in the file is ", M.rows(), "x", M.columns());
    for(std::size_t i = 0; i < basis.size(); ++i) {
        std::map<std::size_t, C> got;
        for(auto it = M.begin(i); it != M.end(i); ++it) {
            got[it->index()] += it->value();
        }
        for(const auto& kv : m[i]) {
            pbt::require(std::abs(got[kv.first] - C(0., kv.second)) <= 1e-12 * 20., "element ", i, ",", kv.first, " of the matrix file: ", got[kv.first], ", expected ", C(0., kv.second));
            got.erase(kv.first);
        }
        for(const auto& kv : got) {
            pbt::require(std::abs(kv.second) <= 1e-12 * 20., "element ", i, ",", kv.first, " of the matrix file: ", kv.second, ", expected 0");
        }
    }
    s.nontrivial(n >= 3 && J != 0. && U != 0.);
}

programs::Table fixed(Src& s, const std::string& program, std::size_t lines, std::size_t columns)
{
    programs::Scratch dir;
    programs::Environment env;
    env.threads = s.team();
    s.note("threads", env.threads);
    programs::succeeds(programs::run(dir, program, {}, env), program);
    const auto t = programs::table(programs::content(dir / dir.only("txt")));
    pbt::equal(t.size(), lines, "number of data lines of ", program);
    for(const auto& row : t) {
        pbt::equal(row.size(), columns, "number of columns");
    }
    return t;
}
void close(double got, double ref, double tol, const char* what, std::size_t line) { pbt::require(std::abs(got - ref) <= tol, what, " in line ", line, ": got ", got, ", expected ", ref); }

RELATION("analytic solution", 1, "always")
{
    const auto t = fixed(s, "hubbard_real_1d_kinetic_theory", 10000, 3);
    for(std::size_t i = 0; i < t.size(); ++i) {
        close(t[i][0], 0.01 * i, 1e-5 * (0.01 * i) + 1e-9, "time", i);
        close(t[i][2], 0., 1e-9, "imaginary part", i);
        if(i < 2500) { // <n> is conserved until the wave fronts meet at the far side of the ring
            close(t[i][1], 0.5, 1e-5, "site occupation", i);
        }
    }
    for(int k = 0; k < 3; ++k) {
        const std::size_t i = s.range(0, 9999), N = 128;
        s.note("line", i);
        std::vector<double> bessel;
        for(std::size_t d = 0; d <= N / 2; ++d) {
            bessel.push_back(boost::math::cyl_bessel_j(double(d), 0.02 * i));
        }
        auto ring = [&](std::size_t a, std::size_t b) {
            const std::size_t d = a > b ? a - b : b - a;
            return std::min(d, N - d);
        };
        C sum = 0.;
        for(std::size_t a = 0; a < N; ++a) {
            for(std::size_t b = 0; b < N; ++b) {
                const double d  = ring(a, b);
                const double ev = d == 0. ? 0.5 : std::sin(pi / 2. * d) / (pi * d);
                static const C phase[] = {{1., 0.}, {0., -1.}, {-1., 0.}, {0., 1.}};
                sum += ev * bessel[ring(a, 0)] * bessel[ring(b, 0)] * phase[ring(a, 0) % 4] * std::conj(phase[ring(b, 0) % 4]);
            }
        }
        close(t[i][1], sum.real(), 1e-5, "site occupation", i);
    }
    s.nontrivial();
}
RELATION("dispersion", 1, "always")
{
    const auto t = fixed(s, "hubbard_dispersion_1d", 1024, 2);
    for(std::size_t i = 0; i < t.size(); ++i) {
        const double k = -pi + 2. * pi * double(i) / 1024;
        close(t[i][0], k, 1e-5 * std::abs(k) + 1e-9, "momentum", i);
        close(t[i][1], -2. * std::cos(k), 2e-5, "energy", i);
    }
    s.nontrivial();
}
RELATION("four operators", 1, "always")
{
    const auto t = fixed(s, "hubbard_trivial", 2001, 11);
    const model::Rows m{{{0, .5}, {1, -1.}, {2, -1.}, {3, .5}}, {{0, -1.}, {1, .5}}, {{0, -1.}, {2, .5}}, {{0, .5}, {3, .5}}};
    model::Vector h(4);
    h[0] = 1.;
    for(std::size_t i = 0; i < t.size(); ++i) {
        close(t[i][0], 0.01 * i, 1e-5 * (0.01 * i) + 1e-9, "time", i);
        for(std::size_t j = 0; j < 4; ++j) {
            close(t[i][1 + 2 * j], h[j].real(), 1e-5, "real part", i);
            close(t[i][2 + 2 * j], h[j].imag(), 1e-5, "imaginary part", i);
        }
        // the particle number: a hermitian form of the amplitudes
        double number = 0., change = 0.;
        for(std::size_t j = 0; j < 4; ++j) {
            for(std::size_t k = 0; k < 4; ++k) {
                const double ev = j == k ? (j < 3 ? 0.5 : 0.25) : (j < 3 && k < 3) ? 1. / pi : (j == 0 || k == 0) ? 0.25 : 0.5 / pi;
                // the two outer sites are not neighbours: no contraction of them is as good
                ((j == 1 && k == 2) || (j == 2 && k == 1) ? change : number) += ev * (h[j] * std::conj(h[k])).real();
            }
        }
        pbt::require(std::abs(t[i][9] - number - change) <= 2e-5 || std::abs(t[i][9] - number) <= 2e-5, "particle number in line ", i, ": got ", t[i][9], ", expected ", number + change);
        close(t[i][10], 0., 1e-9, "imaginary part of the particle number", i);
        model::step(m, h, 0.01);
    }
    s.nontrivial();
}
