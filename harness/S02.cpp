// S02: the chain programs write the observables of the evolved operator at the measurement times.
#include "pbt_main.hpp"
#include "evolution_reference.hpp"

using pbt::Src;
using programs::text;

enum Kind { Occupation, Jump, Coefficients };

void chain_case(Src& s, const std::string& program, Kind kind, bool kinetic)
{
    const double pi        = std::acos(-1.);
    const std::uint64_t n  = kinetic ? s.sized(3, 24) : s.chance(1, 10) ? s.range(6, kind == Occupation ? 8 : 10) : s.weighted({4, 3, 1}) + 3;
    const auto p           = model::plan(s, n > 5 && !kinetic ? 30 : 1200);
    auto parameter = [&](double most) { return s.boolean() ? 1. : s.boolean() ? s.range(-4, 4) / 4. * most : s.real(-most, most); };
    const bool J_given = s.boolean(), U_given = s.boolean(), filling_given = kind != Coefficients && s.boolean();
    const double J = J_given ? parameter(2.) : 1., U = U_given ? parameter(4.) : 1.;
    const double filling = !filling_given ? 0.5 : s.boolean() ? s.range(0, 8) / 8. : s.unit();
    const bool interval_given = p.interval != 100;
    std::vector<std::pair<std::string, std::string>> o{{"dt", text(p.dt)}, {"t_end", text(p.t_end)}};
    if(n != 16 || s.boolean()) { // 16 by default
        o.push_back({"N", std::to_string(n)});
    }
    if(interval_given) {
        o.push_back({"measurement_interval", std::to_string(p.interval)});
    }
    if(J_given) {
        o.push_back({"J", text(J)});
    }
    if(U_given && !kinetic) {
        o.push_back({"U", text(U)});
    }
    if(filling_given) {
        o.push_back({"filling_factor", text(filling)});
    }
    static const std::vector<std::string> outs = {"", "a.txt", "result", "x.y.dat"};
    const std::string out = s.pick(outs);
    if(!out.empty()) {
        o.push_back({"out", out});
    }
    const auto args = programs::arguments(s, o);
    for(const auto& a : args) {
        s.note(a);
    }
    programs::Scratch dir;
    programs::Environment env;
    env.threads  = s.team();
    env.login    = !s.chance(1, 8);
    const auto r = programs::run(dir, program, args, env);
    programs::succeeds(r, program);
    const std::string file = out.empty() ? dir.only("txt") : out;
    pbt::require(programs::exists(dir / file), "no output file ", file);

    auto distance = [&](std::size_t a, std::size_t b) {
        const std::size_t d = a > b ? a - b : b - a;
        return std::min(d, n - d);
    };
    const wick::Green g = [&](std::size_t a, std::size_t b, bool) {
        const double d = distance(a, b);
        return d == 0. ? filling : std::sin(filling * pi * d) / (pi * d);
    };
    const model::Ring ring = [&](std::size_t i) { return std::vector<std::size_t>{(i + 1) % n, (i + n - 1) % n}; };
    const auto m           = kinetic ? model::matrix1(n, J, ring) : model::matrix3(n, J, U, ring);
    std::vector<double> gram;
    if(kind == Occupation) {
        gram = model::gram(n, m.size(), g);
    }
    double scale = 1.;
    const model::Observe observe = [&](const model::Vector& h) {
        std::vector<double> v;
        for(const auto& x : h) {
            scale = std::max(scale, std::norm(x));
        }
        if(kind == Occupation) {
            v.push_back(model::occupation(gram, h));
        } else if(kind == Jump) {
            v.push_back(model::jump(n, h, g, [&](std::size_t i) { return filling * pi * double(i); }));
        } else {
            for(const auto& x : h) {
                v.push_back(x.real());
                v.push_back(x.imag());
            }
        }
        return v;
    };
    const auto ref = model::expected(p, m, observe);
    model::compare(programs::table(programs::content(dir / file)), ref, scale);
    s.nontrivial(ref.size() >= 3 && J != 0.);
}
#define RULE "at least two measurements after the start and a hopping that does not vanish"
RELATION("site occupation", 2, RULE) { chain_case(s, "hubbard_real_1d_rk4", Occupation, false); }
RELATION("Fermi jump", 2, RULE) { chain_case(s, "hubbard_real_1d_rk4_jump", Jump, false); }
RELATION("coefficients", 1, RULE) { chain_case(s, "hubbard_real_1d_rk4_coefficients", Coefficients, false); }
RELATION("kinetic site occupation", 2, RULE) { chain_case(s, "hubbard_real_1d_kinetic_rk4", Occupation, true); }
RELATION("kinetic coefficients", 2, RULE) { chain_case(s, "hubbard_real_1d_kinetic_rk4_coefficients", Coefficients, true); }
