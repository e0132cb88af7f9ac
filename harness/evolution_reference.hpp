// an independent model of the real-space programs: equations of motion, fourth-order steps,
// observables and measurement times
#ifndef VERIF_EVOLUTION_REFERENCE_HPP_
#define VERIF_EVOLUTION_REFERENCE_HPP_
#include "hubbard_reference.hpp"
#include "programs.hpp"
namespace model
{
    using C      = std::complex<double>;
    using Vector = std::vector<C>;
    using Rows   = std::vector<hubbard_ref::Row>;
    using Ring   = std::function<std::vector<std::size_t>(std::size_t)>;

    inline Rows matrix1(std::size_t n, double J, const Ring& neighbors)
    {
        Rows r(n);
        for(std::size_t i = 0; i < n; ++i) {
            for(const auto j : neighbors(i)) {
                r[i][j] += -J;
            }
        }
        return r;
    }
    inline Rows matrix3(std::size_t n, double J, double U, const Ring& neighbors)
    {
        const wick::Green hot = [](std::size_t a, std::size_t b, bool) { return a == b ? 0.5 : 0.; };
        const double n1 = std::sqrt(2.), n3 = std::sqrt(8.);
        Rows rows(n + n * n * n);
        for(std::size_t r = 0; r < rows.size(); ++r) {
            wick::Sum a{{n1, {{true, r, true}}}};
            if(r >= n) {
                const std::size_t x = r - n, r1 = x / n / n, r2 = x / n % n, r3 = x % n;
                a = {{n3, {{true, r1, true}, {true, r2, false}, {false, r3, false}}}};
                if(r2 == r3) {
                    a.push_back({-n3 / 2., {{true, r1, true}}});
                }
            }
            rows[r] = hubbard_ref::interaction_and_hopping(n, a, J, U, neighbors, hot);
            for(auto& kv : rows[r]) {
                kv.second /= kv.first < n ? n1 : n3;
            }
        }
        return rows;
    }
    inline void step(const Rows& m, Vector& h, double dt)
    {
        Vector term = h;
        for(int k = 1; k <= 4; ++k) {
            Vector next(h.size());
            for(std::size_t r = 0; r < h.size(); ++r) {
                for(const auto& kv : m[r]) {
                    next[r] += kv.second * term[kv.first];
                }
                next[r] *= C(0., dt / k);
            }
            term = next;
            for(std::size_t r = 0; r < h.size(); ++r) {
                h[r] += term[r];
            }
        }
    }
    // <n_0up> = sum_ij h_i conj(h_j) gram_ij
    inline std::vector<double> gram(std::size_t n, std::size_t size, const wick::Green& g)
    {
        std::vector<wick::Sum> a(size), b(size);
        for(std::size_t r = 0; r < size; ++r) {
            a[r] = {{1., {{true, r, true}}}};
            if(r >= n) {
                const std::size_t x = r - n, r1 = x / n / n, r2 = x / n % n, r3 = x % n;
                a[r] = {{2., {{true, r1, true}, {true, r2, false}, {false, r3, false}}}};
                if(r2 == r3) {
                    a[r].push_back({-1., {{true, r1, true}}});
                }
            }
            b[r] = wick::adjoint(a[r]);
        }
        std::vector<double> m(size * size);
        for(std::size_t i = 0; i < size; ++i) {
            for(std::size_t j = 0; j <= i; ++j) {
                m[i * size + j] = m[j * size + i] = wick::expect(a[i], b[j], g);
            }
        }
        return m;
    }
    inline double occupation(const std::vector<double>& m, const Vector& h)
    {
        double r = 0.;
        for(std::size_t i = 0; i < h.size(); ++i) {
            C x = 0.;
            for(std::size_t j = 0; j < h.size(); ++j) {
                x += m[i * h.size() + j] * std::conj(h[j]);
            }
            r += (h[i] * x).real();
        }
        return r;
    }
    inline double jump(std::size_t n, const Vector& h, const wick::Green& g, const std::function<double(std::size_t)>& angle)
    {
        C sum = 0.;
        for(std::size_t i = 0; i < n; ++i) {
            C r = h[i];
            for(std::size_t j = 0; j < n; ++j) {
                for(std::size_t k = 0; k < n; ++k) {
                    r += (2. * g(j, k, true) - (j == k ? 1. : 0.)) * h[n + n * n * i + n * j + k];
                }
            }
            sum += std::polar(1., angle(i)) * r;
        }
        return std::norm(sum);
    }

    // what the programs write
    struct Plan {
        double dt, t_end;
        std::uint64_t steps, interval;
    };
    inline Plan plan(pbt::Src& s, std::uint64_t longest = 30)
    {
        Plan p;
        const bool many = longest > 30 && s.chance(1, 6);
        p.steps    = many ? s.range(31, longest) : s.sized(0, 30);
        p.interval = s.weighted({1, 4, 2, 2, 1});
        p.interval = p.interval == 4 ? s.range(5, 40) : p.interval;
        if(many) {
            p.interval = s.range(longest / 8, longest * 2 / 3);
        }
        if(s.boolean()) { // exact multiples
            p.dt    = 1. / (1 << s.range(many ? 4 : 1, 9));
            p.t_end = p.dt * p.steps;
            if(s.chance(1, 4)) { // barely another step
                p.t_end += std::ldexp(p.dt, -s.range(1, 20));
                ++p.steps;
            }
        } else {
            p.dt    = s.boolean() ? 0.01 * s.range(1, 8) : s.real(1e-3, 8e-2);
            p.t_end = p.dt * (p.steps - 0.5);
        }
        return p;
    }
    using Observe = std::function<std::vector<double>(const Vector&)>;
    inline programs::Table expected(const Plan& p, const Rows& m, const Observe& observe)
    {
        Vector h(m.size());
        h[0] = 1.;
        programs::Table t;
        auto measure = [&](double time) {
            t.push_back({time});
            const auto o = observe(h);
            t.back().insert(t.back().end(), o.begin(), o.end());
        };
        measure(0.);
        std::uint64_t last = 0;
        for(std::uint64_t n = 0; n <= p.steps; ++n) {
            if(n > last && n - last >= p.interval) {
                measure(n * p.dt);
                last = n;
            }
            if(n < p.steps) {
                step(m, h, p.dt);
            }
        }
        return t;
    }
    inline void compare(const programs::Table& got, const programs::Table& ref, double scale)
    {
        for(std::size_t i = 0; i < std::min(got.size(), ref.size()); ++i) {
            pbt::equal(got[i].size(), ref[i].size(), "number of columns of data line ", i);
            for(std::size_t j = 0; j < ref[i].size(); ++j) {
                // six digits are written
                const double tol = 6e-6 * std::abs(ref[i][j]) + 1e-9 * scale;
                pbt::require(std::abs(got[i][j] - ref[i][j]) <= tol, "data line ", i, ", column ", j, ": got ", got[i][j], ", expected ", ref[i][j]);
            }
        }
        pbt::equal(got.size(), ref.size(), "number of data lines");
    }
} // namespace model
#endif
