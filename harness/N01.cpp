// N01: the Runge-Kutta integrator.
#include "pbt_main.hpp"
#include <memory>
#include <omp.h>
#ifdef PBT_EIGEN
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "ieompp/types/eigen/multiply_assign.hpp"
#else
#include <blaze/Math.h>
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#endif
#include "ieompp/ode/rk4.hpp"

using pbt::Src;
using cplx = std::complex<double>;

template <typename T>
struct Real {
    using type = T;
};
template <typename T>
struct Real<std::complex<T>> {
    using type = T;
};
template <typename T>
void set(T& t, cplx v)
{
    t = static_cast<T>(v.real());
}
template <typename T>
void set(std::complex<T>& t, cplx v)
{
    t = {static_cast<T>(v.real()), static_cast<T>(v.imag())};
}

#ifdef PBT_EIGEN
template <typename T>
using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
template <typename T>
using Dense = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <typename T>
using Sparse = Eigen::SparseMatrix<T>;
template <typename T>
Dense<T> dense(std::size_t n, const std::vector<T>& m)
{
    Dense<T> r(n, n);
    for(std::size_t i = 0; i < n * n; ++i) {
        r(i / n, i % n) = m[i];
    }
    return r;
}
template <typename T>
Sparse<T> sparse(std::size_t n, const std::vector<T>& m)
{
    Sparse<T> r(n, n);
    for(std::size_t i = 0; i < n * n; ++i) {
        if(m[i] != T(0)) {
            r.insert(i / n, i % n) = m[i];
        }
    }
    return r;
}
#else
template <typename T>
using Vec = blaze::DynamicVector<T, blaze::columnVector>;
template <typename T>
using Dense = blaze::DynamicMatrix<T, blaze::rowMajor>;
template <typename T>
using Sparse = blaze::CompressedMatrix<T, blaze::rowMajor>;
template <typename T>
Dense<T> dense(std::size_t n, const std::vector<T>& m)
{
    Dense<T> r(n, n);
    for(std::size_t i = 0; i < n * n; ++i) {
        r(i / n, i % n) = m[i];
    }
    return r;
}
template <typename T>
Sparse<T> sparse(std::size_t n, const std::vector<T>& m)
{
    Sparse<T> r(n, n);
    for(std::size_t i = 0; i < n * n; ++i) {
        if(m[i] != T(0)) {
            r.insert(i / n, i % n, m[i]);
        }
    }
    return r;
}
#endif
template <typename T>
using Function = ieompp::types::FunctionMatrix<T, std::size_t>;

// One integrator with its system; the reference solution is the Taylor polynomial of fourth order
template <typename T, template <typename> class M>
struct System {
    using F = typename Real<T>::type;
    std::size_t n;
    int shift; // of the step size, and back of the matrix
    F h;
    std::vector<cplx> m;
    std::vector<cplx> ref;
    double growth = 1.; // bound of the rounding errors
    std::vector<T> values;
    M<T> matrix;
    Vec<T> u;
    ieompp::ode::RK4<F> rk4;

    static std::vector<T> draw(Src& s, std::size_t n)
    {
        std::vector<T> v(n * n);
        const bool full = s.boolean();
        if(full) {
            std::uint64_t x = s.upto(~0ull);
            for(auto& e : v) {
                const auto a = pbt::splitmix(x), b = pbt::splitmix(x);
                set(e, cplx(double(int(a % 65) - 32) / 16., double(int(b % 65) - 32) / 16.));
            }
        } else {
            const auto k = s.range(0, 2 * n);
            for(int i = 0; i < k; ++i) {
                set(v[s.upto(n * n - 1)], cplx(s.coeff(), s.coeff()));
            }
        }
        return v;
    }
    static int exponent(Src& s)
    {
        const int most = std::is_same<F, float>::value ? 25 : 90;
        return s.chance(1, 5) ? static_cast<int>(s.range(-most, most)) : 0;
    }
    static std::vector<T> scaled(std::vector<T> v, int shift)
    {
        for(auto& x : v) {
            x *= std::ldexp(F(1), shift);
        }
        return v;
    }
    static Dense<T> make(std::size_t n, const std::vector<T>& v, Dense<T>*) { return dense<T>(n, v); }
    static Sparse<T> make(std::size_t n, const std::vector<T>& v, Sparse<T>*) { return sparse<T>(n, v); }
    static Function<T> make(std::size_t n, const std::vector<T>& v, Function<T>*)
    {
        return Function<T>(n, n, [n, v](std::size_t i, std::size_t j) { return v[i * n + j]; });
    }
    System(Src& s, std::size_t dim, F step)
        : n(dim), shift(exponent(s)), h(std::ldexp(step, shift)), values(scaled(draw(s, n), -shift)), matrix(make(n, values, static_cast<M<T>*>(nullptr))), u(n), rk4(n, h)
    {
        for(const auto& x : values) {
            m.push_back(cplx(x));
        }
        const double magnitude = std::ldexp(1., exponent(s));
        for(std::size_t i = 0; i < n; ++i) {
            T t;
            set(t, s.chance(1, 3) ? cplx(0.) : cplx(s.dyadic(2), s.dyadic(2)) * magnitude);
            u[i] = t;
            ref.push_back(cplx(t));
        }
        first = u;
        norm();
    }
    // new elements for the same matrix object
    void replace(Src& s)
    {
        values = scaled(draw(s, n), -shift);
        assign(matrix, values);
        m.clear();
        for(const auto& x : values) {
            m.push_back(cplx(x));
        }
    }
    static void assign(Dense<T>& a, const std::vector<T>& v)
    {
        const std::size_t n = a.rows();
        for(std::size_t i = 0; i < v.size(); ++i) {
            a(i / n, i % n) = v[i];
        }
    }
    template <typename A>
    static void assign(A& a, const std::vector<T>& v)
    {
        a = make(a.rows(), v, static_cast<A*>(nullptr));
    }
    // the same vector as at the beginning
    Vec<T> first;
    void restart()
    {
        u = first;
        ref.clear();
        for(std::size_t i = 0; i < n; ++i) {
            ref.push_back(cplx(u[i]));
        }
        growth = 1.;
        size   = 0.;
        norm();
    }
    double size = 0.;
    void norm()
    {
        for(const auto& x : ref) {
            size = std::max(size, std::abs(x));
        }
    }
    void check(const char* what)
    {
        const double eps = std::numeric_limits<F>::epsilon();
        pbt::equal(rk4.step_size(), h, "step size");
        pbt::equal(rk4.dimension(), n, "dimension");
        pbt::equal(std::size_t(u.size()), n, "the vector changes its dimension");
        for(std::size_t i = 0; i < n; ++i) {
            const cplx got = cplx(u[i]);
            pbt::require(std::abs(got - ref[i]) <= 200. * eps * growth * size, what, ": element ", i, " is ", got, ", expected ", ref[i]);
        }
    }
    // the sum of the moduli of the terms of the Taylor polynomial
    double taylor_bound() const
    {
        double bound = 0., factor = 1., row = 0.;
        for(std::size_t i = 0; i < n; ++i) {
            double r = 0.;
            for(std::size_t j = 0; j < n; ++j) {
                r += std::abs(m[i * n + j]);
            }
            row = std::max(row, r);
        }
        const double x = row * std::abs(double(h));
        for(int k = 0; k <= 4; ++k) {
            bound += factor;
            factor *= x / (k + 1);
        }
        return bound;
    }
    // no intermediate result overflows
    bool representable() const { return std::ldexp(size, std::abs(shift)) * taylor_bound() < 1e-4 * double(std::numeric_limits<F>::max()); }
    void step()
    {
        rk4.step(matrix, u);
        const double bound = taylor_bound();
        std::vector<cplx> term = ref;
        growth *= std::max(1., bound) * 4.;
        for(int k = 1; k <= 4; ++k) {
            std::vector<cplx> next(n);
            for(std::size_t i = 0; i < n; ++i) {
                for(std::size_t j = 0; j < n; ++j) {
                    next[i] += m[i * n + j] * term[j];
                }
                next[i] *= double(h) / k;
            }
            term = next;
            for(std::size_t i = 0; i < n; ++i) {
                ref[i] += term[i];
            }
        }
        norm();
    }
};

template <typename F>
F step_size(Src& s)
{
    switch(s.weighted({3, 2, 2, 1})) {
        case 0: return F(0.125);
        case 1: return F(s.real(0.01, 1.));
        case 2: return F(1) / F(1 << s.range(0, 8));
        default: return -F(s.real(0.01, 0.5)); // backwards in time
    }
}

template <typename T, template <typename> class M>
void single(Src& s)
{
    const std::size_t n = s.chance(1, 12) ? s.chance(1, 8) ? s.range(61, 200) : s.range(13, 60) : s.sized(1, 12);
    System<T, M> sys(s, n, step_size<typename Real<T>::type>(s));
    s.note("n", n, "h", sys.h);
    const auto k = s.range(1, 4);
    for(int i = 0; i < k && sys.representable(); ++i) {
        sys.step();
        sys.check("one integrator");
        if(s.chance(1, 4)) {
            s.label("another matrix in the same place");
            sys.replace(s);
        }
        if(s.chance(1, 4)) {
            s.label("from the start again");
            sys.restart();
        }
    }
    double w = 0.;
    for(const auto& x : sys.m) {
        w += std::abs(x);
    }
    s.nontrivial(n >= 2 && w > 0. && sys.size > 0.);
}
#define RULE "at least two dimensions, non-vanishing matrix and vector"
RELATION("dense complex", 2, RULE) { single<cplx, Dense>(s); }
RELATION("sparse complex", 2, RULE) { single<cplx, Sparse>(s); }
RELATION("dense real", 1, RULE) { single<double, Dense>(s); }
RELATION("sparse float", 1, RULE) { single<std::complex<float>, Sparse>(s); }
RELATION("function complex", 2, RULE) { omp_set_num_threads(s.team()); single<cplx, Function>(s); }
RELATION("function real", 1, RULE) { omp_set_num_threads(s.team()); single<double, Function>(s); }

// histories of several integrators of different dimensions and kinds, in any order
RELATION("interleaved", 4, "steps of at least two systems of different dimensions alternate")
{
    omp_set_num_threads(1);
    std::vector<std::unique_ptr<System<cplx, Dense>>> d;
    std::vector<std::unique_ptr<System<cplx, Sparse>>> p;
    std::vector<std::unique_ptr<System<cplx, Function>>> f;
    const auto k = s.range(1, 12);
    std::vector<std::size_t> used;
    for(int i = 0; i < k; ++i) {
        const auto kind = s.upto(2);
        const bool make = s.boolean();
        auto go = [&](auto& list, auto tag) {
            using Sys = typename std::decay<decltype(*tag)>::type;
            if(make || list.empty()) {
                const auto n = s.sized(1, 8);
                list.emplace_back(new Sys(s, n, step_size<double>(s)));
            }
            auto& sys = *list[s.upto(list.size() - 1)];
            if(sys.growth < 1e6 && sys.representable()) {
                sys.step();
                used.push_back(sys.n);
            }
        };
        kind == 0 ? go(d, (System<cplx, Dense>*)nullptr) : kind == 1 ? go(p, (System<cplx, Sparse>*)nullptr) : go(f, (System<cplx, Function>*)nullptr);
        for(auto& x : d) { x->check("interleaved"); }
        for(auto& x : p) { x->check("interleaved"); }
        for(auto& x : f) { x->check("interleaved"); }
    }
    for(auto x : used) {
        s.note(x);
    }
    std::size_t changes = 0;
    for(std::size_t i = 1; i < used.size(); ++i) {
        changes += used[i] != used[i - 1];
    }
    s.nontrivial(changes >= 2);
}
