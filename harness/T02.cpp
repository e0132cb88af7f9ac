// T02: comparison and complex helpers for numbers.
#include "pbt_main.hpp"
#include "ieompp/types/number.hpp"

using pbt::Src;
namespace types = ieompp::types;

// a number; mostly small
template <typename F>
F number(Src& s)
{
    switch(s.weighted({3, 2, 2, 1, 1})) {
        case 0: return F(s.real(-2., 2.));
        case 1: return F(0);
        case 2: return F(s.dyadic(4));
        case 3: return F(s.real(-1e-3, 1e-3));
        default: return F(s.real(-1e6, 1e6));
    }
}
// differences well below / above the tolerance; `inside` tells which
template <typename F>
F deviation(Src& s, F dev, bool& inside)
{
    const F eps = std::numeric_limits<F>::epsilon();
    inside      = s.boolean();
    F d         = 0;
    if(inside) {
        d = s.chance(1, 3) ? F(0) : F(s.real(0., 0.9)) * (dev + eps);
    } else {
        d = (dev + eps) * F(s.chance(1, 2) ? s.real(1.2, 3.) : std::pow(10., s.real(1., 8.)));
    }
    return s.boolean() ? d : -d;
}

template <typename F>
void floats(Src& s)
{
    using C        = std::complex<F>;
    const bool d   = s.boolean();
    const F dev    = d ? F(std::pow(10., s.real(-12., 2.))) : F(0);
    bool in1, in2;
    const F x = deviation<F>(s, dev, in1), y = deviation<F>(s, dev, in2);
    s.note("dev", dev, "x", x, "y", y);
    const C z(x, y);
    // zero
    pbt::equal(d ? types::IsZero(x, dev) : types::IsZero(x), in1, "IsZero of a real number");
    pbt::equal(d ? types::IsZero(z, dev) : types::IsZero(z), in1 && in2, "IsZero of a complex number");
    // equality: base + difference, where the difference is exact enough
    const F a = number<F>(s), b = number<F>(s);
    const F a2 = a + x, b2 = b + y;
    const F eps = std::numeric_limits<F>::epsilon();
    auto clear = [&](F u, F v, bool& in) { // recompute on which side of the tolerance the rounded difference lies
        const F r = std::abs(u - v), t = dev + eps;
        in        = r < t;
        return r < F(0.95) * t || r > F(1.05) * t;
    };
    bool e1, e2;
    if(clear(a, a2, e1)) {
        pbt::equal(d ? types::IsEqual(a, a2, dev) : types::IsEqual(a, a2), e1, "IsEqual(", a, ",", a2, ")");
        pbt::equal(d ? types::IsEqual(a2, a, dev) : types::IsEqual(a2, a), e1, "IsEqual is not symmetric");
        if(clear(b, b2, e2)) {
            const C p(a, b), q(a2, b2);
            pbt::equal(d ? types::IsEqual(p, q, dev) : types::IsEqual(p, q), e1 && e2, "IsEqual(", p, ",", q, ")");
            pbt::equal(d ? types::IsEqual(q, p, dev) : types::IsEqual(q, p), e1 && e2, "IsEqual is not symmetric");
            s.nontrivial(e1 != e2);
        }
    }
    pbt::require(types::IsEqual(a, a) && types::IsEqual(C(a, b), C(a, b)), "IsEqual is not reflexive");
    // a deviation as large as the tolerance is too large
    const F edge = dev + eps, below = std::nextafter(edge, F(0));
    pbt::require(d ? !types::IsZero(edge, dev) && types::IsZero(below, dev) : !types::IsZero(edge) && types::IsZero(below), "IsZero at the tolerance");
    pbt::require(d ? !types::IsEqual(edge, F(0), dev) && types::IsEqual(F(0), -below, dev) : !types::IsEqual(F(0), edge) && types::IsEqual(-below, F(0)), "IsEqual at the tolerance");
    const F nan = std::numeric_limits<F>::quiet_NaN();
    pbt::require(!types::IsEqual(a, nan) && !types::IsZero(nan) && !types::IsZero(C(F(0), nan)) && !types::IsZero(C(nan, F(0))), "not a number");
}
RELATION("double", 3, "one part is equal, the other is not") { floats<double>(s); }
RELATION("float", 2, "one part is equal, the other is not") { floats<float>(s); }
RELATION("long double", 1, "one part is equal, the other is not") { floats<long double>(s); }

template <typename I>
void integers(Src& s)
{
    // any number, a small one, or a multiple of a power of two
    auto any = [&]() { return static_cast<I>(s.chance(1, 3) ? s.upto(~0ull) << (s.boolean() ? s.range(0, 63) : 0) : s.range(0, 3)); };
    const I a = any(), b = s.chance(1, 3) ? a : s.chance(1, 6) ? static_cast<I>(std::uint64_t(a) ^ (1ull << s.range(0, 63))) : any();
    s.note(+a, +b);
    pbt::equal(types::IsEqual(a, b), a == b, "IsEqual");
    pbt::equal(types::IsZero(a), a == 0, "IsZero");
    pbt::equal(types::conjugate(a), a, "conjugate");
    s.nontrivial(a != b && a != 0);
}
RELATION("integers", 2, "two different numbers")
{
    switch(s.upto(4)) {
        case 0: integers<int>(s); break;
        case 1: integers<std::uint64_t>(s); break;
        case 2: integers<std::int64_t>(s); break;
        case 3: integers<std::uint8_t>(s); break;
        default: integers<std::int16_t>(s); break;
    }
}

template <typename F>
void products(Src& s)
{
    using C = std::complex<F>;
    const F ar = number<F>(s), ai = number<F>(s), br = number<F>(s), bi = number<F>(s);
    const C a(ar, ai), b(br, bi);
    s.note(a, b);
    const C ca = types::conjugate(a);
    pbt::require(ca.real() == ar && ca.imag() == -ai, "conjugate of ", a, ": ", ca);
    pbt::require(types::conjugate(ca) == a, "conjugating twice");
    pbt::equal(types::conjugate(ar), ar, "conjugate of a real number");
    const F eps   = std::numeric_limits<F>::epsilon() * 8;
    const F scale = (std::abs(ar) + std::abs(ai)) * (std::abs(br) + std::abs(bi));
    const C p     = types::multiply_with_conjugate(a, b);
    pbt::require(std::abs(p.real() - (ar * br + ai * bi)) <= eps * scale && std::abs(p.imag() - (ai * br - ar * bi)) <= eps * scale, "a conj(b): ", p);
    const F q = types::add_conjugate_products(a, b);
    pbt::require(std::abs(q - F(2) * (ar * br + ai * bi)) <= 2 * eps * scale, "a conj(b) + conj(a) b: ", q);
    static_assert(types::IsComplex<C>::value && !types::IsComplex<F>::value, "");
    static_assert(std::is_same<typename types::RealType<C>::Type, F>::value && std::is_same<typename types::RealType<F>::Type, F>::value, "");
    s.nontrivial(ar != 0 && ai != 0 && br != 0 && bi != 0);
}
RELATION("products", 3, "no part vanishes") { s.boolean() ? products<double>(s) : products<float>(s); }
