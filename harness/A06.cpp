// A06: symbolic prefactors form products of a number and Kronecker deltas; ordering is canonical.
#include "algebra_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/symbolic/prefactor.hpp"

namespace sym = ieompp::symbolic;
namespace alg = ieompp::algebra;
using alg::Kronecker;
using pbt::Src;

using Pair = std::pair<std::string, std::string>;
static std::multiset<Pair> deltas(const std::vector<Kronecker>& v)
{
    std::multiset<Pair> r;
    for(const auto& k : v) {
        r.insert(k.a < k.b ? Pair(k.a, k.b) : Pair(k.b, k.a));
    }
    return r;
}
static Kronecker delta(Src& s)
{
    const auto& n       = gen::names();
    const std::string a = n[s.upto(n.size() - 1)];
    const std::string b = n[s.upto(n.size() - 1)];
    return alg::make_kronecker(a, b);
}
static std::vector<Kronecker> some(Src& s, int max)
{
    std::vector<Kronecker> v;
    const auto n = static_cast<int>(gen::length(s, max, 40));
    for(int i = 0; i < n; ++i) {
        if(!v.empty() && s.chance(1, 3)) { // the same delta again, perhaps turned round
            auto k = s.pick(v);
            v.push_back(s.boolean() ? k : Kronecker{k.b, k.a});
        } else {
            v.push_back(delta(s));
        }
    }
    return v;
}
static void show(std::ostream& o, const std::vector<Kronecker>& v)
{
    for(const auto& k : v) {
        o << "d(" << k.a << "," << k.b << ")";
    }
}
static bool same(const std::vector<Kronecker>& a, const std::vector<Kronecker>& b)
{
    if(a.size() != b.size()) {
        return false;
    }
    for(std::size_t i = 0; i < a.size(); ++i) {
        if(a[i].a != b[i].a || a[i].b != b[i].b) {
            return false;
        }
    }
    return true;
}

RELATION("kronecker", 4, "the two indices differ")
{
    const Kronecker x = delta(s);
    const Kronecker y = s.boolean() ? delta(s) : s.boolean() ? x : Kronecker{x.b, x.a};
    s.describe([&](std::ostream& o) { show(o, {x, y}); });
    const bool eq = (x.a == y.a && x.b == y.b) || (x.a == y.b && x.b == y.a);
    pbt::equal(x == y, eq, "==");
    pbt::equal(x != y, !eq, "!=");
    pbt::require((x == y) == (y == x), "== is not symmetric");
    Kronecker z = x;
    z.order();
    pbt::require(z == x && z.a <= z.b, "order() does not sort the two indices of the same delta");
    Kronecker w = y;
    w.order();
    pbt::equal(z.a == w.a && z.b == w.b, eq, "ordered deltas are identical exactly if they are equal");
    s.label(eq ? "equal" : "different");
    s.nontrivial(x.a != x.b);
}

template <typename T>
void numeric_kronecker(Src& s)
{
    const auto va   = gen::Values<T>::alphabet(s);
    const T a = va[s.upto(va.size() - 1)], b = va[s.upto(va.size() - 1)];
    s.note(+a, +b);
    const Kronecker k = alg::make_kronecker(a, b), l = alg::make_kronecker(b, a);
    pbt::require(k.a == std::to_string(a) && k.b == std::to_string(b), "make_kronecker of numbers does not hold their decimal texts");
    pbt::require(k == l, "make_kronecker(a,b) != make_kronecker(b,a)");
    s.nontrivial(a != b);
}
RELATION("numeric_kronecker_int", 1, "the numbers differ") { numeric_kronecker<int>(s); }
RELATION("numeric_kronecker_u64", 1, "the numbers differ") { numeric_kronecker<std::uint64_t>(s); }

template <typename V, typename W>
void product_case(Src& s)
{
    sym::Prefactor<V> p{gen::number<V>(s), some(s, 6)};
    const sym::Prefactor<W> q{gen::number<W>(s), some(s, 6)};
    const auto extra = some(s, 4);
    const auto one   = delta(s);
    const auto num   = gen::number<W>(s);
    s.describe([&](std::ostream& o) {
        o << p.value << " ";
        show(o, p.kroneckers);
        o << " * " << q.value << " ";
        show(o, q.kroneckers);
    });
    const auto p0 = p;
    auto join     = [](std::multiset<Pair> a, const std::multiset<Pair>& b) {
        a.insert(b.begin(), b.end());
        return a;
    };
    auto near = [](V a, V b) { return std::abs(std::complex<double>(a) - std::complex<double>(b)) <= 1e-12 * std::abs(std::complex<double>(b)); };
    const auto r = p * q;
    pbt::require(near(r.value, V(p0.value * q.value)), "the value of a product");
    pbt::require(deltas(r.kroneckers) == join(deltas(p0.kroneckers), deltas(q.kroneckers)), "the deltas of a product are not those of both factors");
    pbt::require(p.value == p0.value && same(p.kroneckers, p0.kroneckers), "* changed its left operand");
    auto t  = p;
    auto& u = (t *= q);
    pbt::require(&u == &t && near(t.value, V(p0.value * q.value)) && deltas(t.kroneckers) == deltas(r.kroneckers), "*= differs from *");
    t = p;
    t *= one;
    pbt::require(t.value == p0.value && deltas(t.kroneckers) == join(deltas(p0.kroneckers), deltas({one})), "multiplying with a delta");
    t = p;
    t *= extra;
    pbt::require(t.value == p0.value && deltas(t.kroneckers) == join(deltas(p0.kroneckers), deltas(extra)), "multiplying with a list of deltas");
    t = p;
    t *= num;
    pbt::require(near(t.value, V(p0.value * num)) && deltas(t.kroneckers) == deltas(p0.kroneckers), "multiplying with a number");
    t = p;
    t *= t;
    pbt::require(near(t.value, V(p0.value * p0.value)) && deltas(t.kroneckers) == join(deltas(p0.kroneckers), deltas(p0.kroneckers)), "multiplying with itself");
    s.nontrivial(!p.kroneckers.empty() && !q.kroneckers.empty());
}
RELATION("product_double", 3, "both factors have deltas") { product_case<double, double>(s); }
RELATION("product_complex", 2, "both factors have deltas") { product_case<std::complex<double>, std::complex<double>>(s); }
RELATION("product_mixed", 2, "both factors have deltas") { product_case<std::complex<double>, double>(s); }
RELATION("product_int", 1, "both factors have deltas") { product_case<int, int>(s); }

RELATION("canonical_order", 6, "at least two deltas")
{
    sym::Prefactor<double> p{s.coeff(), some(s, 12)};
    // the same product written differently
    auto q = p;
    for(std::size_t i = q.kroneckers.size(); i > 1; --i) {
        std::swap(q.kroneckers[i - 1], q.kroneckers[s.upto(i - 1)]);
    }
    for(auto& k : q.kroneckers) {
        if(s.boolean()) {
            std::swap(k.a, k.b);
        }
    }
    s.describe([&](std::ostream& o) {
        o << p.value << " ";
        show(o, p.kroneckers);
        o << " and ";
        show(o, q.kroneckers);
    });
    const auto p0 = p;
    p.order_kroneckers();
    q.order_kroneckers();
    pbt::require(p.value == p0.value && deltas(p.kroneckers) == deltas(p0.kroneckers), "order_kroneckers changed the product");
    pbt::require(same(p.kroneckers, q.kroneckers), "two spellings of one product are ordered differently");
    for(std::size_t i = 0; i < p.kroneckers.size(); ++i) {
        const auto& k = p.kroneckers[i];
        pbt::require(k.a <= k.b, "a delta is not ordered");
        if(i > 0) {
            const auto& l = p.kroneckers[i - 1];
            pbt::require(Pair(l.a, l.b) <= Pair(k.a, k.b), "the deltas are not sorted");
        }
    }
    auto r = p;
    r.order_kroneckers();
    pbt::require(same(r.kroneckers, p.kroneckers), "ordering twice differs from ordering once");
    s.nontrivial(p.kroneckers.size() >= 2);
}

RELATION("make_prefactor", 1, "always")
{
    const double v = s.coeff();
    const auto k = delta(s), l = delta(s);
    s.note(v, k.a, k.b, l.a, l.b);
    const auto p = sym::make_prefactor(v);
    const auto q = sym::make_prefactor(v, {k, l});
    pbt::require(p.value == v && p.kroneckers.empty(), "make_prefactor(value)");
    pbt::require(q.value == v && same(q.kroneckers, {k, l}), "make_prefactor(value, deltas)");
    s.nontrivial();
}
