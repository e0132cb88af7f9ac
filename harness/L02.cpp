// L02: neighbourhood and distance of the periodic chain.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/lattices/periodic_chain.hpp"

using pbt::Src;
template <typename F, typename I>
void chain_case(Src& s)
{
    using Chain          = ieompp::lattices::PeriodicChain<F, I>;
    const std::int64_t N = gen::lattice_size(s, 1, 600);
    const bool real      = s.boolean();
    const Chain c        = real ? Chain(static_cast<I>(N), gen::spacing<F>(s)) : Chain(static_cast<I>(N));
    s.note(real ? "real" : "momentum", "N", N);
    auto mod = [&](std::int64_t x) { return ((x % N) + N) % N; };
    std::vector<int> hops(N, 0);
    for(std::int64_t i = 0; i < N; ++i) {
        const auto n = c.neighbors(static_cast<I>(i));
        pbt::require((std::int64_t(n[0]) == mod(i - 1) && std::int64_t(n[1]) == mod(i + 1)) || (std::int64_t(n[1]) == mod(i - 1) && std::int64_t(n[0]) == mod(i + 1)),
                     "the neighbours of site ", i, " are ", n[0], " and ", n[1]);
        const auto u = c.unique_neighbors(static_cast<I>(i));
        pbt::equal(std::int64_t(u[0]), mod(i + 1), "unique neighbour");
    }
    for(int t = 0; t < 12; ++t) {
        const std::int64_t a = gen::site(s, N), b = s.chance(1, 3) ? mod(a + s.range(-2, 2)) : gen::site(s, N), m = gen::site(s, N);
        s.note(a, b);
        const I ia = static_cast<I>(a), ib = static_cast<I>(b), im = static_cast<I>(m);
        const auto n = c.neighbors(ia);
        pbt::equal(c.neighboring(ia, ib), n[0] == ib || n[1] == ib, "neighboring(", a, ",", b, ")");
        pbt::equal(c.neighboring(ib, ia), c.neighboring(ia, ib), "neighboring is not symmetric");
        const std::int64_t d = c.lattice_distance(ia, ib);
        // number of hops along the ring
        pbt::equal(d, std::min(mod(a - b), mod(b - a)), "lattice_distance(", a, ",", b, ")");
        pbt::equal(d, std::int64_t(c.lattice_distance(ib, ia)), "lattice_distance is not symmetric");
        pbt::require((d == 0) == (a == b), "distance zero");
        pbt::require(std::int64_t(c.lattice_distance(ia, im)) + std::int64_t(c.lattice_distance(im, ib)) >= d, "triangle inequality");
        if(N >= 3) {
            pbt::equal(d == 1, c.neighboring(ia, ib), "distance one and neighboring");
        }
    }
    s.nontrivial(N >= 3);
}
#define RULE "at least three sites"
RELATION("double_u64", 4, RULE) { chain_case<double, std::uint64_t>(s); }
RELATION("double_int", 2, RULE) { chain_case<double, int>(s); }
RELATION("float_unsigned", 2, RULE) { chain_case<float, unsigned>(s); }
RELATION("double_long", 1, RULE) { chain_case<double, long>(s); }
template <typename I>
void large_case(Src& s)
{
    using Chain             = ieompp::lattices::PeriodicChain<double, I>;
    const std::int64_t most = sizeof(I) == 8 ? (std::int64_t(1) << 45) : 500000000; // sums of two sites can be represented
    const std::int64_t base = std::int64_t(1) << s.range(4, sizeof(I) == 8 ? 44 : 28);
    const std::int64_t N    = s.boolean() ? base + s.range(-2, 2) : s.sized(3, most);
    const Chain c           = s.boolean() ? Chain(static_cast<I>(N), 1.) : Chain(static_cast<I>(N));
    s.note("N", N);
    auto mod = [&](std::int64_t x) { return ((x % N) + N) % N; };
    for(int t = 0; t < 6; ++t) {
        const std::int64_t a = gen::site(s, N), b = s.chance(1, 3) ? mod(a + s.range(-2, 2)) : gen::site(s, N);
        s.note(a, b);
        const I ia = static_cast<I>(a), ib = static_cast<I>(b);
        const auto n = c.neighbors(ia);
        const std::set<std::int64_t> got{std::int64_t(n[0]), std::int64_t(n[1])}, want{mod(a - 1), mod(a + 1)};
        pbt::require(got == want, "the neighbours of site ", a);
        pbt::equal(std::int64_t(c.unique_neighbors(ia)[0]), mod(a + 1), "unique neighbour");
        pbt::equal(c.neighboring(ia, ib), want.count(b) == 1, "neighboring(", a, ",", b, ")");
        pbt::equal(std::int64_t(c.lattice_distance(ia, ib)), std::min(mod(a - b), mod(b - a)), "lattice_distance(", a, ",", b, ")");
    }
    s.nontrivial(N > 65536);
}
RELATION("large_u64", 6, "more than 65536 sites") { large_case<std::uint64_t>(s); }
RELATION("large_int", 4, "more than 65536 sites") { large_case<int>(s); }
