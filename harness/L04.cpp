// L04: neighbourhood and distances of the periodic square lattice.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

using pbt::Src;
template <typename F, typename I>
void square_case(Src& s)
{
    using Lattice         = ieompp::lattices::PeriodicSquareLattice<F, I>;
    const std::int64_t nx = gen::lattice_size(s, 1, 40), ny = s.chance(1, 3) ? nx : gen::lattice_size(s, 1, 40);
    const bool real       = s.boolean();
    const Lattice c       = real ? Lattice(static_cast<I>(nx), static_cast<I>(ny), gen::spacing<F>(s), gen::spacing<F>(s)) : Lattice(static_cast<I>(nx), static_cast<I>(ny));
    s.note(real ? "real" : "momentum", nx, "x", ny);
    auto mod = [](std::int64_t x, std::int64_t n) { return ((x % n) + n) % n; };
    auto at  = [&](std::int64_t x, std::int64_t y) { return c.index(static_cast<I>(mod(x, nx)), static_cast<I>(mod(y, ny))); };
    for(std::int64_t x = 0; x < nx; ++x) {
        for(std::int64_t y = 0; y < ny; ++y) {
            const I i    = at(x, y);
            const auto n = c.neighbors(i);
            std::multiset<I> got(n.begin(), n.end()), want{at(x - 1, y), at(x + 1, y), at(x, y - 1), at(x, y + 1)};
            pbt::require(got == want, "the neighbours of site (", x, ",", y, ")");
            const auto u = c.unique_neighbors(i);
            std::multiset<I> gu(u.begin(), u.end()), wu{at(x + 1, y), at(x, y + 1)};
            pbt::require(gu == wu, "the unique neighbours of site (", x, ",", y, ")");
        }
    }
    for(int t = 0; t < 16; ++t) {
        const std::int64_t x = gen::site(s, nx), y = gen::site(s, ny);
        const bool close = s.chance(1, 2);
        const std::int64_t u = close ? mod(x + s.range(-2, 2), nx) : gen::site(s, nx), v = close ? mod(y + s.range(-2, 2), ny) : gen::site(s, ny);
        const I a = at(x, y), b = at(u, v), m = at(gen::site(s, nx), gen::site(s, ny));
        s.note("(", x, y, ")-(", u, v, ")");
        const std::int64_t dx = c.lattice_distance_x(a, b), dy = c.lattice_distance_y(a, b);
        pbt::equal(dx, std::min(mod(x - u, nx), mod(u - x, nx)), "lattice_distance_x");
        pbt::equal(dy, std::min(mod(y - v, ny), mod(v - y, ny)), "lattice_distance_y");
        pbt::equal(std::int64_t(c.lattice_distance_x(b, a)), dx, "lattice_distance_x is not symmetric");
        pbt::equal(std::int64_t(c.lattice_distance_y(b, a)), dy, "lattice_distance_y is not symmetric");
        pbt::require(std::int64_t(c.lattice_distance_x(a, m)) + std::int64_t(c.lattice_distance_x(m, b)) >= dx && std::int64_t(c.lattice_distance_y(a, m)) + std::int64_t(c.lattice_distance_y(m, b)) >= dy, "triangle inequality");
        if(a != b) {
            const auto n = c.neighbors(a);
            const bool is = std::find(n.begin(), n.end(), b) != n.end();
            pbt::equal(c.neighboring(a, b), is, "neighboring");
            pbt::equal(c.neighboring(b, a), is, "neighboring (reversed)");
            pbt::equal(dx + dy == 1, is, "distance one and neighboring");
        }
    }
    s.label(nx == ny ? "square" : "rectangular");
    s.nontrivial(nx >= 2 && ny >= 2 && nx != ny);
}
#define RULE "both sides have at least two sites and differ"
RELATION("double_u64", 4, RULE) { square_case<double, std::uint64_t>(s); }
RELATION("double_int", 2, RULE) { square_case<double, int>(s); }
RELATION("float_unsigned", 1, RULE) { square_case<float, unsigned>(s); }
template <typename I>
void large_case(Src& s)
{
    using Lattice  = ieompp::lattices::PeriodicSquareLattice<double, I>;
    const int bits = sizeof(I) == 8 ? 31 : 14; // sums of two sites can be represented
    auto side      = [&]() -> std::int64_t { return s.boolean() ? (std::int64_t(1) << s.range(3, bits)) + s.range(-2, 2) : s.sized(3, std::int64_t(1) << bits); };
    const std::int64_t nx = side(), ny = side();
    const Lattice c       = s.boolean() ? Lattice(static_cast<I>(nx), static_cast<I>(ny), 1., 1.) : Lattice(static_cast<I>(nx), static_cast<I>(ny));
    s.note(nx, "x", ny);
    auto mod = [](std::int64_t x, std::int64_t n) { return ((x % n) + n) % n; };
    auto at  = [&](std::int64_t x, std::int64_t y) { return c.index(static_cast<I>(mod(x, nx)), static_cast<I>(mod(y, ny))); };
    for(int t = 0; t < 6; ++t) {
        const std::int64_t x = gen::site(s, nx), y = gen::site(s, ny);
        const bool close = s.chance(1, 2);
        const std::int64_t u = close ? mod(x + s.range(-2, 2), nx) : gen::site(s, nx), v = close ? mod(y + s.range(-2, 2), ny) : gen::site(s, ny);
        const I a = at(x, y), b = at(u, v);
        s.note("(", x, y, ")-(", u, v, ")");
        pbt::require(std::int64_t(c.x_index(a)) == x && std::int64_t(c.y_index(a)) == y, "x_index or y_index of index(", x, ",", y, ")");
        const auto n = c.neighbors(a);
        const std::multiset<I> got(n.begin(), n.end()), want{at(x - 1, y), at(x + 1, y), at(x, y - 1), at(x, y + 1)};
        pbt::require(got == want, "the neighbours of site (", x, ",", y, ")");
        const auto q = c.unique_neighbors(a);
        const std::multiset<I> gu(q.begin(), q.end()), wu{at(x + 1, y), at(x, y + 1)};
        pbt::require(gu == wu, "the unique neighbours of site (", x, ",", y, ")");
        pbt::equal(std::int64_t(c.lattice_distance_x(a, b)), std::min(mod(x - u, nx), mod(u - x, nx)), "lattice_distance_x");
        pbt::equal(std::int64_t(c.lattice_distance_y(a, b)), std::min(mod(y - v, ny), mod(v - y, ny)), "lattice_distance_y");
        if(a != b) {
            pbt::equal(c.neighboring(a, b), want.count(b) > 0, "neighboring");
        }
    }
    s.nontrivial(nx * ny > 65536);
}
RELATION("large_u64", 6, "more than 65536 sites") { large_case<std::uint64_t>(s); }
RELATION("large_int", 4, "more than 65536 sites") { large_case<int>(s); }
