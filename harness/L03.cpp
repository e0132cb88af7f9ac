// L03: sites, positions and position lookup of the periodic square lattice (also rectangular).
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

using pbt::Src;
template <typename F, typename I>
void square_case(Src& s)
{
    using Lattice        = ieompp::lattices::PeriodicSquareLattice<F, I>;
    using V              = typename Lattice::Vector;
    const std::int64_t nx = gen::lattice_size(s, 1, 40), ny = s.chance(1, 3) ? nx : gen::lattice_size(s, 1, 40);
    const bool real       = s.boolean();
    const F pi            = static_cast<F>(std::acos(-1.0L));
    const F dx = gen::spacing<F>(s), dy = s.boolean() ? dx : gen::spacing<F>(s);
    Lattice c = real ? Lattice(static_cast<I>(nx), static_cast<I>(ny), dx, dy) : Lattice(static_cast<I>(nx), static_cast<I>(ny));
    const Lattice& cc = c;
    const std::int64_t N = nx * ny;
    s.note(real ? "real" : "momentum", nx, "x", ny, "dx", c.dx(), "dy", c.dy());
    const F eps = std::numeric_limits<F>::epsilon();
    const F Lx = real ? F(nx) * dx : 2 * pi, Ly = real ? F(ny) * dy : 2 * pi, x0 = real ? F(0) : -pi;
    const F ddx = Lx / F(nx), ddy = Ly / F(ny);
    auto near = [&](F a, F b, F sc) { return std::abs(a - b) <= 16 * eps * (std::abs(sc) + std::abs(x0)); };

    pbt::require(c.size() == static_cast<I>(N) && c.size_x() == static_cast<I>(nx) && c.size_y() == static_cast<I>(ny), "sizes");
    pbt::require(c.first() == I(0) && c.last() == static_cast<I>(N - 1), "first() or last()");
    pbt::require(near(c.x_length(), Lx, Lx) && near(c.y_length(), Ly, Ly) && near(c.x_min(), x0, Lx) && near(c.y_min(), x0, Ly) && near(c.dx(), ddx, Lx) && near(c.dy(), ddy, Ly), "lengths, origin or spacings");
    pbt::require(near(c.x_max(), real ? F(nx - 1) * dx : pi, Lx) && near(c.y_max(), real ? F(ny - 1) * dy : pi, Ly), "x_max or y_max");
    const auto lv = c.lattice_vectors();
    pbt::require(lv.size() == 2 && near(lv[0][0], ddx, Lx) && lv[0][1] == 0 && lv[1][0] == 0 && near(lv[1][1], ddy, Ly), "lattice vectors");

    std::int64_t k = 0;
    for(auto i : cc) {
        pbt::require(i == static_cast<I>(k), "iteration skips or repeats a site");
        ++k;
        pbt::require(k <= N, "iteration visits too many sites");
    }
    pbt::equal(k, N, "number of sites visited");
    pbt::equal(std::int64_t(c.end() - c.begin()), N, "end() - begin()");
    pbt::equal(std::int64_t(c.cend() - c.cbegin()), N, "cend() - cbegin()");

    // (x, y) <-> site is a bijection
    std::vector<bool> seen(N, false);
    for(std::int64_t x = 0; x < nx; ++x) {
        for(std::int64_t y = 0; y < ny; ++y) {
            const I i = c.index(static_cast<I>(x), static_cast<I>(y));
            pbt::require(i < static_cast<I>(N), "index(", x, ",", y, ") is no site");
            pbt::require(!seen[i], "index(", x, ",", y, ") belongs to another coordinate, too");
            seen[i] = true;
            pbt::equal(std::int64_t(c.x_index(i)), x, "x_index of index(x,y)");
            pbt::equal(std::int64_t(c.y_index(i)), y, "y_index of index(x,y)");
            const V r = c[i];
            pbt::require(near(r[0], x0 + F(x) * ddx, Lx) && near(r[1], x0 + F(y) * ddy, Ly), "position of site (", x, ",", y, ")");
            pbt::require(c(r) == i, "lookup of the position of site (", x, ",", y, ")");
        }
    }
    for(int t = 0; t < 6; ++t) {
        const std::int64_t x = gen::site(s, nx), y = gen::site(s, ny);
        const I i            = c.index(static_cast<I>(x), static_cast<I>(y));
        const std::int64_t far = s.chance(1, 8) ? 100 : 3, ix = s.range(-far, far), iy = s.range(-far, far);
        const bool exact = s.chance(1, 4);
        const F ox = exact ? F(0) : F(s.real(-0.4, 0.4)) * ddx, oy = exact ? F(0) : F(s.real(-0.4, 0.4)) * ddy;
        const V p{x0 + F(x) * ddx + F(ix) * Lx + ox, x0 + F(y) * ddy + F(iy) * Ly + oy};
        if((20 + 8 * far) * eps * Lx < F(0.05) * ddx && (20 + 8 * far) * eps * Ly < F(0.05) * ddy) {
            s.note("point", double(p[0]), double(p[1]));
            pbt::equal(std::int64_t(c(p)), std::int64_t(i), "lookup of a point near an image of site (", x, ",", y, ")");
            pbt::equal(std::int64_t(c.closest(p)), std::int64_t(i), "closest site of a point near an image of site (", x, ",", y, ")");
        }
    }
    for(int t = 0; t < 4; ++t) { // sums of positions
        const I a = static_cast<I>(gen::site(s, N)), b = static_cast<I>(gen::site(s, N)), e = static_cast<I>(gen::site(s, N));
        const V ra = c[a], rb = c[b], re = c[e];
        const V sum{ra[0] + rb[0] - re[0], ra[1] + rb[1] - re[1]};
        const std::int64_t x = ((std::int64_t(c.x_index(a)) + std::int64_t(c.x_index(b)) - std::int64_t(c.x_index(e))) % nx + nx) % nx;
        const std::int64_t y = ((std::int64_t(c.y_index(a)) + std::int64_t(c.y_index(b)) - std::int64_t(c.y_index(e))) % ny + ny) % ny;
        pbt::equal(std::int64_t(c(sum)), std::int64_t(c.index(static_cast<I>(x), static_cast<I>(y))), "lookup of the sum of positions");
    }
    s.label(nx == ny ? "square" : "rectangular");
    s.label(real ? "real space" : "momentum space");
    s.nontrivial(nx >= 2 && ny >= 2 && nx != ny);
}
#define RULE "both sides have at least two sites and differ"
RELATION("double_u64", 6, RULE) { square_case<double, std::uint64_t>(s); }
RELATION("double_int", 2, RULE) { square_case<double, int>(s); }
RELATION("float_u64", 2, RULE) { square_case<float, std::uint64_t>(s); }
RELATION("long_double_unsigned", 1, RULE) { square_case<long double, unsigned>(s); }
// lattices too large to visit: coordinates, positions and lookup only
RELATION("large", 6, "more than 65536 sites")
{
    using Lattice = ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t>;
    using V       = Lattice::Vector;
    auto side     = [&]() -> std::int64_t { return s.boolean() ? (std::int64_t(1) << s.range(2, 31)) + s.range(-2, 2) : s.sized(3, std::int64_t(1) << 31); };
    const std::int64_t nx = side(), ny = side();
    const bool real = s.boolean();
    const double dx = gen::spacing<double>(s), dy = s.boolean() ? dx : gen::spacing<double>(s);
    const auto c    = real ? Lattice(nx, ny, dx, dy) : Lattice(nx, ny);
    s.note(real ? "real" : "momentum", nx, "x", ny, "dx", c.dx(), "dy", c.dy());
    pbt::equal(std::int64_t(c.size()), nx * ny, "size");
    pbt::equal(std::int64_t(c.last()), nx * ny - 1, "last site");
    auto at = [&](std::int64_t x, std::int64_t y) { return c.index(std::uint64_t((x % nx + nx) % nx), std::uint64_t((y % ny + ny) % ny)); };
    for(int t = 0; t < 6; ++t) {
        const std::int64_t x = gen::site(s, nx), y = gen::site(s, ny), u = gen::site(s, nx), v = gen::site(s, ny), g = gen::site(s, nx), h = gen::site(s, ny);
        const auto a = at(x, y), b = at(u, v), e = at(g, h);
        pbt::require(std::int64_t(c.x_index(a)) == x && std::int64_t(c.y_index(a)) == y, "x_index or y_index of index(", x, ",", y, ")");
        const V r = c[a], q = c[b], w = c[e];
        pbt::require(std::abs(r[0] - (c.x_min() + double(x) * c.dx())) <= 1e-12 * c.x_length() && std::abs(r[1] - (c.y_min() + double(y) * c.dy())) <= 1e-12 * c.y_length(), "position of site (", x, ",", y, ")");
        pbt::equal(std::int64_t(c(r)), std::int64_t(a), "lookup of the position of site (", x, ",", y, ")");
        pbt::equal(std::int64_t(c(V{r[0] + 0.3 * c.dx(), r[1] - 0.3 * c.dy()})), std::int64_t(a), "lookup of a point near site (", x, ",", y, ")");
        pbt::equal(std::int64_t(c(V{r[0] + q[0] - w[0], r[1] - q[1] + w[1]})), std::int64_t(at(x + u - g, y - v + h)), "lookup of a combination of the sites ", a, ", ", b, " and ", e);
    }
    s.nontrivial(nx * ny > 65536);
}
