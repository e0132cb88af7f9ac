// P02: reading and writing sparse Eigen matrices.
#include "pbt_main.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "ieompp/io/eigen/sparse.hpp"

using pbt::Src;
namespace io = ieompp::io;
using cplx   = std::complex<double>;

// simple values, values with all digits and any exponent, stored zeros
inline void put(Src& s, double& t)
{
    switch(s.weighted({4, 3, 1})) {
        case 0: t = s.nonzero(); break;
        case 1: t = std::ldexp(s.real(-1., 1.), static_cast<int>(s.range(-900, 900))); break;
        default: t = 0.;
    }
}
inline void put(Src& s, float& t)
{
    switch(s.weighted({4, 3, 1})) {
        case 0: t = static_cast<float>(s.nonzero()); break;
        case 1: t = std::ldexp(static_cast<float>(s.real(-1., 1.)), static_cast<int>(s.range(-90, 90))); break;
        default: t = 0.f;
    }
}
inline void put(Src& s, int& t) { t = s.chance(1, 8) ? 0 : static_cast<int>(s.range(1, s.boolean() ? 1000 : 2147483647)) * (s.boolean() ? -1 : 1); }
inline void put(Src& s, cplx& t)
{
    double a, b;
    put(s, a);
    put(s, b);
    t = {a, b};
}

inline std::string noise(Src& s) // lines to be skipped
{
    static const std::vector<std::string> l = {"\n", "   \n", "# comment\n", "\t# 1 2 3\n", "#3x4\n", "\r\n"};
    std::string r;
    for(std::size_t n = s.chance(1, 3) ? s.sized(0, 4) : 0; n > 0; --n) {
        r += s.pick(l);
    }
    return r;
}
template <typename M>
using Entries = std::map<std::pair<long, long>, typename M::Scalar>;

template <typename M>
Entries<M> entries(Src& s, std::size_t rows, std::size_t cols)
{
    Entries<M> e;
    if(rows * cols > 0) {
        for(std::size_t n = s.sized(0, std::min<std::size_t>(40, rows * cols)); n > 0; --n) {
            const long i = s.upto(rows - 1), j = s.upto(cols - 1);
            put(s, e[{i, j}]);
        }
    }
    return e;
}
template <typename M>
std::size_t widest(const Entries<M>& e)
{
    std::map<long, std::size_t> n;
    std::size_t w = 0;
    for(const auto& x : e) {
        w = std::max(w, ++n[M::IsRowMajor ? x.first.first : x.first.second]);
    }
    return w;
}
template <typename M>
void compare(const M& m, const Entries<M>& e, std::size_t rows, std::size_t cols)
{
    pbt::require(std::size_t(m.rows()) == rows && std::size_t(m.cols()) == cols, "dimensions ", m.rows(), "x", m.cols());
    pbt::equal(std::size_t(m.nonZeros()), e.size(), "number of stored elements");
    for(const auto& x : e) {
        pbt::equal(m.coeff(x.first.first, x.first.second), x.second, "element ", x.first.first, ",", x.first.second);
    }
}

template <typename M>
void round_trip(Src& s)
{
    using T                = typename M::Scalar;
    const std::size_t rows = s.sized(0, s.chance(1, 4) ? 3000 : 12), cols = s.sized(0, s.chance(1, 4) ? 3000 : 12);
    const auto e = entries<M>(s, rows, cols);
    s.note(rows, "x", cols, " with ", e.size(), " elements");
    M m(rows, cols);
    for(const auto& x : e) {
        m.insert(x.first.first, x.first.second) = x.second;
    }
    if(s.boolean()) {
        m.makeCompressed();
        s.label("compressed");
    }
    std::ostringstream out;
    out.precision(17);
    io::write_matrix(out, m);
    compare<M>(m, e, rows, cols);
    // every element once
    {
        std::istringstream in(out.str());
        Entries<M> seen;
        std::string l;
        while(std::getline(in, l)) {
            std::istringstream one(l);
            long i = -1, j = -1;
            T v{};
            one >> i >> j >> v;
            pbt::require(!one.fail(), "line \"", l, "\"");
            pbt::require(seen.emplace(std::make_pair(i, j), v).second, "element ", i, ",", j, " is written twice");
        }
        pbt::require(seen == e, "wrong elements are written");
    }
    // back
    std::ostringstream head;
    const char* sp[] = {"", " ", "\t", "  "};
    const auto zeros = [&s] { return std::string(s.chance(1, 6) ? s.range(1, 3) : 0, '0'); };
    head << noise(s) << sp[s.upto(3)] << zeros() << rows << sp[s.upto(3)] << "x" << sp[s.upto(3)] << zeros() << cols << sp[s.upto(3)] << '\n'
         << noise(s) << sp[s.upto(3)] << zeros() << e.size() << sp[s.upto(3)] << '\n';
    std::string all = head.str();
    {
        std::istringstream in(out.str());
        std::string l;
        while(std::getline(in, l)) {
            all += noise(s) + l + '\n';
        }
    }
    const std::string rest = "rest of the stream";
    const bool more        = s.boolean();
    if(more) {
        all += rest + '\n';
    }
    std::istringstream in(all);
    M back(s.sized(0, 4), s.sized(0, 4));
    if(s.boolean() && back.rows() > 0 && back.cols() > 0) {
        back.insert(0, 0) = T(3);
    }
    // a guess of the elements per row or column that is right, too small or too large
    io::read_matrix(in, back, std::max<std::size_t>(1, widest<M>(e)) + s.range(0, 2) - (s.boolean() && widest<M>(e) > 1 ? 1 : 0));
    compare<M>(back, e, rows, cols);
    if(more) {
        pbt::require(io::next_line(in) == rest, "the reader consumed more than the matrix");
    }
    s.nontrivial(e.size() >= 2 && rows != cols);
}
template <typename M>
void malformed(Src& s)
{
    const std::size_t rows = s.sized(1, 12), cols = s.sized(1, 12);
    const auto e = entries<M>(s, rows, cols);
    std::vector<std::string> l;
    l.push_back(std::to_string(rows) + "x" + std::to_string(cols));
    l.push_back(std::to_string(e.size()));
    for(const auto& x : e) {
        std::ostringstream o;
        o << x.first.first << '\t' << x.first.second << '\t' << x.second;
        l.push_back(o.str());
    }
    if(s.boolean()) {
        const std::string r = std::to_string(rows), c = std::to_string(cols);
        const std::vector<std::string> bad = {r, "x", r + "x", "x" + c, r + " " + c, r + "x" + c + "x" + r, "a" + r + "x" + c, r + "x" + c + " z", r + "*" + c, "-" + r + "x" + c, r + ".5x" + c, r + "X" + c};
        l[0] = s.pick(bad);
        s.label("dimensions");
    } else {
        l.resize(s.upto(l.size() - 1));
        s.label("truncated");
    }
    std::string all = noise(s);
    for(const auto& x : l) {
        all += x + '\n' + noise(s);
    }
    s.note("\"", all, "\"");
    std::istringstream in(all);
    M m;
    bool thrown = false;
    try {
        io::read_matrix(in, m, 3);
    } catch(const io::IOException&) {
        thrown = true;
    }
    pbt::require(thrown, "no exception");
    s.nontrivial(e.size() >= 2);
}
#define RULE "at least two elements in a rectangular matrix"
RELATION("column major", 2, RULE) { round_trip<Eigen::SparseMatrix<double>>(s); }
RELATION("row major", 2, RULE) { round_trip<Eigen::SparseMatrix<double, Eigen::RowMajor>>(s); }
RELATION("complex column major", 2, RULE) { round_trip<Eigen::SparseMatrix<cplx>>(s); }
RELATION("complex row major", 2, RULE) { round_trip<Eigen::SparseMatrix<cplx, Eigen::RowMajor>>(s); }
RELATION("float", 1, RULE) { round_trip<Eigen::SparseMatrix<float>>(s); }
RELATION("integers", 1, RULE) { round_trip<Eigen::SparseMatrix<int, Eigen::RowMajor>>(s); }
RELATION("malformed input", 2, "at least two elements") { malformed<Eigen::SparseMatrix<double>>(s); }
RELATION("malformed input, row major", 1, "at least two elements") { malformed<Eigen::SparseMatrix<cplx, Eigen::RowMajor>>(s); }
