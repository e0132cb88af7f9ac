// T01: lists of matrix elements.
#include "pbt_main.hpp"
#include "ieompp/types/triplet.hpp"

using pbt::Src;
namespace types = ieompp::types;

template <typename T>
T value(Src& s);
template <>
double value<double>(Src& s)
{
    return s.dyadic(2, 8);
}
template <>
std::complex<double> value<std::complex<double>>(Src& s)
{
    const double re = s.dyadic(1, 4);
    return {re, s.dyadic(1, 4)};
}
template <>
std::int64_t value<std::int64_t>(Src& s)
{
    return s.range(-3, 3);
}

// values comparable to the tolerance: multiples of an eighth of the machine epsilon, whose sums are exact
const double fine = std::numeric_limits<double>::epsilon() / 8;
template <typename T>
T scaled(T v, double)
{
    return v;
}
template <>
double scaled<double>(double v, double f)
{
    return v * f;
}
template <>
std::complex<double> scaled<std::complex<double>>(std::complex<double> v, double f)
{
    return v * f;
}

template <typename T>
bool below(const T&)
{
    return false;
}
bool below(double v)
{
    return std::abs(v) < 8 * fine;
}
bool below(const std::complex<double>& v)
{
    return below(v.real()) && below(v.imag());
}

template <typename T, typename I>
void triplets(Src& s)
{
    const bool small    = !std::is_integral<T>::value && s.chance(1, 4);
    const double factor = small ? 8 * fine * (s.boolean() ? 1 : 1. / 4) : 1.;
    if(small) s.note("factor ", factor);
    using List   = types::TripletList<T, I>;
    const bool many = s.chance(1, 100);
    const auto n    = s.sized(0, many ? 3000 : s.chance(1, 25) ? 400 : 40);
    const auto k    = many ? s.range(1, 3000) : s.range(1, 12);
    const I row     = static_cast<I>(s.range(0, 100));
    const auto last = std::numeric_limits<I>::max();
    List l;
    for(int i = 0; i < n; ++i) {
        I c = static_cast<I>(s.range(0, k - 1));
        if(s.chance(1, 20)) {
            c = static_cast<I>(s.boolean() ? s.range(0, 1 << 30) : last - s.range(0, k - 1));
        }
        T v       = scaled<T>(value<T>(s), factor);
        if(!l.empty() && s.chance(1, 5)) { // an element that cancels an earlier one
            const auto& o = l[s.upto(l.size() - 1)];
            l.emplace_back(row, o.column, -o.value);
        } else {
            l.emplace_back(row, c, v);
        }
        s.note(l.back().column, ":", l.back().value);
    }
    const List before(l);
    std::map<I, T> sum;
    std::map<I, std::multiset<std::string>> parts;
    auto text = [](const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); };
    for(const auto& t : l) {
        sum[t.column] += t.value;
        parts[t.column].insert(text(t.value));
    }
    l.sort();
    pbt::equal(l.size(), before.size(), "sorting changes the number of elements");
    std::map<I, std::multiset<std::string>> sorted;
    bool unique = true;
    for(std::size_t i = 0; i < l.size(); ++i) {
        pbt::require(l[i].row == row, "sorting changes the row");
        pbt::require(i == 0 || l[i - 1].column <= l[i].column, "not sorted at ", i);
        unique = unique && (i == 0 || l[i - 1].column != l[i].column);
        sorted[l[i].column].insert(text(l[i].value));
    }
    pbt::require(sorted == parts, "sorting changes the elements");
    pbt::equal(l.has_unique_columns(), unique, "has_unique_columns");
    const List copy(l);
    const List u = copy.make_columns_unique();
    pbt::require(copy.size() == l.size(), "make_columns_unique changes the list");
    pbt::require(u.has_unique_columns(), "columns of the reduced list are not unique");
    std::size_t kept = 0, tiny = 0; // tiny: smaller than the machine epsilon, may be left out
    for(const auto& kv : sum) {
        kept += kv.second != T(0);
        tiny += kv.second != T(0) && below(kv.second);
    }
    for(std::size_t i = 0; i < u.size(); ++i) {
        pbt::require(u[i].row == row && (i == 0 || u[i - 1].column < u[i].column), "order of the reduced list");
        const auto it = sum.find(u[i].column);
        pbt::require(it != sum.end(), "unknown column ", u[i].column);
        pbt::equal(u[i].value, it->second, "sum of column ", u[i].column);
    }
    std::size_t kept_tiny = 0;
    for(const auto& e : u) {
        pbt::require(e.value != T(0), "vanishing element in column ", e.column);
        kept_tiny += below(e.value);
    }
    pbt::equal(u.size() - kept_tiny, kept - tiny, "number of non-vanishing columns");
    s.label(n == 0 ? "empty" : kept < sum.size() ? "cancellation" : "no cancellation");
    s.nontrivial(!unique && kept < sum.size() && kept > 0);
}
// one repeated column anywhere in a long ascending list
RELATION("long lists", 1, "one of at least a hundred columns occurs twice")
{
    types::TripletList<double, std::uint64_t> l;
    const auto n    = s.chance(1, 10) ? s.range(100, 100000) : s.range(2, 2000);
    const auto at   = s.boolean() ? s.range(1, n - 1) : -1;
    const auto step = s.range(1, 5);
    s.note(n, "elements, repeated at", at);
    std::uint64_t c = s.upto(1000);
    for(std::int64_t i = 0; i < n; ++i) {
        c += i == at ? 0 : step;
        l.emplace_back(7, c, 1.);
    }
    pbt::equal(l.has_unique_columns(), at < 0, "has_unique_columns");
    const auto u = l.make_columns_unique();
    pbt::equal(std::int64_t(u.size()), at < 0 ? n : n - 1, "number of columns");
    for(std::int64_t i = 0, j = 0; i < std::int64_t(u.size()); ++i, ++j) {
        pbt::require(u[i].column == l[j].column && u[i].value == (i + 1 == at ? 2. : 1.), "element ", i, " of the reduced list");
        j += i + 1 == at;
    }
    pbt::require(u.has_unique_columns(), "columns of the reduced list are not unique");
    s.nontrivial(at >= 0 && n >= 100);
}
// columns count, whatever the rows are
RELATION("columns of different rows", 1, "elements of different rows share a column")
{
    types::TripletList<double, std::uint64_t> l;
    const auto n = s.sized(0, 20);
    std::multiset<std::string> before, after;
    const auto text = [](std::uint64_t r, std::uint64_t c, double v) { return std::to_string(r) + " " + std::to_string(c) + " " + std::to_string(v); };
    std::map<std::uint64_t, std::set<std::uint64_t>> rows;
    for(int i = 0; i < n; ++i) {
        const std::uint64_t r = s.range(0, 4), c = s.range(0, 9);
        const double v        = s.dyadic(2, 8);
        l.emplace_back(r, c, v);
        before.insert(text(r, c, v));
        rows[c].insert(r);
        s.note(r, c, v);
    }
    bool adjacent = false;
    for(std::size_t i = 1; i < l.size(); ++i) {
        adjacent = adjacent || l[i].column == l[i - 1].column;
    }
    if(adjacent || rows.size() == l.size()) { // a column that is repeated later on may go unnoticed before sorting
        pbt::equal(l.has_unique_columns(), !adjacent, "has_unique_columns of the unsorted list");
    }
    l.sort();
    for(std::size_t i = 0; i < l.size(); ++i) {
        pbt::require(i == 0 || l[i - 1].column <= l[i].column, "not sorted at ", i);
        after.insert(text(l[i].row, l[i].column, l[i].value));
    }
    pbt::require(before == after, "sorting changes the elements");
    pbt::equal(l.has_unique_columns(), rows.size() == l.size(), "has_unique_columns of the sorted list");
    s.nontrivial(std::any_of(rows.begin(), rows.end(), [](const auto& r) { return r.second.size() > 1; }));
}
#define RULE "a column occurs repeatedly, one column cancels and another does not"
RELATION("double", 3, RULE) { triplets<double, std::uint64_t>(s); }
RELATION("complex", 2, RULE) { triplets<std::complex<double>, std::size_t>(s); }
RELATION("integer", 1, RULE) { triplets<std::int64_t, int>(s); }
