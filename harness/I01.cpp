// I01: IntegerIterator obeys the laws of a random access iterator over consecutive integers.
#include "pbt_main.hpp"
#include <limits>
#include "ieompp/iterators/integer_iterator.hpp"

using ieompp::iterators::IntegerIterator;

// a history of iterator operations against a plain integer
template <typename T, bool C>
void history(pbt::Src& s)
{
    using It = IntegerIterator<T, C>;
    using D  = typename It::difference_type;
    const bool wide  = sizeof(T) == 8 && s.chance(1, 3);
    std::int64_t ref = wide && s.boolean() ? s.range(0, std::int64_t(1) << 60) : s.weighted({3, 1}) ? s.range(1000, 2000000) : s.range(0, 300);
    It it(static_cast<T>(ref));
    It other(static_cast<T>(7));
    std::int64_t oref = 7;
    s.note("start", ref);
    const auto steps = s.sized(1, 30);
    auto check       = [&](const char* what) {
        pbt::equal(+*it, +static_cast<T>(ref), what);
        pbt::equal(+*other, +static_cast<T>(oref), what, " changed another iterator");
    };
    bool back = false;
    for(int i = 0; i < steps; ++i) {
        const std::int64_t far = wide && s.chance(1, 3) ? std::int64_t(1) << s.range(30, 55) : 40;
        const std::int64_t d = std::is_signed<T>::value ? s.range(-far, far) : s.range(0, far);
        const D dd           = static_cast<D>(d);
        const bool down_ok   = std::is_signed<T>::value || ref >= d;
        switch(s.upto(13)) {
            case 0: {
                It& r = ++it;
                ++ref;
                pbt::require(&r == &it, "++it does not return the iterator");
                s.note("++it");
                break;
            }
            case 1: {
                if(ref > 0) {
                    It& r = --it;
                    --ref;
                    pbt::require(&r == &it, "--it does not return the iterator");
                    s.note("--it");
                    back = true;
                }
                break;
            }
            case 2: {
                It o = it++;
                pbt::equal(+*o, +static_cast<T>(ref), "value of it++");
                ++ref;
                s.note("it++");
                break;
            }
            case 3: {
                if(ref > 0) {
                    It o = it--;
                    pbt::equal(+*o, +static_cast<T>(ref), "value of it--");
                    --ref;
                    s.note("it--");
                    back = true;
                }
                break;
            }
            case 4: {
                s.note("+=", d);
                It& r = (it += dd);
                ref += d;
                pbt::require(&r == &it, "+= does not return the iterator");
                break;
            }
            case 5: {
                if(down_ok) {
                    s.note("-=", d);
                    It& r = (it -= dd);
                    ref -= d;
                    back = true;
                    pbt::require(&r == &it, "-= does not return the iterator");
                }
                break;
            }
            case 6: {
                s.note("+", d);
                It o = it + dd;
                pbt::equal(+*o, +static_cast<T>(ref + d), "it + n");
                pbt::require((dd + it) == o, "n + it");
                break;
            }
            case 7: {
                if(down_ok) {
                    s.note("-", d);
                    It o = it - dd;
                    pbt::equal(+*o, +static_cast<T>(ref - d), "it - n");
                }
                break;
            }
            case 8: pbt::equal(+it[dd], +static_cast<T>(ref + d), "it[n]"); break;
            case 9: {
                It o = it;
                pbt::require(o == it && !(o != it), "a copy differs");
                other = it;
                oref  = ref;
                s.note("other=it");
                break;
            }
            case 10: {
                it.swap(other);
                std::swap(ref, oref);
                s.note("swap");
                break;
            }
            case 11: {
                pbt::require((it == other) == (ref == oref), "==");
                pbt::require((it != other) == (ref != oref), "!=");
                pbt::require((it < other) == (ref < oref), "<");
                pbt::require((it > other) == (ref > oref), ">");
                pbt::require((it <= other) == (ref <= oref), "<=");
                pbt::require((it >= other) == (ref >= oref), ">=");
                s.note("compare with", oref);
                break;
            }
            case 12: {
                const bool up = ref >= oref;
                const D diff  = up ? it - other : other - it;
                pbt::equal(std::int64_t(diff), up ? ref - oref : oref - ref, "difference of iterators");
                pbt::require((up ? other + diff : it + diff) == (up ? it : other), "a + (b - a) != b");
                s.note("distance");
                break;
            }
            default: {
                // a range visits every integer once, in order
                const auto n = static_cast<T>(s.sized(0, 60));
                It b(static_cast<T>(ref)), e(static_cast<T>(ref + n));
                std::int64_t expect = ref;
                for(; b != e; ++b, ++expect) {
                    pbt::equal(+*b, +static_cast<T>(expect), "range iteration");
                    pbt::require(expect <= ref + std::int64_t(n), "range iteration does not end");
                }
                pbt::equal(expect, ref + std::int64_t(n), "number of integers visited");
                s.note("range", +n);
            }
        }
        check("after the step: the iterator");
    }
    s.nontrivial(steps >= 3 && back);
}
#define RULE "at least three operations, one of them moving backwards"
RELATION("uint64_mutable", 2, RULE) { history<std::uint64_t, false>(s); }
RELATION("uint64_const", 2, RULE) { history<std::uint64_t, true>(s); }
RELATION("int_const", 2, RULE) { history<int, true>(s); }
RELATION("int_mutable", 2, RULE) { history<int, false>(s); }
RELATION("long_const", 1, RULE) { history<long, true>(s); }
RELATION("unsigned_mutable", 1, RULE) { history<unsigned, false>(s); }
