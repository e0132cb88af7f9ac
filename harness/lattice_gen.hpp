// sizes, spacings and sites of lattices
#ifndef VERIF_LATTICE_GEN_HPP_
#define VERIF_LATTICE_GEN_HPP_
#include "pbt.hpp"
namespace gen
{
    inline std::int64_t lattice_size(pbt::Src& s, std::int64_t lo, std::int64_t hi)
    {
        if(s.chance(1, 4)) { // sizes next to powers of two and ten
            static const std::vector<std::int64_t> e{1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096};
            const auto x = e[s.upto(e.size() - 1)];
            return x < lo ? lo : x > hi ? hi : x;
        }
        return s.sized(lo, hi);
    }
    template <typename Float>
    Float spacing(pbt::Src& s)
    {
        switch(s.weighted({4, 3, 2, 1, 1})) {
            case 0: return Float(1);
            case 1: return Float(s.range(1, 30)) / Float(10);
            case 2: return Float(s.real(0.1, 7.));
            case 3: return Float(1) / Float(3);
            default: return Float(s.real(1e-3, 1e-1));
        }
    }
    // a site, often at the border
    inline std::int64_t site(pbt::Src& s, std::int64_t n)
    {
        switch(s.weighted({4, 1, 1, 1})) {
            case 0: return s.range(0, n - 1);
            case 1: return 0;
            case 2: return n - 1;
            default: return n / 2;
        }
    }
} // namespace gen
#endif
