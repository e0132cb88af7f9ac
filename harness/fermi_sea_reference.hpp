// (A_j)^dag |Fermi sea> for the operators A_0 = c_q^dag and A_j = 2 c^dag c^dag c + delta c^dag, with
// fermionic signs; the expectation value <A_i A_j^dag> is an overlap of two of these vectors.
#ifndef VERIF_FERMI_SEA_REFERENCE_HPP_
#define VERIF_FERMI_SEA_REFERENCE_HPP_
#include "momentum_gen.hpp"
namespace sea
{
    using State = std::map<std::vector<char>, double>;

    // the operators act from right to left
    template <typename Ops>
    void add_adjoint(State& out, const gen::Occupation& fs, const Ops& ops, double factor)
    {
        std::vector<char> n = fs.n;
        double sign         = factor;
        // (o_1 ... o_n)^dag = o_n^dag ... o_1^dag: o_1^dag acts first
        for(const auto& o : ops) {
            const std::size_t at = 2 * o.index1 + o.index2;
            const char after     = o.creator ? 0 : 1;
            if(n[at] == after) {
                return;
            }
            int before = 0;
            for(std::size_t i = 0; i < at; ++i) {
                before += n[i];
            }
            if(before % 2) {
                sign = -sign;
            }
            n[at] = after;
        }
        double& x = out[n];
        x += sign;
        if(x == 0.) {
            out.erase(n);
        }
    }
    template <typename Basis>
    std::vector<State> reference(const Basis& basis, const gen::Energies& e, double fermi)
    {
        const gen::Occupation fs(e, fermi);
        std::vector<State> r(basis.size());
        for(std::size_t i = 0; i < basis.size(); ++i) {
            const auto& m = basis[i];
            if(m.size() == 1) {
                add_adjoint(r[i], fs, m, 1.);
            } else {
                add_adjoint(r[i], fs, m, 2.);
                if(m[1].index1 == m[2].index1) {
                    add_adjoint(r[i], fs, std::vector<typename Basis::Monomial::Operator>{m[0]}, 1.);
                }
            }
        }
        return r;
    }
    inline double overlap(const State& a, const State& b)
    {
        double r = 0.;
        for(const auto& x : a) {
            const auto it = b.find(x.first);
            if(it != b.end()) {
                r += x.second * it->second;
            }
        }
        return r;
    }
} // namespace sea
#endif
