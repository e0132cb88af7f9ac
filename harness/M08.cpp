// M08: the excited Fermi sea against a table of occupation numbers.
#include "momentum_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hms = ieompp::models::hubbard_momentum_space;

template <typename I>
void history(Src& s, const gen::Energies& e, double fermi)
{
    using Op   = alg::Operator<I, bool>;
    using Mono = alg::Monomial<Op>;
    using Sea  = hms::ExcitedFermiSea<Mono>;
    const std::size_t n = e.e.size();
    s.describe([&](std::ostream& o) {
        o << "fermi " << fermi << " energies";
        for(double x : e.e) {
            o << ' ' << x;
        }
        o << "; ";
    });
    const gen::Occupation sea(e, fermi);
    gen::Occupation ref(e, fermi), kept;
    Sea state, copy;
    // zero is the default of the Fermi energy
    const bool dflt = fermi == 0. && s.boolean();
    pbt::require(state.is_initial_fermi_sea() && !state.vanishes, "a new state is not the Fermi sea");
    bool have_copy = false, sorted = true;
    int applied = 0, back = 0;
    auto draw = [&](Op& op) {
        // mostly applicable operators, often undoing an excitation
        op.creator = s.boolean();
        op.index1  = static_cast<I>(s.upto(n - 1));
        op.index2  = s.boolean();
        if(s.chance(9, 10) && !ref.vanishes) {
            op.creator = !ref.n[2 * op.index1 + op.index2];
        }
    };
    auto show = [&](const Op& op) { s.note(op.creator ? "+" : "-", op.index1, op.index2 ? "up" : "down"); };
    auto check = [&](const Sea& st, const gen::Occupation& r, bool order) {
        pbt::equal(st.vanishes, r.vanishes, "vanishes");
        if(r.vanishes) {
            pbt::require(!st.is_initial_fermi_sea(), "a vanishing state counts as the Fermi sea");
            return;
        }
        std::vector<std::tuple<I, bool>> cr, an;
        for(std::size_t k = 0; k < n; ++k) {
            for(int sp = 0; sp < 2; ++sp) {
                if(r.n[2 * k + sp] != sea.n[2 * k + sp]) {
                    (r.n[2 * k + sp] ? cr : an).emplace_back(static_cast<I>(k), sp == 1);
                }
            }
        }
        std::vector<std::tuple<I, bool>> gc(st.created_particles.begin(), st.created_particles.end()), ga(st.annihilated_particles.begin(), st.annihilated_particles.end());
        if(!order) {
            std::sort(gc.begin(), gc.end());
            std::sort(ga.begin(), ga.end());
        }
        pbt::require(gc == cr, "the created particles are wrong or unsorted");
        pbt::require(ga == an, "the annihilated particles are wrong or unsorted");
        pbt::equal(st.is_initial_fermi_sea(), cr.empty() && an.empty(), "is_initial_fermi_sea");
        back += cr.empty() && an.empty() && applied > 0;
    };
    const auto steps = s.sized(1, 25);
    for(int t = 0; t < steps; ++t) {
        switch(s.upto(5)) {
            case 0:
            case 1: {
                Op op;
                draw(op);
                show(op);
                const bool ok = dflt ? state.apply_operator(op, e) : state.apply_operator(op, e, fermi);
                ref.apply(op.creator, op.index1, op.index2);
                pbt::equal(ok, !ref.vanishes, "result of apply_operator");
                sorted = true;
                ++applied;
                break;
            }
            case 2: { // a product, applied from the right
                const auto len = s.sized(0, 6);
                std::vector<Op> ops;
                gen::Occupation save = ref;
                for(int i = 0; i < len; ++i) {
                    Op op;
                    draw(op);
                    ref.apply(op.creator, op.index1, op.index2);
                    ops.push_back(op);
                }
                (void)save;
                Mono m;
                s.note("[");
                for(auto it = ops.rbegin(); it != ops.rend(); ++it) {
                    show(*it);
                    m.push_back(*it);
                }
                s.note("]");
                const bool ok = dflt ? state.apply_monomial(m, e) : state.apply_monomial(m, e, fermi);
                pbt::equal(ok, !ref.vanishes, "result of apply_monomial");
                sorted = true;
                ++applied;
                break;
            }
            case 3: { // single particles
                Op op;
                draw(op);
                show(op);
                const bool alive = !ref.vanishes;
                ref.apply(op.creator, op.index1, op.index2);
                const std::tuple<I, bool> idx(op.index1, op.index2);
                const bool ok = op.creator ? state.create_particle(idx, e, fermi) : state.annihilate_particle(idx, e, fermi);
                pbt::equal(ok, alive && !ref.vanishes, op.creator ? "result of create_particle" : "result of annihilate_particle");
                sorted = false;
                ++applied;
                break;
            }
            case 4: { // copies are independent
                if(have_copy) {
                    check(copy, kept, false);
                    state = copy;
                    ref   = kept;
                    sorted = false;
                    s.note("restore");
                } else {
                    copy      = state;
                    kept      = ref;
                    have_copy = true;
                    s.note("save");
                }
                break;
            }
            default: {
                const std::size_t k = s.upto(n - 1);
                pbt::equal(Sea::is_initially_occupied(std::tuple<I, bool>(static_cast<I>(k), s.boolean()), e, fermi), e.e[k] < fermi, "is_initially_occupied(", k, ")");
                break;
            }
        }
        check(state, ref, sorted);
    }
    s.label(ref.vanishes ? "vanishes" : "lives");
    s.nontrivial(applied >= 2 && (!ref.vanishes || back));
}
#define RULE "at least two operators, not ending in the zero state without having returned to the Fermi sea"
RELATION("levels", 4, RULE)
{
    double fermi;
    const auto e = gen::energies(s, s.sized(1, 8), fermi);
    history<std::uint64_t>(s, e, fermi);
}
RELATION("levels_int", 1, RULE)
{
    double fermi;
    const auto e = gen::energies(s, s.chance(1, 8) ? s.range(41, 700) : s.sized(1, 40), fermi);
    history<int>(s, e, fermi);
}
RELATION("chain", 2, RULE)
{
    const auto N = s.range(1, 32);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> k(N), l(N, 1.);
    const auto d = ieompp::models::hubbard::make_dispersion(k, l, s.boolean() ? 1. : s.real(0.1, 3.));
    gen::Energies e;
    for(int i = 0; i < N; ++i) {
        e.e.push_back(d(i));
    }
    history<std::uint64_t>(s, e, s.boolean() ? 0. : s.real(-2., 2.));
}
