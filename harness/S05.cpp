// S05: the commutators printed by the programs hold under every assignment of the symbols.
#include "fock.hpp"
#include "pbt_main.hpp"
#include "programs.hpp"

using pbt::Src;

struct Symbolic {
    bool creator;
    std::string index;
    bool spin;
};
using Product = std::vector<Symbolic>;
struct Term {
    double factor;
    std::vector<std::pair<std::string, std::string>> deltas;
    Product ops;
};
std::string trim(const std::string& s)
{
    const auto a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// the text in the braces after position `at`
std::string braces(const std::string& l, std::size_t& at)
{
    const auto a = l.find('{', at), b = l.find('}', at);
    pbt::require(a != std::string::npos && b != std::string::npos && a < b, "line \"", l, "\"");
    at = b + 1;
    return l.substr(a + 1, b - a - 1);
}
Term parse(const std::string& l)
{
    static const std::string dot = u8"⋅", delta = u8"δ", dagger = u8"†", up = u8"↑", down = u8"↓";
    Term t;
    const auto mid = l.find(dot);
    pbt::require(mid != std::string::npos, "line \"", l, "\"");
    std::string pre = l.substr(0, mid), number;
    for(std::size_t i = 0; i < pre.size();) {
        if(pre.compare(i, delta.size() + 1, delta + "_") == 0) {
            const std::string b = braces(pre, i);
            const auto comma    = b.rfind(',');
            pbt::require(comma != std::string::npos, "line \"", l, "\"");
            t.deltas.emplace_back(b.substr(0, comma), b.substr(comma + 1));
        } else {
            number += pre[i++];
        }
    }
    number   = trim(number);
    t.factor = number.empty() ? 1. : number == "-" ? -1. : std::strtod(number.c_str(), nullptr);
    std::size_t i = mid + dot.size();
    while((i = l.find('c', i)) != std::string::npos) {
        const auto open = l.find('{', i);
        const auto dag  = l.find(dagger, i);
        Symbolic o;
        o.creator           = dag != std::string::npos && dag < open;
        const std::string b = braces(l, i);
        const auto comma    = b.rfind(',');
        pbt::require(comma != std::string::npos, "line \"", l, "\"");
        const std::string sp = b.substr(comma + 1);
        pbt::require(sp == up || sp == down, "line \"", l, "\"");
        o.index = b.substr(0, comma);
        o.spin  = sp == up;
        t.ops.push_back(o);
    }
    return t;
}
using Assignment = std::map<std::string, unsigned>;
fock::Product assign(Assignment& v, Src& s, double f, const Product& p)
{
    fock::Product r{f, {}};
    for(const auto& o : p) {
        if(!v.count(o.index)) {
            v[o.index] = s.upto(2);
        }
        r.ops.push_back({o.creator, 2 * v[o.index] + o.spin});
    }
    return r;
}
struct Claim {
    std::vector<Product> hamiltonian;
    Product operators;
};
void check(Src& s, const std::string& program, const std::vector<Claim>& claims)
{
    programs::Scratch dir;
    programs::Environment env;
    env.threads  = s.range(1, 4);
    const auto r = programs::run(dir, program, {}, env);
    programs::succeeds(r, program);
    std::vector<std::vector<Term>> sections;
    bool open = false;
    for(const auto& l : programs::lines(r.out)) {
        const bool term = l.compare(0, 2, "\t\t") == 0;
        if(term && !open) {
            sections.emplace_back();
        }
        open = term;
        if(term) {
            sections.back().push_back(parse(l));
        }
    }
    pbt::equal(sections.size(), claims.size(), "number of lists of terms");
    bool some = false;
    for(int round = 0; round < 12; ++round) {
        const std::size_t i = s.upto(claims.size() - 1);
        Assignment v;
        fock::Sum h, got;
        for(const auto& p : claims[i].hamiltonian) {
            h.push_back(assign(v, s, 1., p));
        }
        const auto ref = fock::commutator(h, {assign(v, s, 1., claims[i].operators)});
        for(const auto& t : sections[i]) {
            for(const auto& d : t.deltas) {
                pbt::require(v.count(d.first) && v.count(d.second), "unknown symbol in ", d.first, ",", d.second);
            }
            if(std::all_of(t.deltas.begin(), t.deltas.end(), [&](const std::pair<std::string, std::string>& d) { return v[d.first] == v[d.second]; })) {
                for(const auto& o : t.ops) {
                    pbt::require(v.count(o.index), "unknown symbol ", o.index);
                }
                got.push_back(assign(v, s, t.factor, t.ops));
            }
        }
        s.describe([&](std::ostream& o) {
            o << "list " << i;
            for(const auto& x : v) {
                o << ' ' << x.first << "=" << x.second;
            }
            o << "; ";
        });
        std::uint64_t where;
        fock::cplx a, b;
        pbt::require(fock::same(got, ref, 6, 1e-9, where, a, b), "list ", i, " differs from the commutator in state ", where, ": ", a, ", expected ", b);
        some = some || !fock::vanishes(ref, 6);
    }
    s.nontrivial(some);
}
Symbolic c(const char* i, bool spin) { return {false, i, spin}; }
Symbolic cd(const char* i, bool spin) { return {true, i, spin}; }
#define RULE "one of the commutators does not vanish"
RELATION("real space", 1, RULE)
{
    const char *a = "r_i", *b = u8"r_i+δ_j";
    const std::vector<Product> hop{{cd(a, true), c(b, true)}, {cd(b, true), c(a, true)}, {cd(a, false), c(b, false)}, {cd(b, false), c(a, false)}};
    const std::vector<Product> interaction{{cd(a, true), c(a, true), cd(a, false), c(a, false)}};
    const Product one{cd(u8"ρ", true)}, three{cd(u8"ρ_1", true), cd(u8"ρ_2", false), c(u8"ρ_3", false)};
    check(s, "hubbard_commutators_real_space", {{hop, one}, {interaction, one}, {hop, three}, {interaction, three}});
}
RELATION("momentum space", 1, RULE)
{
    const std::vector<Product> hop{{cd("k", true), c("k", true)}, {cd("k", false), c("k", false)}};
    const std::vector<Product> interaction{{cd("k_1", true), c("k_2", true), cd("k_3", false), c("k_4", false)}};
    const Product one{cd("q", true)}, three{cd("q_1", true), cd("q_2", false), c("q_3", false)};
    check(s, "hubbard_commutators_momentum_space", {{hop, one}, {interaction, one}, {hop, three}, {interaction, three}});
}
