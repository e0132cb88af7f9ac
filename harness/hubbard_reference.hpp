// Rows of the Heisenberg equations of motion of the Hubbard model, computed by normal-ordered
// expansion of commutators.  H = -J sum_<ab>,s (c+_as c_bs + h.c.) + U sum_j n_jup n_jdown
#ifndef VERIF_HUBBARD_REFERENCE_HPP_
#define VERIF_HUBBARD_REFERENCE_HPP_
#include "wick.hpp"
#include <array>
#include <map>
namespace hubbard_ref
{
    using Row = std::map<std::size_t, double>;
    using wick::Green;
    using wick::Op;
    using wick::Product;

    inline std::size_t column3(std::size_t n, std::size_t a, std::size_t b, std::size_t c) { return n + (a * n + b) * n + c; }

    // adds coefficient * (normal-ordered product of the uncontracted operators) for all partial
    // contractions of `p`; only c+_up and c+_up c+_down c_down are kept
    inline void expand(const Product& p, double coefficient, const Green& g, std::size_t n, Row& row, Product rest = {}, std::size_t from = 0)
    {
        if(coefficient == 0.) {
            return;
        }
        if(from == p.size()) {
            // `rest` is normal ordered: its operators anticommute
            std::array<int, 4> count{{0, 0, 0, 0}};
            for(const auto& o : rest) {
                ++count[2 * o.creator + o.spin];
            }
            if(rest.size() == 1 && count[3] == 1) {
                row[rest[0].site] += coefficient;
            } else if(rest.size() == 3 && count[3] == 1 && count[2] == 1 && count[0] == 1) {
                std::array<int, 3> rank;
                std::array<std::size_t, 3> site;
                for(std::size_t i = 0; i < 3; ++i) {
                    rank[i]       = rest[i].creator ? (rest[i].spin ? 0 : 1) : 2;
                    site[rank[i]] = rest[i].site;
                }
                const bool odd = ((rank[0] > rank[1]) + (rank[0] > rank[2]) + (rank[1] > rank[2])) % 2;
                row[column3(n, site[0], site[1], site[2])] += odd ? -coefficient : coefficient;
            }
            return;
        }
        // the operator `from` stays uncontracted
        {
            Product r = rest;
            r.push_back(p[from]);
            expand(p, coefficient, g, n, row, r, from + 1);
        }
        // or is contracted with a later one: moving that one next to it passes k - from - 1
        // operators; moving the pair to the front passes an even number
        for(std::size_t k = from + 1; k < p.size(); ++k) {
            const double c = wick::pair(p[from], p[k], g);
            if(c == 0.) {
                continue;
            }
            Product q;
            for(std::size_t i = 0; i < p.size(); ++i) {
                if(i != from && i != k) {
                    q.push_back(p[i]);
                }
            }
            expand(q, ((k - from - 1) % 2 ? -1. : 1.) * c * coefficient, g, n, row, rest, from);
        }
    }

    template <typename Neighbors>
    Row interaction_and_hopping(std::size_t n, const wick::Sum& a, double J, double U, const Neighbors& neighbors, const Green& g)
    {
        Row row;
        for(const auto& t : a) {
            // hopping replaces one operator after the other
            for(std::size_t i = 0; i < t.second.size(); ++i) {
                for(const auto b : neighbors(t.second[i].site)) {
                    Product p = t.second;
                    p[i].site = b;
                    expand(p, t.first * (t.second[i].creator ? -J : J), g, n, row);
                }
            }
            std::vector<std::size_t> sites;
            for(const auto& o : t.second) {
                if(std::find(sites.begin(), sites.end(), o.site) == sites.end()) {
                    sites.push_back(o.site);
                }
            }
            for(const auto j : sites) {
                Product p{{true, j, true}, {false, j, true}, {true, j, false}, {false, j, false}};
                const Product nn = p;
                p.insert(p.end(), t.second.begin(), t.second.end());
                expand(p, U * t.first, g, n, row);
                Product q = t.second;
                q.insert(q.end(), nn.begin(), nn.end());
                expand(q, -U * t.first, g, n, row);
            }
        }
        return row;
    }
} // namespace hubbard_ref
#endif
