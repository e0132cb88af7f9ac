// S03: measurement times, initial vector, checkpoints and cleaned output files.
#include "pbt_main.hpp"
#include "programs.hpp"
#include "include/common.hpp"
#include "include/rk4.hpp"
#include "include/vector.hpp"

using pbt::Src;
using C = std::complex<double>;

void loggers()
{
    if(!get_loggers().main) {
        get_loggers().init("/dev/null");
    }
}
// the loop of the programs: the time is a rounded sum
template <typename F>
void interval(Src& s, F dt, F start, std::uint64_t steps)
{
    const std::uint64_t interval = s.sized(0, 1000);
    F t             = start;
    std::uint64_t n = 0;
    auto advance    = [&](std::uint64_t k) {
        for(; k > 0; --k, ++n) {
            t += dt;
        }
    };
    advance(s.sized(0, steps));
    const F last           = t;
    const std::uint64_t at = n;
    s.note("dt", dt, "interval", interval, "last", last);
    bool yes = false, no = false;
    for(int i = 0; i < 6; ++i) {
        const std::uint64_t passed = n - at;
        const bool ref             = passed > 0 && passed >= interval;
        pbt::equal(has_time_interval_passed(t, last, dt, interval), ref, passed, " steps after the last measurement");
        if(passed > 0) {
            pbt::equal(has_time_interval_passed(last, t, dt, interval), false, "before the last measurement");
        }
        (ref ? yes : no) = true;
        advance(n == at && interval > 1 && s.boolean() ? interval - 1 : s.range(0, 3));
    }
    s.nontrivial(yes && no);
}
#define RULE "the interval has passed for some times and not for others"
RELATION("time interval", 4, RULE)
{
    const double dt = s.boolean() ? 1. / (1 << s.range(0, 12)) : s.boolean() ? std::pow(10., -s.range(0, 5)) * s.range(1, 9) : s.real(1e-6, 10.);
    // a run that was resumed starts late; 1000 rounded sums stay far from half a step
    const double start = s.chance(1, 3) ? dt * std::ldexp(s.unit(), static_cast<int>(s.range(0, 38))) : 0.;
    interval<double>(s, dt, start, start > 0. ? 100 : 20000);
}
RELATION("time interval, single precision", 1, RULE)
{
    const float dt    = s.boolean() ? 0.01f : static_cast<float>(s.real(1e-3, 10.));
    const float start = s.boolean() ? dt * std::ldexp(static_cast<float>(s.unit()), static_cast<int>(s.range(0, 11))) : 0.f;
    interval<float>(s, dt, start, 100);
}
RELATION("long interval", 1, "more than 2^32 steps")
{
    const double dt         = std::ldexp(1., -static_cast<int>(s.range(0, 20)));
    const std::uint64_t n   = s.upto(std::uint64_t(1) << s.range(10, 50)) + 1;
    const std::uint64_t d   = s.upto(std::min<std::uint64_t>(n, std::uint64_t(1) << s.range(0, 50)));
    const double last       = s.range(0, 4) * dt, t = last + n * dt;
    s.note(n, "steps of", dt, "after", last);
    pbt::equal(has_time_interval_passed(t, last, dt, n), true, "exactly the interval");
    pbt::equal(has_time_interval_passed(t, last, dt, n - d), true, d, " steps more than the interval");
    pbt::equal(has_time_interval_passed(t, last, dt, n + 1 + d), false, d + 1, " steps less than the interval");
    s.nontrivial(n > (std::uint64_t(1) << 32));
}
struct Sized {
    std::size_t n;
    std::size_t size() const { return n; }
};
RELATION("initial vector", 1, "at least two elements")
{
    loggers();
    const Sized basis{static_cast<std::size_t>(s.sized(1, 5000))};
    s.note(basis.n);
    const auto v = init_vector(basis);
    pbt::equal(v.size(), basis.n, "size");
    for(std::size_t i = 0; i < v.size(); ++i) {
        pbt::equal(v[i], C(i == 0 ? 1. : 0.), "element ", i);
    }
    const double dt = s.coeff();
    const auto rk4  = init_rk4(basis.n, dt);
    pbt::equal(rk4.step_size(), dt, "step size");
    s.nontrivial(basis.n >= 2);
}
RELATION("checkpoints", 2, "at least two checkpoints")
{
    loggers();
    programs::Scratch dir;
    struct Saved {
        std::string path;
        blaze::DynamicVector<C> v;
        double t;
    };
    std::vector<Saved> all;
    std::set<std::string> seen;
    const auto count = s.range(1, 5);
    for(int i = 0; i < count; ++i) {
        Saved x;
        x.v.resize(s.sized(0, 60));
        for(auto& e : x.v) {
            e = s.ccoeff();
        }
        x.t = s.boolean() ? s.range(0, 100) / 8. : s.chance(1, 4) ? double(s.upto(std::uint64_t(1) << s.range(1, 52))) : s.real(0., 100.);
        if(!all.empty() && s.chance(1, 3)) { // files of an earlier run are replaced
            const auto& p = all.back().path;
            const auto at = p.rfind("run_checkpoint_") + 15;
            const std::string next = p.substr(0, at) + std::to_string(std::strtoull(p.c_str() + at, nullptr, 10) + 1);
            std::ofstream((next + ".info").c_str()) << "12345.678\nold";
            std::ofstream((next + ".blaze").c_str()) << std::string(s.sized(0, 3000), 'x');
            s.label("existing files");
        }
        write_checkpoint_file(dir / "run_checkpoint_", x.v, x.t);
        // one new pair of files, numbered consecutively
        std::vector<std::string> fresh;
        if(DIR* d = opendir(dir.path().c_str())) {
            while(const dirent* e = readdir(d)) {
                const std::string n = e->d_name;
                if(n.size() > 6 && n.substr(n.size() - 6) == ".blaze" && seen.insert(n).second) {
                    fresh.push_back(n);
                }
            }
            closedir(d);
        }
        pbt::equal(fresh.size(), std::size_t(1), "number of new checkpoint files");
        x.path = dir / fresh[0];
        s.note(fresh[0].substr(0, 15), x.v.size(), x.t);
        const std::string prefix = "run_checkpoint_";
        pbt::require(fresh[0].compare(0, prefix.size(), prefix) == 0, "checkpoint file ", fresh[0]);
        if(!all.empty()) {
            auto number = [&](const std::string& p) { return std::strtoull(p.c_str() + dir.path().size() + 1 + prefix.size(), nullptr, 10); };
            pbt::equal(number(x.path), number(all.back().path) + 1, "number of the checkpoint");
        }
        all.push_back(x);
    }
    for(std::size_t i = 0; i < all.size(); ++i) {
        const auto& x = all[s.boolean() ? i : s.upto(all.size() - 1)];
        blaze::DynamicVector<C> v(s.sized(0, 4));
        read_checkpoint_file(x.path, v);
        pbt::equal(v.size(), x.v.size(), "size of the checkpoint");
        for(std::size_t j = 0; j < v.size(); ++j) {
            pbt::equal(v[j], x.v[j], "element ", j);
        }
        const auto info = programs::table(programs::content(x.path.substr(0, x.path.rfind('.')) + ".info"));
        pbt::require(info.size() == 1 && info[0].size() == 1, "info file");
        pbt::require(std::abs(info[0][0] - x.t) <= 1e-5 * x.t, "time ", info[0][0], " instead of ", x.t);
    }
    s.nontrivial(count >= 2);
}
RELATION("cleaned output file", 3, "the file holds more entries than are kept, and comments")
{
    loggers();
    programs::Scratch dir;
    const std::string path = dir / "out.txt";
    std::vector<std::string> lines;
    std::uint64_t entries = 0;
    bool comments = false;
    for(std::size_t n = s.chance(1, 10) ? s.range(41, 3000) : s.sized(0, 40); n > 0; --n) {
        static const std::vector<std::string> other = {"# comment", "", "#\tN = 4", "   ", "#"};
        if(s.chance(1, 3)) {
            lines.push_back(s.pick(other));
            comments = true;
        } else {
            lines.push_back(programs::text(s.coeff()) + "\t" + programs::text(s.coeff()));
            ++entries;
        }
    }
    const std::uint64_t keep = s.chance(3, 4) ? s.upto(entries) : entries + s.range(1, 5);
    s.note(lines.size(), "lines with", entries, "entries, keep", keep);
    const bool last_newline = s.boolean();
    {
        std::ofstream f(path.c_str());
        for(std::size_t i = 0; i < lines.size(); ++i) {
            f << lines[i];
            if(i + 1 < lines.size() || last_newline) {
                f << '\n';
            }
        }
    }
    clean_output_file(path, keep);
    // the lines up to the last entry to keep; trailing comments and blank lines may stay
    const auto got = programs::lines(programs::content(path));
    std::size_t needed = 0;
    for(std::uint64_t k = 0; needed < lines.size() && k < keep; ++needed) {
        k += !(lines[needed].find_first_not_of(' ') == std::string::npos || lines[needed][0] == '#');
    }
    auto strip = [](std::vector<std::string> v) {
        while(!v.empty() && v.back().empty()) {
            v.pop_back();
        }
        return v;
    };
    const auto a = strip(got), b = strip({lines.begin(), lines.begin() + needed});
    pbt::require(a.size() >= b.size(), "only ", a.size(), " lines are left instead of ", b.size());
    for(std::size_t i = 0; i < a.size(); ++i) {
        if(i < b.size()) {
            pbt::require(a[i] == b[i], "line ", i, " is \"", a[i], "\" instead of \"", b[i], "\"");
        } else {
            pbt::require(a[i].find_first_not_of(' ') == std::string::npos || a[i][0] == '#', "line ", i, " is kept: \"", a[i], "\"");
        }
    }
    s.nontrivial(keep < entries && comments);
}
RELATION("matrix file", 1, "at least two elements")
{
    loggers();
    programs::Scratch dir;
    const std::size_t m = s.sized(0, 20), n = s.sized(0, 20);
    blaze::CompressedMatrix<C, blaze::rowMajor> a(m, n);
    std::map<std::pair<std::size_t, std::size_t>, C> ref;
    if(m * n > 0) {
        for(std::size_t k = s.sized(0, 30); k > 0; --k) {
            const std::size_t i = s.upto(m - 1), j = s.upto(n - 1);
            ref[{i, j}] = s.ccoeff();
        }
    }
    for(const auto& x : ref) {
        a.set(x.first.first, x.first.second, x.second);
    }
    s.note(m, "x", n, ref.size(), "elements");
    if(s.chance(1, 3)) { // the file of an earlier run is replaced
        if(s.boolean()) {
            blaze::CompressedMatrix<C, blaze::rowMajor> old(s.range(1, 9), s.range(1, 9));
            old.set(0, 0, s.ccoeff());
            write_matrix_file(dir / "m.blaze", old);
        } else {
            std::ofstream((dir / "m.blaze").c_str()) << std::string(s.sized(0, 9000), 'x');
        }
        s.label("existing file");
    }
    write_matrix_file(dir / "m.blaze", a);
    blaze::CompressedMatrix<C, blaze::rowMajor> b;
    std::ifstream strm((dir / "m.blaze").c_str(), std::ifstream::binary);
    blaze::Archive<std::ifstream> archive(strm);
    archive >> b;
    pbt::require(b.rows() == m && b.columns() == n, "dimensions");
    std::size_t stored = 0;
    for(std::size_t i = 0; i < m; ++i) {
        for(auto it = b.begin(i); it != b.end(i); ++it, ++stored) {
            const auto x = ref.find({i, it->index()});
            pbt::require(x != ref.end() && x->second == it->value(), "element ", i, ",", it->index());
        }
    }
    pbt::equal(stored, ref.size(), "number of elements");
    s.nontrivial(ref.size() >= 2);
}
