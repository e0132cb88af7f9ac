// S01: command line options and response files.
#include "pbt_main.hpp"
#include "programs.hpp"
#include "include/cli.hpp"
#include <memory>

using pbt::Src;
using programs::text;
namespace po = boost::program_options;

// ---- in process: any set of options
struct Option {
    std::string name;
    int type; // 0 integer, 1 real, 2 string
    bool has_default;
    std::string given, fallback;
};
std::string word(Src& s)
{
    static const std::string alphabet = "abcXYZ019._-/ =#()+:,";
    std::string r(1, alphabet[s.upto(8)]);
    for(std::size_t n = s.sized(0, 20); n > 0; --n) {
        r += alphabet[s.upto(alphabet.size() - 1)];
    }
    return r[r.size() - 1] == ' ' ? r + "." : r;
}
std::string value(Src& s, int type)
{
    switch(type) {
        case 0: return std::to_string(s.sized(0, s.boolean() ? 100 : 1ll << 40));
        case 1: {
            std::ostringstream o;
            o.precision(s.boolean() ? 17 : 4);
            o << s.coeff();
            return o.str();
        }
        default: return word(s);
    }
}
std::vector<Option> options(Src& s)
{
    std::vector<Option> r;
    static const std::vector<std::string> stems = {"N", "J", "dt", "t_end", "filling_factor", "interval", "out", "kx", "my-option"};
    const std::size_t n = s.sized(1, stems.size());
    for(std::size_t i = 0; i < n; ++i) {
        Option o;
        o.name        = stems[(i + n) % stems.size()];
        o.type        = s.range(0, 2);
        o.has_default = s.chance(3, 4);
        o.fallback    = value(s, o.type);
        r.push_back(o);
    }
    return r;
}
po::options_description description(const std::vector<Option>& all)
{
    po::options_description d;
    d.add_options()("help", "help");
    for(const auto& o : all) {
        switch(o.type) {
            case 0: d.add_options()(o.name.c_str(), o.has_default ? make_value<std::uint64_t>(std::strtoull(o.fallback.c_str(), nullptr, 10)) : make_value<std::uint64_t>(), "an integer"); break;
            case 1: d.add_options()(o.name.c_str(), o.has_default ? make_value<double>(std::strtod(o.fallback.c_str(), nullptr)) : make_value<double>(), "a real"); break;
            default: d.add_options()(o.name.c_str(), o.has_default ? make_value<std::string>(o.fallback) : make_value<std::string>(), "a string");
        }
    }
    return d;
}
bool same_value(const Option& o, const std::string& a, const std::string& b)
{
    switch(o.type) {
        case 0: return std::strtoull(a.c_str(), nullptr, 10) == std::strtoull(b.c_str(), nullptr, 10);
        case 1: return std::strtod(a.c_str(), nullptr) == std::strtod(b.c_str(), nullptr);
        default: return a == b;
    }
}
void holds(const VariablesMap& vm, const Option& o, const std::string& v)
{
    pbt::require(vm.count(o.name) == 1, "no variable ", o.name);
    switch(o.type) {
        case 0: pbt::equal(vm[o.name].as<std::uint64_t>(), std::uint64_t(std::strtoull(v.c_str(), nullptr, 10)), "variable ", o.name); break;
        case 1: pbt::equal(vm[o.name].as<double>(), std::strtod(v.c_str(), nullptr), "variable ", o.name); break;
        default: pbt::require(vm[o.name].as<std::string>() == v, "variable ", o.name, " is \"", vm[o.name].as<std::string>(), "\" instead of \"", v, "\"");
    }
}
using List = std::vector<std::pair<std::string, std::string>>;
List parse(const std::vector<std::string>& args, const po::options_description& d, VariablesMap& vm)
{
    std::vector<std::string> a = args;
    a.insert(a.begin(), "program");
    std::vector<char*> argv;
    for(auto& x : a) {
        argv.push_back(&x[0]);
    }
    argv.push_back(nullptr);
    return parse_command_line_options(static_cast<int>(a.size()), argv.data(), d, vm);
}

RELATION("options", 20, "options are given, left to their default and missing")
{
    if(!get_loggers().main) {
        get_loggers().init("/dev/null");
    }
    auto all = options(s);
    List given;
    bool g = false, d = false;
    for(auto& o : all) {
        if(s.boolean()) {
            o.given = value(s, o.type);
            given.emplace_back(o.name, o.given);
        }
        g = g || !o.given.empty();
        d = d || (o.given.empty() && o.has_default);
    }
    auto args = programs::arguments(s, given);
    if(s.chance(1, 5)) {
        args.push_back("--help");
    }
    s.describe([&](std::ostream& o) {
        for(const auto& a : args) {
            o << a << ' ';
        }
        o << "; defaults";
        for(const auto& x : all) {
            if(x.has_default) {
                o << ' ' << x.name << '=' << x.fallback;
            }
        }
    });
    const auto desc = description(all);
    VariablesMap vm;
    const auto list = parse(args, desc, vm);
    std::size_t expected = 0;
    for(const auto& o : all) {
        const bool any = !o.given.empty() || o.has_default;
        expected += any;
        const auto count = std::count_if(list.begin(), list.end(), [&](const List::value_type& x) { return x.first == o.name; });
        pbt::equal(count, any ? 1 : 0, "number of values of ", o.name);
        if(!any) {
            pbt::equal(vm.count(o.name), std::size_t(0), "variables ", o.name);
            continue;
        }
        const auto it = std::find_if(list.begin(), list.end(), [&](const List::value_type& x) { return x.first == o.name; });
        const std::string& v = o.given.empty() ? o.fallback : o.given;
        pbt::require(same_value(o, it->second, v), "option ", o.name, " is listed as \"", it->second, "\" instead of \"", v, "\"");
        holds(vm, o, v);
    }
    pbt::equal(list.size(), expected, "number of options");
    // written to a response file and read back, with other options on the command line
    programs::Scratch dir;
    const std::string file = dir / "a.rsp";
    {
        std::ofstream f(file.c_str());
        const bool last_newline = !s.chance(1, 3);
        for(std::size_t i = 0; i < list.size(); ++i) {
            f << "--" << list[i].first << '=' << list[i].second;
            if(i + 1 < list.size() || last_newline) {
                f << '\n';
            }
        }
    }
    List over;
    std::map<std::string, std::string> now;
    for(const auto& o : all) {
        if(s.chance(1, 4)) {
            now[o.name] = value(s, o.type);
            over.emplace_back(o.name, now[o.name]);
        }
    }
    VariablesMap back;
    parse(programs::arguments(s, over), desc, back);
    read_response_file(file, back, desc);
    for(const auto& o : all) {
        if(now.count(o.name)) {
            holds(back, o, now[o.name]);
        } else if(!o.given.empty() || o.has_default) {
            holds(back, o, o.given.empty() ? o.fallback : o.given);
        } else {
            pbt::equal(back.count(o.name), std::size_t(0), "variables ", o.name);
        }
    }
    s.nontrivial(g && d);
}

// ---- with the programs
using Parameters = std::map<std::string, std::string>;
Parameters parameters(Src& s)
{
    Parameters p;
    p["N"]     = std::to_string(s.range(3, 20));
    p["dt"]    = s.boolean() ? text(1. / (1 << s.range(4, 8))) : text(s.real(1e-3, 5e-2));
    p["t_end"] = text((s.range(0, 12) - 0.5) * std::strtod(p["dt"].c_str(), nullptr));
    if(s.chance(3, 4)) {
        p["measurement_interval"] = std::to_string(s.range(0, 4));
    }
    if(s.boolean()) {
        p["J"] = s.boolean() ? text(s.range(-8, 8) / 4.) : text(s.real(-2., 2.));
    }
    return p;
}
struct Run {
    programs::Result result;
    std::string file;
};
Run launch(Src& s, const programs::Scratch& dir, const std::string& program, const Parameters& p)
{
    programs::Environment env;
    env.threads = s.range(1, 4);
    env.login   = !s.chance(1, 8);
    const auto args = programs::arguments(s, {p.begin(), p.end()});
    for(const auto& a : args) {
        s.note(a);
    }
    s.note("|");
    Run r{programs::run(dir, program, args, env), ""};
    r.file = programs::content(dir / p.at("out"));
    return r;
}
std::string program(Src& s) { return s.boolean() ? "hubbard_real_1d_kinetic_rk4" : "hubbard_real_1d_kinetic_rk4_coefficients"; }
void repeats(const Run& a, const Run& b)
{
    const auto x = programs::table(a.file), y = programs::table(b.file);
    pbt::equal(x.size(), y.size(), "number of data lines");
    for(std::size_t i = 0; i < x.size(); ++i) {
        pbt::equal(x[i].size(), y[i].size(), "number of columns");
        for(std::size_t j = 0; j < x[i].size(); ++j) {
            pbt::require(std::abs(x[i][j] - y[i][j]) <= 1e-5 * std::abs(x[i][j]) + 1e-9, "data line ", i, ", column ", j, ": ", y[i][j], " instead of ", x[i][j]);
        }
    }
}
std::string stem(const std::string& out)
{
    const auto slash = out.rfind('/'), dot = out.rfind('.');
    return dot == std::string::npos || (slash != std::string::npos && dot < slash) ? out : out.substr(0, dot);
}
// does the text name the option and its value?
bool mentions(const std::vector<std::string>& lines, const std::string& key, const std::string& value)
{
    return std::any_of(lines.begin(), lines.end(), [&](const std::string& l) {
        if(l.empty() || l[0] != '#') {
            return false;
        }
        std::istringstream i(l.substr(1));
        std::string a, b;
        return (i >> a) && a == key && (i >> b) && (b != "=" || (i >> b)) && b == value;
    });
}
RELATION("response file", 1, "a run with several measurements is repeated from its response file")
{
    const auto prog = program(s);
    auto p          = parameters(s);
    static const std::vector<std::string> outs = {"a.txt", "b", "sub/c.txt", "sub.d/e", "x.y.dat"};
    p["out"] = s.pick(outs);
    for(const char* k : {"N", "dt"}) { // many digits
        if(s.chance(1, 12)) {
            p[k] = std::string(s.range(1, 500), '0') + p[k];
        }
    }
    if(s.chance(1, 4)) { // a long path
        std::string way;
        for(auto k = s.range(20, 600); k > 0; --k) {
            way += "./";
        }
        p["out"] = way + p["out"];
    }
    programs::Scratch dir;
    mkdir((dir / "sub").c_str(), 0700);
    mkdir((dir / "sub.d").c_str(), 0700);
    if(s.chance(1, 3)) { // files of an earlier run are replaced
        const std::string old = "--N=3\n--J=77\n--N=4\n# old\n1\t2\n" + std::string(s.sized(0, 3000), '7') + "\n";
        std::ofstream((dir / p["out"]).c_str()) << old;
        std::ofstream((dir / (stem(p["out"]) + ".rsp")).c_str()) << old;
        s.label("existing files");
    }
    const auto first = launch(s, dir, prog, p);
    programs::succeeds(first.result, prog);
    const std::string rsp = stem(p["out"]) + ".rsp";
    pbt::require(programs::exists(dir / rsp), "no response file ", rsp);
    pbt::require(programs::exists(dir / (stem(p["out"]) + ".log")), "no log file ", stem(p["out"]), ".log");
    const auto header = programs::lines(first.file);
    const auto lines  = programs::lines(programs::content(dir / rsp));
    for(const auto& l : lines) {
        pbt::require(l.compare(0, 6, "--J=77") != 0 && l.compare(0, 1, "7") != 0, "the response file keeps old lines");
    }
    for(const auto& l : header) {
        pbt::require(l != "# old" && l.compare(0, 3, "777") != 0, "the output keeps old lines");
    }
    for(const auto& o : p) {
        const std::string l = "--" + o.first + "=" + o.second;
        pbt::equal(std::count(lines.begin(), lines.end(), l), 1, "lines ", l, " in the response file");
        pbt::require(mentions(header, o.first, o.second), "the output does not name the option ", o.first, " = ", o.second);
    }
    // again, with some options from the command line
    Parameters q;
    q["response_file"] = rsp;
    q["out"]           = "again.txt";
    const auto second  = launch(s, dir, prog, q);
    programs::succeeds(second.result, prog);
    repeats(first, second);
    const auto other = parameters(s);
    auto all         = p;
    Parameters some  = q;
    for(const char* k : {"J", "measurement_interval", "N"}) {
        if(other.count(k) && s.boolean()) {
            all[k] = some[k] = other.at(k);
        }
    }
    some["out"] = "third.txt";
    all["out"]  = "fourth.txt";
    const auto third = launch(s, dir, prog, some), fourth = launch(s, dir, prog, all);
    programs::succeeds(third.result, prog);
    programs::succeeds(fourth.result, prog);
    repeats(fourth, third);
    s.nontrivial(programs::table(first.file).size() >= 3);
}
RELATION("unusable options", 1, "always")
{
    const auto prog = program(s);
    auto p          = parameters(s);
    p["out"]        = "a.txt";
    static const std::vector<std::pair<std::string, std::string>> bad = {{"response_file", "missing.rsp"}, {"unknown", "1"}, {"N", "x"}, {"dt", "1s"}, {"response_file", "bad.rsp"}, {"t_end", "1,5"}};
    const auto b = s.pick(bad);
    p[b.first]   = b.second;
    programs::Scratch dir;
    {
        static const std::vector<std::string> lines = {"--nonsense=1\n", "--J=1\n--unknown=2\n", "\n--out=b.txt\n--kinetic=1\n"};
        std::ofstream f((dir / "bad.rsp").c_str());
        f << s.pick(lines);
    }
    const auto r = launch(s, dir, prog, p);
    pbt::require(r.result.status != 0, prog, " ended with success");
    pbt::require(r.result.status != 1000 + SIGALRM && r.result.status != 1000 + SIGKILL, prog, " did not end");
    pbt::require(programs::table(r.file).empty(), "data lines were written");
    s.nontrivial();
}
