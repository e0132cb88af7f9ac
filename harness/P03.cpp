// P03: errors, composed strings, constants, facts about the platform, and the help and version output of the programs.
#include "pbt_main.hpp"
#include "programs.hpp"
#include <omp.h>
#include <boost/version.hpp>
#include "ieompp/exception.hpp"
#include "ieompp/io/exception.hpp"
#include "ieompp/string.hpp"
#include "ieompp/constants.hpp"
#include "ieompp/platform.hpp"
#include "ieompp/version.hpp"
#include "ieompp/types/names.hpp"
#include "include/application_timer.hpp"
#include <memory>
#include <unistd.h>

using pbt::Src;

// any bytes but the terminating one
std::string bytes(Src& s, std::size_t most)
{
    static const std::vector<std::string> words = {"", "%s", "%n%d", "\n", "\t", ": ", "a.cpp", "/src/some file.hpp", "\xc3\xa9", "\xff", "{}", "\\", "\"", "index out of range", " "};
    std::string r;
    for(std::size_t n = s.sized(0, most); n > 0; --n) {
        r += s.boolean() ? s.pick(words) : std::string(1, static_cast<char>(s.range(1, 255)));
    }
    return r;
}

std::string shown(const std::string& t)
{
    std::string r;
    for(unsigned char c : t) {
        if(c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

// now and then a long text
std::string text(Src& s, std::size_t n)
{
    std::string r = bytes(s, n);
    if(s.chance(1, 6)) {
        const std::string part = r + s.pick(std::vector<std::string>{"x", "a long text ", "%s"});
        const std::size_t length = s.sized(0, 40000);
        while(r.size() < length) {
            r += part;
        }
    }
    return r;
}
std::string brief(const std::string& t) { return t.size() <= 200 ? shown(t) : shown(t.substr(0, 40)) + "..." + shown(t.substr(t.size() - 40)) + " (" + std::to_string(t.size()) + " characters)"; }

// ---- exceptions
template <typename T>
T made(const std::string& file, std::size_t line, const std::string& msg)
{
    // the arguments are gone when the exception is used
    std::unique_ptr<std::string> f(new std::string(file)), m(new std::string(msg));
    return ieompp::create_exception<T>(*f, line, *m);
}
template <typename T, typename Caught>
std::string caught(const T& e)
{
    try {
        throw e;
    } catch(const Caught& c) {
        return c.what();
    }
}
template <typename T>
void exception(Src& s, const std::string& file, std::size_t line, const std::string& msg)
{
    const std::string expected = file + ":" + std::to_string(line) + ": " + msg;
    auto check = [&](const std::string& got, const char* how) { pbt::require(got == expected, how, ": \"", brief(got), "\" instead of \"", brief(expected), "\""); };
    std::exception_ptr kept;
    {
        const T e = made<T>(file, line, msg);
        check(e.what(), "what()");
        check((caught<T, T>(e)), "what() of the exception as its own type");
        check((caught<T, ieompp::Exception>(e)), "what() of the exception as Exception");
        check((caught<T, std::exception>(e)), "what() of the exception as std::exception");
        std::unique_ptr<T> copy(new T(e)), again(new T(*copy));
        copy.reset();
        check(again->what(), "what() of a copy of a copy");
        kept = std::make_exception_ptr(e);
    }
    try {
        std::rethrow_exception(kept);
    } catch(const std::exception& e) {
        check(e.what(), "what() of the exception rethrown later");
    }
    // without a place
    const T plain(msg), literal(msg.c_str());
    pbt::require(plain.what() == msg, "message of a std::string: \"", brief(plain.what()), "\"");
    pbt::require(literal.what() == msg, "message of a C string: \"", brief(literal.what()), "\"");
    // with the place of the throw
    std::size_t at = 0;
    try {
        // clang-format off
        at = __LINE__; THROW(T, msg)
        // clang-format on
    } catch(const T& e) {
        const std::string want = __FILE__ + (":" + std::to_string(at)) + ": " + msg;
        pbt::require(e.what() == want, "THROW: \"", brief(e.what()), "\" instead of \"", brief(want), "\"");
    } catch(const std::exception& e) {
        pbt::fail("THROW threw another type");
    }
    (void)s;
}
RELATION("exceptions", 4, "a place and a message")
{
    const std::string file = text(s, 6), msg = text(s, 20);
    const std::size_t line = s.boolean() ? s.range(0, 2000) : std::size_t(s.sized(0, 1ll << 62));
    const int type         = s.range(0, 2);
    s.describe([&](std::ostream& o) { o << "type " << type << ", file \"" << brief(file) << "\", line " << line << ", message \"" << brief(msg) << "\""; });
    switch(type) {
        case 0: exception<ieompp::Exception>(s, file, line, msg); break;
        case 1: exception<ieompp::NotImplemented>(s, file, line, msg); break;
        default: exception<ieompp::io::IOException>(s, file, line, msg);
    }
    s.nontrivial(!file.empty() && !msg.empty());
}

// ---- composed strings
template <typename T>
std::string printed(const char* format, T x)
{
    char b[512];
    std::snprintf(b, sizeof b, format, x);
    return b;
}
RELATION("compose", 3, "at least two different kinds of arguments")
{
    const std::string a = text(s, 10), b = bytes(s, 3);
    const double x       = s.boolean() ? s.coeff() : s.real(-1e6, 1e6);
    const long long i    = s.sized(-1000, 1ll << 40);
    const unsigned u     = s.range(0, 70000);
    const char c         = static_cast<char>(s.range(33, 126));
    const bool t         = s.boolean();
    s.describe([&](std::ostream& o) { o << '"' << brief(a) << "\" \"" << brief(b) << "\" " << x << ' ' << i << ' ' << u << ' ' << c << ' ' << t; });
    const std::string sx = printed("%g", x), si = std::to_string(i), su = std::to_string(u), sc(1, c), st = t ? "1" : "0";
    auto same = [&](const std::string& got, const std::string& want) { pbt::require(got == want, "composed \"", brief(got), "\" instead of \"", brief(want), "\""); };
    same(ieompp::compose(), "");
    same(ieompp::compose(a), a);
    same(ieompp::compose(a, b), a + b);
    same(ieompp::compose(b.c_str(), a, b), b + a + b);
    same(ieompp::compose(i, c, u), si + sc + su);
    same(ieompp::compose(a, i, b, x, t), a + si + b + sx + st);
    same(ieompp::compose(x, a, u, c, b, i, t, "end"), sx + a + su + sc + b + si + st + "end");
    same(ieompp::compose(ieompp::compose(a, i), ieompp::compose(c, b)), ieompp::compose(a, i, c, b));
    s.nontrivial(!a.empty() || !b.empty());
}

// ---- constants
template <typename F>
void constants(Src& s, const char* name)
{
    const F pi = static_cast<F>(std::acos(-1.0L));
    pbt::require(ieompp::Pi<F>::value == pi, "pi of ", name);
    pbt::require(ieompp::TwoPi<F>::value == static_cast<F>(2 * std::acos(-1.0L)), "2 pi of ", name);
    pbt::require(ieompp::HalfPi<F>::value == static_cast<F>(std::acos(-1.0L) / 2), "pi/2 of ", name);
    const F x = static_cast<F>(s.real(-3., 3.)), tolerance = 40 * std::numeric_limits<F>::epsilon();
    pbt::require(std::abs(std::sin(x + ieompp::TwoPi<F>::value) - std::sin(x)) <= tolerance, "sin(x + 2 pi) = sin(x) fails for ", name, " at ", x);
    pbt::require(std::abs(std::cos(x + ieompp::Pi<F>::value) + std::cos(x)) <= tolerance, "cos(x + pi) = -cos(x) fails for ", name, " at ", x);
    pbt::require(std::abs(std::sin(x + ieompp::HalfPi<F>::value) - std::cos(x)) <= tolerance, "sin(x + pi/2) = cos(x) fails for ", name, " at ", x);
}
template <typename T>
std::string declared()
{
    return ieompp::types::type_name<T>::name;
}
template <typename T>
void integer_name()
{
    const std::string want = std::string(std::is_signed<T>::value ? "int" : "uint") + std::to_string(8 * sizeof(T)) + "_t";
    pbt::require(declared<T>() == want, "the name of ", want, " is ", declared<T>());
}
RELATION("constants and names", 1, "always")
{
    const int which = s.range(0, 5);
    s.note(which < 3 ? "constants of " : "names of ", which == 0 ? "float" : which == 1 ? "double" : which == 2 ? "long double" : which == 3 ? "signed integers" : which == 4 ? "unsigned integers" : "other types");
    switch(which) {
        case 0: constants<float>(s, "float"); break;
        case 1: constants<double>(s, "double"); break;
        case 2: constants<long double>(s, "long double"); break;
        case 3:
            integer_name<std::int8_t>();
            integer_name<std::int16_t>();
            integer_name<std::int32_t>();
            integer_name<std::int64_t>();
            break;
        case 4:
            integer_name<std::uint8_t>();
            integer_name<std::uint16_t>();
            integer_name<std::uint32_t>();
            integer_name<std::uint64_t>();
            break;
        default:
            pbt::require(declared<bool>() == "bool" && declared<float>() == "float" && declared<double>() == "double" && declared<long double>() == "long double", "names of bool and the floating point types");
    }
    s.nontrivial(true);
}

// ---- the platform
RELATION("platform", 2, "a user is set")
{
    using ieompp::Platform;
    const bool set         = s.chance(4, 5);
    const std::string user = bytes(s, 12);
    const int threads      = s.range(1, 64);
    s.describe([&](std::ostream& o) { o << (set ? "user \"" + shown(user) + "\"" : std::string("no user")) << ", " << threads << " threads"; });
    const char* before     = std::getenv("LOGNAME");
    const std::string kept = before ? before : "";
    if(set) {
        setenv("LOGNAME", user.c_str(), 1);
    } else {
        unsetenv("LOGNAME");
    }
    const std::string got = Platform::user();
    if(before) {
        setenv("LOGNAME", kept.c_str(), 1);
    } else {
        unsetenv("LOGNAME");
    }
    pbt::require(got == (set ? user : std::string("unknown")), "user is \"", shown(got), "\"");
    const int t = omp_get_max_threads();
    omp_set_num_threads(threads);
    const std::string n = Platform::max_threads();
    omp_set_num_threads(t);
    pbt::require(n == std::to_string(threads), "number of threads is ", n, " instead of ", threads);
    char host[256] = "";
    gethostname(host, sizeof host - 1);
    pbt::require(Platform::host() == host, "host is \"", Platform::host(), "\"");
    // the order of the bytes in memory
    const std::uint32_t word = 0x01020304u;
    unsigned char byte[4];
    std::memcpy(byte, &word, 4);
    std::ostringstream e;
    e << Platform::endianess();
    const std::string order = byte[0] == 4 && byte[1] == 3 ? "LittleEndian" : byte[0] == 1 && byte[1] == 2 ? "BigEndian" : byte[0] == 2 ? "BigWordSwappedEndian" : "LittleWordSwappedEndian";
    pbt::require(e.str() == order, "byte order is ", e.str());
    std::set<std::string> names;
    for(auto x : {Platform::Endian::Unknown, Platform::Endian::Big, Platform::Endian::Little, Platform::Endian::BigWord, Platform::Endian::LittleWord}) {
        std::ostringstream o;
        o << x << '|';
        names.insert(o.str());
    }
    pbt::equal(names.size(), std::size_t(5), "number of different names of byte orders");
    // versions
    const int v = BOOST_VERSION;
    pbt::require(Platform::boost() == std::to_string(v / 100000) + "." + std::to_string(v / 100 % 1000) + "." + std::to_string(v % 100), "version of boost is ", Platform::boost());
    pbt::require(Platform::compiler().find(std::to_string(__GNUC__) + "." + std::to_string(__GNUC_MINOR__)) != std::string::npos, "compiler is ", Platform::compiler());
    pbt::require(Platform::operating_system() == "Linux", "operating system is ", Platform::operating_system());
    pbt::require(Platform::architecture() == (sizeof(void*) == 8 ? "x86_64" : "x86_32"), "architecture is ", Platform::architecture());
    s.nontrivial(set);
}

// ---- the time since the start
RELATION("timer", 1, "time has passed")
{
    const auto before = std::chrono::steady_clock::now();
    std::unique_ptr<ApplicationTimer> timer(new ApplicationTimer);
    const auto after = std::chrono::steady_clock::now();
    const int us     = s.range(0, 3000);
    s.note("shown after ", us, " microseconds");
    if(us > 0) {
        usleep(us);
    }
    const auto first = std::chrono::steady_clock::now();
    std::ostringstream o;
    o.precision(17);
    o << *timer;
    const auto last      = std::chrono::steady_clock::now();
    const std::string t  = o.str();
    const double seconds = std::strtod(t.c_str(), nullptr);
    pbt::require(!t.empty() && t.back() == 's', "the timer shows \"", t, "\"");
    const double least = std::chrono::duration<double>(first - after).count(), most = std::chrono::duration<double>(last - before).count();
    pbt::require(seconds >= least * (1 - 1e-9) && seconds <= most * (1 + 1e-9), "the timer shows ", seconds, " s, after ", least, " to ", most);
    s.nontrivial(us > 0);
}

// ---- the programs
bool has_line(const std::vector<std::string>& l, const std::string& key, const std::string& value)
{
    for(const auto& x : l) {
        const auto k = x.find(key);
        if(k == std::string::npos || k > 2) {
            continue;
        }
        std::string v = x.substr(k + key.size());
        v.erase(0, v.find_first_not_of(": \t"));
        if(v == value) {
            return true;
        }
    }
    return false;
}
void facts(const std::vector<std::string>& l, const std::string& program, const std::string& user, int threads)
{
    using ieompp::Platform;
    const std::pair<std::string, std::string> all[] = {{"program", program},
                                                       {"ieompp", ieompp::version},
                                                       {"boost", Platform::boost()},
                                                       {"arch", Platform::architecture()},
                                                       {"os", Platform::operating_system()},
                                                       {"compiler", Platform::compiler()},
                                                       {"std lib", Platform::cpp_library()},
                                                       {"compiled by", user + "@" + Platform::host()},
                                                       {"endianess", "LittleEndian"},
                                                       {"max threads", std::to_string(threads)}};
    for(const auto& f : all) {
        pbt::require(has_line(l, f.first, f.second), "no line \"", f.first, ": ", f.second, "\"");
    }
}
RELATION("programs", 12, "a run, or help or a version among other options")
{
    static const std::vector<std::string> names = {"hubbard_real_1d_kinetic_rk4", "hubbard_real_1d_kinetic_rk4_coefficients"};
    const std::string program = s.pick(names);
    std::vector<std::pair<std::string, std::string>> given;
    std::map<std::string, std::string> p;
    p["N"]     = std::to_string(s.range(3, 12));
    p["dt"]    = programs::text(s.range(1, 20) / 1000.);
    p["t_end"] = programs::text(s.range(0, 5) * std::strtod(p["dt"].c_str(), nullptr));
    if(s.boolean()) {
        p["J"] = programs::text(s.range(-8, 8) / 4.);
    }
    const std::string out = s.boolean() ? "result.txt" : "";
    if(!out.empty()) {
        p["out"] = out;
    }
    given.assign(p.begin(), p.end());
    auto args      = programs::arguments(s, given);
    const int mode = s.range(0, 2); // run, help, version
    if(mode > 0) {
        args.insert(args.begin() + s.upto(args.size()), mode == 1 ? "--help" : "--version");
        // (an option may only stand where it does not part another from its value)
        for(std::size_t i = 0; i + 1 < args.size(); ++i) {
            if((args[i + 1] == "--help" || args[i + 1] == "--version") && args[i].compare(0, 2, "--") == 0 && args[i].find('=') == std::string::npos) {
                std::swap(args[i], args[i + 1]);
            }
        }
    }
    programs::Environment env;
    env.threads = s.range(1, 8);
    env.login   = s.chance(3, 4);
    env.user    = "user" + std::to_string(s.range(0, 99));
    s.describe([&](std::ostream& o) {
        o << program;
        for(const auto& a : args) {
            o << ' ' << a;
        }
        o << ", user " << (env.login ? env.user : "not set") << ", threads " << env.threads;
    });
    programs::Scratch dir;
    const auto r           = programs::run(dir, program, args, env);
    const std::string user = env.login ? env.user : "unknown";
    pbt::require(r.status < 98, program, " was ended by signal or sanitizer: ", r.status);
    s.nontrivial(mode == 0 || args.size() > 1);
    if(mode == 0) {
        programs::succeeds(r, program);
        const std::string file = out.empty() ? dir.only("txt") : out;
        const auto l           = programs::lines(programs::content(dir / file));
        std::vector<std::string> head;
        for(const auto& x : l) {
            if(!x.empty() && x[0] == '#') {
                head.push_back(x);
            }
        }
        facts(head, program, user, env.threads);
        for(const auto& o : given) {
            const bool found = std::any_of(head.begin(), head.end(), [&](const std::string& x) {
                const auto e = x.find(o.first + " = ");
                return e != std::string::npos && (x[e - 1] == '\t' || x[e - 1] == ' ') && x.substr(e + o.first.size() + 3) == o.second;
            });
            pbt::require(found, "no option ", o.first, " = ", o.second, " in the header");
        }
        return;
    }
    // nothing is computed
    pbt::require(!programs::exists(dir / "result.txt") && dir.files("txt").empty(), program, " has written a file of results");
    const auto l = programs::lines(r.out);
    if(mode == 2) {
        facts(l, program, user, env.threads);
        return;
    }
    pbt::require(r.out.find(program) != std::string::npos, "the help does not name the program");
    for(const char* o : {"help", "version", "response_file", "out", "N", "dt", "t_end", "J", "measurement_interval"}) {
        const std::string option = std::string("--") + o;
        const bool found = std::any_of(l.begin(), l.end(), [&](const std::string& x) {
            const auto e = x.find(option);
            return e != std::string::npos && (e + option.size() == x.size() || x[e + option.size()] == ' ');
        });
        pbt::require(found, "the help does not list ", option);
    }
}
