// P01: skipping blank lines and comments.
#include "pbt_main.hpp"
#include "ieompp/io/line.hpp"

using pbt::Src;
namespace io = ieompp::io;

struct Line {
    std::string text;
    bool skippable;
};

std::string spaces(Src& s)
{
    static const std::string ws = " \t\r\v\f";
    std::string r;
    const std::size_t n = s.chance(1, 20) ? s.range(13, s.boolean() ? 6000 : 140000) : s.sized(0, 12);
    const std::size_t m = std::min<std::size_t>(n, 40); // the rest repeats
    for(std::size_t i = 0; i < m; ++i) {
        r += ws[s.upto(ws.size() - 1)];
    }
    while(r.size() < n) {
        r += r[r.size() - m];
    }
    return r;
}
std::string text(Src& s, std::size_t max)
{
    static const std::string alphabet = std::string("a1 #\t0.-,x\r\"\\\v/=\x80\xff") + '\0';
    std::string r;
    const std::size_t n = s.sized(0, max);
    const std::size_t m = std::min<std::size_t>(n, s.sized(0, 40)); // the rest repeats
    for(std::size_t i = 0; i < m; ++i) {
        r += alphabet[s.upto(alphabet.size() - 1)];
    }
    while(m > 0 && r.size() < n) {
        r += r[r.size() - m];
    }
    return r;
}
Line line(Src& s)
{
    static const std::string first = std::string("1a-.(\"/;\\*!%\x01\x80\xff") + '\0';
    switch(s.weighted({1, 2, 2, 2, 4})) {
        case 0: return {"", true};
        case 1: return {spaces(s), true};
        case 2: return {"#" + text(s, s.chance(1, 12) ? 200000 : 60), true};
        case 3: return {spaces(s) + "#" + text(s, 60), true};
        default: return {spaces(s) + first[s.upto(first.size() - 1)] + text(s, s.chance(1, 12) ? 200000 : 60), false};
    }
}
std::string shown(std::string t)
{
    if(t.size() > 60) {
        t = t.substr(0, 60) + "...";
    }
    for(auto& c : t) {
        if(c < 32 || c > 126) {
            c = '~';
        }
    }
    return t;
}

RELATION("one line", 2, "whitespace precedes the first other character, or the line is long")
{
    const auto l = line(s);
    s.note("\"", shown(l.text), "\" of length ", l.text.size());
    pbt::equal(io::is_skippable_line(l.text), l.skippable, "is_skippable_line of \"", shown(l.text), "\"");
    s.label(l.skippable ? "skippable" : "content");
    s.nontrivial(!l.text.empty() && (std::isspace(static_cast<unsigned char>(l.text[0])) || l.text.size() > 1000));
}
RELATION("stream of lines", 3, "the stream holds skippable and other lines")
{
    std::vector<Line> lines;
    const std::size_t n = s.sized(0, 40);
    std::string all;
    std::vector<std::string> ref;
    bool skipped = false;
    for(std::size_t i = 0; i < n; ++i) {
        lines.push_back(line(s));
        all += lines.back().text;
        const bool last = i + 1 == n && s.boolean();
        if(!last) {
            all += '\n';
        }
        skipped = skipped || lines.back().skippable;
        if(!lines.back().skippable) {
            ref.push_back(lines.back().text);
        }
    }
    s.note(n, " lines, ", ref.size(), " of them content: \"", shown(all), "\"");
    std::istringstream strm(all);
    for(std::size_t i = 0; i < ref.size(); ++i) {
        const std::string got = io::next_line(strm);
        pbt::require(got == ref[i], "line ", i, " is \"", shown(got), "\" instead of \"", shown(ref[i]), "\"");
    }
    for(int again = 0; again < 2; ++again) {
        bool thrown = false;
        try {
            const auto got = io::next_line(strm);
            pbt::fail("read \"", shown(got), "\" after the last line");
        } catch(const io::IOException& e) {
            thrown = std::string(e.what()).size() > 0;
        }
        pbt::require(thrown, "no exception after the last line");
    }
    s.nontrivial(skipped && !ref.empty());
}
