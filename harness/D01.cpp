// D01: the scripts of /tools, run on generated source trees in a scratch directory.
#include "pbt_main.hpp"
#include "programs.hpp"
#include <map>
#include <set>
#include <utime.h>

using pbt::Src;
using programs::Scratch;

#ifndef TOOLS
#define TOOLS "."
#endif

namespace
{
    // relative path -> content
    using Tree = std::map<std::string, std::string>;

    void write(const std::string& path, const std::string& text, mode_t mode = 0644)
    {
        std::ofstream f(path.c_str(), std::ios::binary);
        f << text;
        f.close();
        chmod(path.c_str(), mode);
    }
    void create(const Scratch& dir, const Tree& tree)
    {
        for(const auto& f : tree) {
            for(auto at = f.first.find('/'); at != std::string::npos; at = f.first.find('/', at + 1)) {
                mkdir((dir / f.first.substr(0, at)).c_str(), 0755);
            }
            write(dir / f.first, f.second);
        }
    }
    void list(const Scratch& dir, const std::string& at, std::set<std::string>& files)
    {
        if(DIR* d = opendir((dir / at).c_str())) {
            while(const dirent* e = readdir(d)) {
                const std::string n = e->d_name;
                if(n == "." || n == "..") {
                    continue;
                }
                const std::string f = at.empty() ? n : at + "/" + n;
                struct stat st;
                if(lstat((dir / f).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                    list(dir, f, files);
                } else {
                    files.insert(f);
                }
            }
            closedir(d);
        }
    }
    // the tree holds these files and no others
    void unchanged(const Scratch& dir, const Tree& tree)
    {
        std::set<std::string> files;
        list(dir, "", files);
        for(const auto& f : tree) {
            pbt::equal(programs::content(dir / f.first), f.second, "content of ", f.first);
            files.erase(f.first);
        }
        files.erase(".stdout");
        for(auto i = files.begin(); i != files.end();) {
            i = i->compare(0, 4, "bin/") == 0 ? files.erase(i) : std::next(i);
        }
        pbt::require(files.empty(), "new file ", files.empty() ? "" : *files.begin());
    }
    programs::Result run(const Scratch& dir, const std::string& script, const std::string& input = "")
    {
        const std::string out = dir / ".stdout";
        int in[2];
        if(pipe(in) != 0) {
            throw pbt::Discard{};
        }
        const pid_t p = fork();
        if(p == 0) {
            if(chdir(dir.path().c_str()) != 0) {
                _exit(125);
            }
            const int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDWR);
            dup2(in[0], 0);
            close(in[0]);
            close(in[1]);
            dup2(o, 1);
            dup2(n, 2);
            signal(SIGALRM, SIG_DFL);
            struct itimerval off;
            std::memset(&off, 0, sizeof off);
            setitimer(ITIMER_PROF, &off, nullptr);
            setitimer(ITIMER_VIRTUAL, &off, nullptr);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            alarm(60);
            const std::string path = "PATH=" + dir.path() + "/bin:/usr/local/bin:/usr/bin:/bin", file = std::string(TOOLS) + "/" + script;
            const char* av[] = {"env", "python3", file.c_str(), nullptr};
            const char* ev[] = {path.c_str(), "LC_ALL=C.UTF-8", "PYTHONDONTWRITEBYTECODE=1", nullptr};
            execve("/usr/bin/env", const_cast<char**>(av), const_cast<char**>(ev));
            _exit(126);
        }
        close(in[0]);
        signal(SIGPIPE, SIG_IGN);
        for(std::size_t k = 0; k < input.size();) {
            const ssize_t w = ::write(in[1], input.data() + k, input.size() - k);
            if(w <= 0) {
                break;
            }
            k += w;
        }
        close(in[1]);
        int st = 0;
        if(p < 0 || waitpid(p, &st, 0) != p || (WIFEXITED(st) && (WEXITSTATUS(st) == 125 || WEXITSTATUS(st) == 126 || WEXITSTATUS(st) == 127))) {
            throw pbt::Discard{};
        }
        return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), programs::content(out)};
    }

    std::string word(Src& s)
    {
        static const std::string a = "abcxyz019_";
        std::string r;
        for(auto n = s.range(1, s.chance(1, 8) ? 20 : 4); n > 0; --n) {
            r += a[s.upto(a.size() - 1)];
        }
        return r;
    }
    std::string extension(Src& s) { return s.pick(std::vector<std::string>{".hpp", ".hpp", ".hpp", ".hpp", ".cpp", ".cpp", ".h", ".txt", "", ".hpp.in", ".hppx", ".py"}); }
    std::string place(Src& s)
    {
        std::string r;
        for(auto n = s.sized(0, 4); n > 0; --n) {
            r += word(s) + "/";
        }
        return r;
    }
    // paths of which none is a directory in another
    std::vector<std::string> paths(Src& s, std::vector<std::string> roots)
    {
        std::set<std::string> taken, directories;
        std::vector<std::string> r;
        const auto n = s.chance(1, 4) ? s.sized(0, 20) : s.range(2, 8);
        for(int i = 0; i < n; ++i) {
            const std::string p = s.pick(roots) + "/" + place(s) + word(s) + (s.chance(1, 8) ? "." + word(s) : "") + extension(s);
            bool bad            = taken.count(p) || directories.count(p);
            std::vector<std::string> parents;
            for(auto at = p.find('/'); at != std::string::npos; at = p.find('/', at + 1)) {
                parents.push_back(p.substr(0, at));
                bad = bad || taken.count(parents.back());
            }
            if(!bad) {
                taken.insert(p);
                directories.insert(parents.begin(), parents.end());
                r.push_back(p);
            }
        }
        return r;
    }
    bool ends(const std::string& t, const std::string& e) { return t.size() > e.size() && t.compare(t.size() - e.size(), e.size(), e) == 0; }
    // what follows the last dot of the file's name (a leading dot does not count)
    std::string extension_of(const std::string& p)
    {
        const auto slash = p.rfind('/'), dot = p.rfind('.');
        return dot == std::string::npos || dot <= slash + 1 ? "" : p.substr(dot);
    }
    std::string code(Src& s, int most)
    {
        static const std::vector<std::string> some{"", "// a comment", "#include <vector>", "    int x = 1;", "namespace ieompp {", "}", "#define OTHER 1", "\tstd::string s = u8\"\xe2\x86\x91\";", "  ", "#ifndef OTHER", "#endif"};
        std::string r;
        for(auto n = s.sized(0, most); n > 0; --n) {
            r += s.pick(some) + "\n";
        }
        return r;
    }
    std::string guard(const std::string& path)
    {
        std::string r;
        for(const char c : path.substr(std::string("include/").size())) {
            r += c == '/' || c == '.' ? '_' : static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
        }
        return r + "_";
    }
    std::string shown(const Tree& t)
    {
        std::string r;
        for(const auto& f : t) {
            r += f.first + " ";
        }
        return r;
    }
} // namespace

RELATION("include guards", 4, "at least one header with a wrong and one with a right guard, or none with a wrong one")
{
    Scratch dir;
    Tree tree;
    std::set<std::string> wrong, right;
    for(const auto& p : paths(s, s.chance(1, 3) ? std::vector<std::string>{"include/ieompp", "include/ieompp", "include/other", "src"} : std::vector<std::string>{"include/ieompp"})) {
        const bool header  = ends(p, ".hpp") && p.compare(0, 15, "include/ieompp/") == 0;
        const std::string g = p.compare(0, 8, "include/") == 0 ? guard(p) : "IEOMPP_X_";
        std::string a = g, b = g, between = "\n";
        const auto at = s.upto(g.size() - 1);
        const int how = s.boolean() ? 0 : s.range(0, 7);
        switch(how) {
            case 0: break;
            case 1: b[b.size() > 8 ? 7 + at % (b.size() - 7) : b.size() - 1] = 'Q'; break; // the second differs
            case 2: a = b = a.substr(0, a.size() - 1); break;                               // last character missing
            case 3: a = b = a + s.pick(std::vector<std::string>{"_", "2", "HPP_"}); break;
            case 4: a = b = "IEOMPP_" + guard("include/" + place(s) + word(s) + ".hpp"); break; // another file's
            case 5: a = b = a.substr(7) + "_OTHER"; break;                                  // no guard of the library
            case 6: between = s.boolean() ? "\n\n" : "\nint y;\n"; break;                   // the definition does not follow
            default: a.clear(); break;                                                      // none at all
        }
        if(how == 4 && s.boolean()) { // the same name with small letters
            a = g;
            for(std::size_t k = s.boolean() ? 7 : a.size() - 4; k < a.size(); ++k) {
                a[k] = static_cast<char>(std::tolower(static_cast<unsigned char>(a[k])));
            }
            b = a;
        }
        std::string text = (s.chance(1, 3) ? "// " + word(s) + "\n" : "");
        text += a.empty() ? "" : "#ifndef " + a + between + "#define " + b + "\n";
        text += code(s, 6) + "#endif\n";
        tree[p] = text;
        if(header) {
            ((a == g && b == g && between == "\n") ? right : wrong).insert(p);
        }
    }
    tree["include/ieompp/.keep"] = "";
    create(dir, tree);
    s.note("wrong", wrong.size(), "right", right.size(), "of", shown(tree));
    const auto r = run(dir, "include-guards.py");
    pbt::equal(r.status, wrong.empty() ? 0 : 1, "exit status with ", wrong.size(), " wrong headers");
    for(const auto& p : wrong) {
        pbt::require(r.out.find("\"" + p + "\"") != std::string::npos, p, " is not reported");
    }
    for(const auto& f : tree) {
        pbt::require(wrong.count(f.first) || r.out.find("\"" + f.first + "\"") == std::string::npos, f.first, " is reported");
    }
    unchanged(dir, tree);
    s.nontrivial((!wrong.empty() && !right.empty()) || (wrong.empty() && !right.empty()));
}

RELATION("include style", 4, "a header with includes to change and one without")
{
    Scratch dir;
    Tree tree, expected;
    bool some = false, none = false;
    for(const auto& p : paths(s, s.chance(1, 3) ? std::vector<std::string>{"include/ieompp", "include/ieompp", "include/other", "src", "tests"} : std::vector<std::string>{"include/ieompp"})) {
        const bool header = ends(p, ".hpp") && p.compare(0, 15, "include/ieompp/") == 0;
        std::string before, after;
        bool changes = false;
        for(auto n = s.sized(0, s.chance(1, 20) ? 300 : 12); n > 0; --n) {
            std::string name = "ieompp/" + place(s) + word(s) + ".hpp";
            switch(s.range(0, 7)) {
                case 0:
                case 1: {
                    const std::vector<std::string> gap{"", "", " ", "  "};
                    before += "#" + s.pick(gap) + "include" + s.pick(gap) + "<" + name + ">" + s.pick(gap) + "\n";
                    after += "#include \"" + name + "\"\n";
                    changes = true;
                    continue;
                }
                case 2: name = "#include \"" + name + "\""; break;
                case 3: name = "#include <" + s.pick(std::vector<std::string>{"vector", "boost/" + word(s) + ".hpp", "x" + name, "blaze/Math.h", word(s) + "/" + name}) + ">"; break;
                case 4: name = "// #include <" + name + ">"; break;
                default: {
                    const auto c = code(s, 2);
                    before += c;
                    after += c;
                    continue;
                }
            }
            before += name + "\n";
            after += name + "\n";
        }
        if(s.chance(1, 5)) {
            before += "// the end";
            after += "// the end";
        }
        tree[p]     = before;
        expected[p] = header ? after : before;
        some        = some || (header && changes);
        none        = none || (header && !changes);
    }
    create(dir, tree);
    s.note(shown(tree));
    auto r = run(dir, "include-style.py");
    pbt::equal(r.status, 0, "exit status");
    unchanged(dir, expected);
    if(s.chance(1, 3)) { // nothing is left to do
        r = run(dir, "include-style.py");
        pbt::equal(r.status, 0, "exit status of the second run");
        unchanged(dir, expected);
    }
    s.nontrivial(some && none);
}

RELATION("lines of code", 2, "files of several directories count")
{
    Scratch dir;
    Tree tree;
    std::map<std::string, long> count{{"include", 0}, {"tests", 0}, {"src", 0}};
    long total = 0;
    for(const auto& p : paths(s, {"include", "tests", "src", "external", "doc", "include/src", "src/tests"})) {
        std::string t = code(s, s.chance(1, 10) ? 2000 : 20);
        if(!t.empty() && s.chance(1, 5)) {
            t += "x";
        }
        tree[p]      = t;
        const auto d = p.substr(0, p.find('/'));
        if(count.count(d) && (extension_of(p) == ".cpp" || extension_of(p) == ".hpp")) {
            const long n = std::count(t.begin(), t.end(), '\n') + (!t.empty() && t.back() != '\n');
            count[d] += n;
            total += n;
        }
    }
    create(dir, tree);
    s.note(shown(tree));
    const auto r = run(dir, "loc.py");
    pbt::equal(r.status, 0, "exit status");
    std::map<std::string, long> got;
    for(const auto& l : programs::lines(r.out)) {
        const auto colon = l.find(':');
        if(colon != std::string::npos) {
            got[l.substr(0, colon)] = std::strtol(l.c_str() + colon + 1, nullptr, 10);
        }
    }
    for(const auto& c : count) {
        pbt::require(got.count(c.first) == 1, "no count for ", c.first);
        pbt::equal(got[c.first], c.second, "lines in ", c.first);
    }
    pbt::require(got.count("total") == 1, "no total");
    pbt::equal(got["total"], total, "total");
    unchanged(dir, tree);
    s.nontrivial((count["include"] > 0) + (count["tests"] > 0) + (count["src"] > 0) >= 2);
}

RELATION("version header", 3, "git knows the version, or several versions")
{
    Scratch dir;
    mkdir((dir / "bin").c_str(), 0755);
    Tree tree;
    const bool present = s.boolean();
    const std::string old = s.pick(std::vector<std::string>{"", "#define OLD\n", std::string(3000, 'x')});
    tree["include/ieompp/other.hpp"] = "// other\n";
    if(present) {
        tree["include/ieompp/version.hpp"] = old;
    }
    create(dir, tree);
    const std::string header = dir / "include/ieompp/version.hpp";
    std::string name         = "v0.1";
    bool some                = false;
    const auto steps         = s.range(1, 4);
    for(int k = 0; k < steps; ++k) {
        const auto kind  = s.range(0, 5); // 0: git fails, 1: git fails after printing something
        const bool known = kind >= 2;
        some             = some || known;
        switch(k == 0 ? 0 : s.range(0, 4)) { // often close to the one before
            case 1: name += s.pick(std::vector<std::string>{"-dirty", "0", "-" + std::to_string(s.range(1, 400)) + "-g" + word(s)}); break;
            case 2: name = name.size() > 2 ? name.substr(0, name.size() - s.range(1, name.size() - 2)) : name; break;
            case 3: name.back() = name.back() == '7' ? '8' : '7'; break;
            case 4: break;
            default: name = "v" + std::to_string(s.range(0, 12)) + "." + std::to_string(s.range(0, 30)) + (s.boolean() ? "" : "-" + std::to_string(s.range(1, 400)) + "-g" + word(s)) + (s.chance(1, 3) ? "-dirty" : "");
        }
        write(dir / "bin/git", kind == 0 ? "#!/bin/sh\nexit 128\n" : "#!/bin/sh\nif [ \"$1\" = describe ]; then echo '" + (known ? name : std::string("broken")) + "'; " + (known ? "exit 0" : "exit 3") + "; fi\nexit 1\n", 0755);
        s.note(known ? name : "unknown", k == 0 && present ? "with an old file" : "");
        auto r = run(dir, "configure.py");
        pbt::equal(r.status, 0, "exit status");
        const std::string text = programs::content(header), want = "version = \"" + (known ? name : std::string("0.0.0-unknown")) + "\";";
        const auto at          = text.find(want);
        pbt::require(at != std::string::npos && text.find("version = ", at + 1) == std::string::npos, "the header does not define the version ", known ? name : "0.0.0-unknown");
        pbt::require(text.compare(0, 8, "#ifndef ") == 0 && text.find("#endif") == text.rfind("#endif") && text.size() < 1000, "the header holds something else");
        // once up to date it is not written again
        struct utimbuf past{1000000000, 1000000000};
        utime(header.c_str(), &past);
        r = run(dir, "configure.py");
        pbt::equal(r.status, 0, "exit status of the second run");
        struct stat st;
        pbt::require(stat(header.c_str(), &st) == 0 && st.st_mtime == 1000000000, "a header that is up to date was written");
        tree["include/ieompp/version.hpp"] = text;
        unchanged(dir, tree);
    }
    s.nontrivial(some || steps > 1);
}

RELATION("formatter", 2, "files to format and others")
{
    Scratch dir;
    Tree tree, expected;
    bool some = false, other = false;
    mkdir((dir / "bin").c_str(), 0755);
    write(dir / "bin/clang-format", "#!/bin/sh\nfor f; do last=\"$f\"; done\necho \"// formatted\"\ncat \"$last\"\n", 0755);
    for(const auto& p : paths(s, {"include/ieompp", "src", "tests", "include/ieompp", "src", "include/other", "external", "doc"})) {
        tree[p]          = code(s, 10);
        const auto root  = p.substr(0, p.find('/'));
        const bool wanted = (root == "src" || root == "tests" || p.compare(0, 15, "include/ieompp/") == 0) && (extension_of(p) == ".cpp" || extension_of(p) == ".hpp");
        expected[p]      = (wanted ? "// formatted\n" : "") + tree[p];
        (wanted ? some : other) = true;
    }
    create(dir, tree);
    s.note(shown(tree));
    const auto r = run(dir, "clang-format.py");
    pbt::equal(r.status, 0, "exit status");
    unchanged(dir, expected);
    s.nontrivial(some && other);
}

RELATION("renderer", 2, "at least two lines")
{
    Scratch dir;
    mkdir("/tmp/ieompp-render", 0755); // the script wants it there
    mkdir((dir / "bin").c_str(), 0755);
    write(dir / "bin/xelatex", "#!/bin/sh\ncat > " + (dir / "bin/input") + "\n", 0755);
    std::string input, rows;
    const auto n = s.sized(0, s.chance(1, 20) ? 200 : 10);
    for(int i = 0; i < n; ++i) {
        std::string l;
        for(auto k = s.sized(0, 5); k > 0; --k) {
            l += (l.empty() ? "" : " ") + s.pick(std::vector<std::string>{"c^\\dagger_{r}", "c_{k}", "\\delta_{i,j}", "-", "0.5", "\xe2\x8b\x85", "\\frac{1}{2}", "{{", "&", "\\1"});
        }
        input += (s.chance(1, 4) ? "  " : "") + l + (s.chance(1, 4) ? " \t" : "") + (i + 1 < n || l.empty() || s.boolean() ? "\n" : "");
        rows += (i ? "\n" : "") + ("&" + l + "\\\\");
    }
    s.note(n, "lines");
    const auto r = run(dir, "render.py", input);
    pbt::equal(r.status, 0, "exit status");
    const std::string text = programs::content(dir / "bin/input"), sheet = programs::content(std::string(TOOLS) + "/render.tex"), mark = "{{ subst }}";
    const auto at = sheet.find(mark);
    if(at == std::string::npos) {
        throw pbt::Discard{};
    }
    const std::string want = sheet.substr(0, at) + rows + sheet.substr(at + mark.size());
    pbt::equal(text, want, "document");
    pbt::require(r.out.find(want) != std::string::npos, "the document is not printed");
    s.nontrivial(n >= 2);
}
