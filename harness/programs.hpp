// runs the programs of src/hubbard in a scratch directory
#ifndef VERIF_PROGRAMS_HPP_
#define VERIF_PROGRAMS_HPP_
#include "pbt.hpp"
#include <dirent.h>
#include <sys/stat.h>
#ifndef APP_DIR
#define APP_DIR "."
#endif
namespace programs
{
    class Scratch
    {
    private:
        std::string _path;

        static void clear(const std::string& p)
        {
            if(DIR* d = opendir(p.c_str())) {
                while(const dirent* e = readdir(d)) {
                    const std::string n = e->d_name;
                    if(n == "." || n == "..") {
                        continue;
                    }
                    const std::string f = p + "/" + n;
                    struct stat st;
                    if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                        clear(f);
                    } else {
                        ::unlink(f.c_str());
                    }
                }
                closedir(d);
            }
            ::rmdir(p.c_str());
        }

    public:
        Scratch()
        {
            char t[] = "/tmp/ieompp-check-XXXXXX";
            if(mkdtemp(t) == nullptr) {
                throw pbt::Discard{};
            }
            _path = t;
        }
        Scratch(const Scratch&) = delete;
        ~Scratch() { clear(_path); }
        const std::string& path() const { return _path; }
        // the files with the extension
        std::vector<std::string> files(const std::string& extension) const
        {
            std::vector<std::string> r;
            if(DIR* d = opendir(_path.c_str())) {
                while(const dirent* e = readdir(d)) {
                    const std::string n = e->d_name;
                    const auto dot      = n.rfind('.');
                    if(dot != std::string::npos && dot > 0 && n.substr(dot + 1) == extension) {
                        r.push_back(n);
                    }
                }
                closedir(d);
            }
            return r;
        }
        // the name of the only file with the extension
        std::string only(const std::string& extension) const
        {
            const auto r = files(extension);
            pbt::equal(r.size(), std::size_t(1), "number of files *.", extension);
            return r[0];
        }
        std::string operator/(const std::string& n) const { return _path + "/" + n; }
    };

    inline bool exists(const std::string& p)
    {
        struct stat st;
        return stat(p.c_str(), &st) == 0;
    }
    inline std::string content(const std::string& p)
    {
        std::ifstream f(p.c_str(), std::ios::binary);
        std::ostringstream o;
        o << f.rdbuf();
        return o.str();
    }
    inline std::vector<std::string> lines(const std::string& text)
    {
        std::vector<std::string> r;
        std::istringstream i(text);
        std::string l;
        while(std::getline(i, l)) {
            r.push_back(l);
        }
        return r;
    }

    struct Result {
        int status;
        std::string out;
    };
    struct Environment {
        int threads      = 1;
        bool login       = true;
        std::string user = "someone";
        unsigned seconds = 60;
        std::string schedule; // for programs compiled with schedules.hpp
    };
    inline Result run(const Scratch& dir, const std::string& program, const std::vector<std::string>& args, const Environment& env)
    {
        const std::string out = dir / ".stdout";
        const pid_t p = fork();
        if(p == 0) {
            if(chdir(dir.path().c_str()) != 0) {
                _exit(125);
            }
            const int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDWR);
            dup2(n, 0);
            dup2(o, 1);
            dup2(n, 2);
            signal(SIGALRM, SIG_DFL);
            struct itimerval off;
            std::memset(&off, 0, sizeof off);
            setitimer(ITIMER_PROF, &off, nullptr);
            setitimer(ITIMER_VIRTUAL, &off, nullptr);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            alarm(env.seconds);
            const std::string exe = std::string(APP_DIR) + "/" + program;
            std::vector<std::string> e{"OMP_NUM_THREADS=" + std::to_string(env.threads), "OMP_WAIT_POLICY=passive", "LC_ALL=C", "PATH=/usr/bin:/bin",
                                       "ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=0", "UBSAN_OPTIONS=exitcode=98:halt_on_error=1"};
            if(env.login) {
                e.push_back("LOGNAME=" + env.user);
            }
            if(!env.schedule.empty()) {
                e.push_back("VERIF_SCHEDULE=" + env.schedule);
            }
            std::vector<char*> av{const_cast<char*>(exe.c_str())}, ev;
            for(const auto& a : args) {
                av.push_back(const_cast<char*>(a.c_str()));
            }
            for(const auto& x : e) {
                ev.push_back(const_cast<char*>(x.c_str()));
            }
            av.push_back(nullptr);
            ev.push_back(nullptr);
            execve(exe.c_str(), av.data(), ev.data());
            _exit(126);
        }
        int st = 0;
        if(p < 0 || waitpid(p, &st, 0) != p || (WIFEXITED(st) && (WEXITSTATUS(st) == 125 || WEXITSTATUS(st) == 126))) {
            throw pbt::Discard{}; // the program could not be started
        }
        return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), content(out)};
    }
    inline void succeeds(const Result& r, const std::string& program) { pbt::require(r.status == 0, program, r.status > 1000 ? " was ended by signal " : " ended with status ", r.status > 1000 ? r.status - 1000 : r.status); }

    // the lines with data, split at tabs
    using Table = std::vector<std::vector<double>>;
    inline Table table(const std::string& text)
    {
        Table t;
        for(const auto& l : lines(text)) {
            if(l.empty() || l[0] == '#') {
                continue;
            }
            std::vector<double> row;
            std::istringstream i(l);
            std::string f;
            while(i >> f) {
                char* end;
                row.push_back(std::strtod(f.c_str(), &end));
                pbt::require(*end == 0, "data line \"", l, "\"");
            }
            t.push_back(row);
        }
        return t;
    }
    // the options, in any order and notation
    inline std::vector<std::string> arguments(pbt::Src& s, std::vector<std::pair<std::string, std::string>> options)
    {
        std::vector<std::string> r;
        while(!options.empty()) {
            const std::size_t i = s.upto(options.size() - 1);
            const auto o        = options[i];
            options.erase(options.begin() + i);
            if(s.boolean() && o.second[0] != '-') {
                r.push_back("--" + o.first);
                r.push_back(o.second);
            } else {
                r.push_back("--" + o.first + "=" + o.second);
            }
        }
        return r;
    }
    inline std::string text(double x)
    {
        std::ostringstream o;
        o.precision(17);
        o << x;
        return o.str();
    }
} // namespace programs
#endif
