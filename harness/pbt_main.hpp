// driver: forks workers, shrinks failures, writes statistics and the replay file
#ifndef PBT_MAIN_HPP_
#define PBT_MAIN_HPP_
#include "pbt.hpp"
#ifdef _OPENMP
#include <omp.h>
#endif
#ifdef PBT_SCHEDULES
#include "schedules.hpp"
#endif

#ifdef PBT_SCHEDULES
namespace schedules
{
    inline void prepare(pbt::Src& s)
    {
        Control& c    = control();
        c.mode        = s.boolean() ? Mode::OneAtATime : Mode::Concurrent;
        c.seed        = c.mode == Mode::OneAtATime ? s.upto(~0ull) : 0;
        c.limit       = s.chance(1, 5) ? static_cast<int>(s.range(1, 4)) : 1 << 20;
        c.max_threads = 4;
        c.regions = c.widest = 0;
        races      = 0;
        for(auto& pc : trace) {
            pc = nullptr;
        }
        s.note(c.mode == Mode::Concurrent ? "threads at once," : "threads in arbitrary order,");
        if(c.limit < 1 << 20) {
            s.note("at most", c.limit, "in a team,");
        }
    }
    inline void check(pbt::Src& s)
    {
        Control& c = control();
        if(races > 0) {
            pbt::fail("data race between the threads of a parallel region", c.loud ? ", at " + where() : std::string());
        }
        s.label(c.regions == 0 ? "no parallel region" : c.mode == Mode::Concurrent ? "concurrent regions" : "ordered regions");
    }
} // namespace schedules
#endif

namespace pbt
{
    inline Shared* make_shared_block()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if(p == MAP_FAILED) {
            perror("mmap");
            std::exit(2);
        }
        return static_cast<Shared*>(p);
    }

    inline std::string json_escape(const std::string& s)
    {
        std::ostringstream o;
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') {
                o << '\\' << c;
            } else if(c == '\n') {
                o << "\\n";
            } else if(c < 0x20 || c == 0x7f) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o << b;
            } else {
                o << c;
            }
        }
        return o.str();
    }

    // CPU seconds one case may use before it counts as a hang (all threads together)
    static int g_case_cpu = 60;

    // and the time it may take at all, for one that waits for ever (ends the process)
    inline void arm(int cpu)
    {
        itimerval t{};
        t.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &t, nullptr);
        t.it_value.tv_sec = cpu == 0 ? 0 : 2 * cpu + 30;
        setitimer(ITIMER_REAL, &t, nullptr);
    }

    inline void on_prof(int) {
        static const char m[] = "case used too much CPU time (hang)";
        (void)!write(2, m, sizeof m - 1);
        _exit(77);
    }

    // run one case in this process; returns status 1 ok 2 failed 3 discarded
    inline int run_case(const Relation& r, Src& s, Shared* sh)
    {
        int st;
        try {
#ifdef PBT_SCHEDULES
            schedules::prepare(s);
            r.fn(s);
            schedules::check(s);
#else
            r.fn(s);
#endif
            st = 1;
        } catch(const Failure& f) {
            std::strncpy(sh->msg, f.msg.c_str(), MAX_MSG - 1);
            st = 2;
        } catch(const Discard&) {
            st = 3;
        } catch(const std::exception& e) {
            std::snprintf(sh->msg, MAX_MSG, "unexpected exception: %s", e.what());
            st = 2;
        } catch(...) {
            std::snprintf(sh->msg, MAX_MSG, "unexpected exception of unknown type");
            st = 2;
        }
        sh->status = st;
        return st;
    }

    // execute a given choice sequence in a forked child; true if it fails
    struct Outcome {
        bool failed    = false;
        bool discarded = false;
        std::string msg, desc;
        std::vector<std::uint64_t> choices, bounds;
    };

    inline Outcome try_choices(const Relation& r, const std::vector<std::uint64_t>& c, Shared* sh, bool loud = false)
    {
        fflush(stdout);
        const pid_t pid = fork();
        if(pid == 0) {
            if(!loud) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 2);
                dup2(fd, 1);
            }
#ifdef PBT_SCHEDULES
            schedules::control().loud = loud;
#endif
            signal(SIGPROF, on_prof);
            arm(g_case_cpu);
            Src s(c, sh);
            const int st = run_case(r, s, sh);
            _exit(st == 2 ? 1 : 0);
        }
        int ws = 0;
        while(waitpid(pid, &ws, 0) < 0) {
        }
        Outcome o;
        o.desc = sh->desc;
        o.choices.assign(sh->choices, sh->choices + sh->n_choices);
        o.bounds.assign(sh->bounds, sh->bounds + sh->n_choices);
        if(WIFSIGNALED(ws)) {
            o.failed = true;
            o.msg    = WTERMSIG(ws) == SIGALRM ? "hang: the case waits for ever"
                                               : std::string("process killed by signal ") + std::to_string(WTERMSIG(ws)) + " (" + strsignal(WTERMSIG(ws)) + ")";
        } else if(WEXITSTATUS(ws) == 1 && sh->status == 2) {
            o.failed = true;
            o.msg    = sh->msg;
        } else if(WEXITSTATUS(ws) == 77 && sh->status == 0) {
            o.failed = true;
            o.msg    = "hang: the case used more than " + std::to_string(g_case_cpu) + " s of CPU time";
        } else if(WEXITSTATUS(ws) != 0 && sh->status == 0) {
            o.failed = true;
            o.msg    = "process ended with status " + std::to_string(WEXITSTATUS(ws))
                    + " inside the case (sanitizer report or exit)";
        } else if(sh->status == 3) {
            o.discarded = true;
        }
        return o;
    }

    inline bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
    {
        if(a.size() != b.size()) {
            return a.size() < b.size();
        }
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }

    inline Outcome shrink(const Relation& r, Outcome best, Shared* sh, double budget_s)
    {
        const auto t0   = std::chrono::steady_clock::now();
        auto out_of_time = [&]() {
            return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s;
        };
        auto attempt = [&](const std::vector<std::uint64_t>& c) {
            Outcome o = try_choices(r, c, sh);
            if(o.failed && simpler(o.choices, best.choices)) {
                best = o;
                return true;
            }
            return false;
        };
        bool progress = true;
        while(progress && !out_of_time()) {
            progress = false;
            for(std::size_t chunk : {16u, 8u, 4u, 2u, 1u}) {
                for(std::size_t i = best.choices.size(); i-- > 0 && !out_of_time();) {
                    if(i + chunk > best.choices.size()) {
                        continue;
                    }
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + chunk);
                    if(attempt(c)) {
                        progress = true;
                        continue;
                    }
                    // deleting an element often goes with lowering a preceding length
                    if(i > 0 && best.choices[i - 1] > 0) {
                        c[i - 1] -= 1;
                        progress = attempt(c) || progress;
                    }
                }
            }
            for(std::size_t i = 0; i < best.choices.size() && !out_of_time(); ++i) {
                if(best.choices[i] == 0) {
                    continue;
                }
                auto c = best.choices;
                c[i]   = 0;
                if(attempt(c)) {
                    progress = true;
                    continue;
                }
                // binary search for the smallest failing value
                std::uint64_t lo = 0;
                while(i < best.choices.size() && lo + 1 < best.choices[i] && !out_of_time()) {
                    c                       = best.choices;
                    const std::uint64_t mid = lo + (best.choices[i] - lo) / 2;
                    c[i]                    = mid;
                    if(attempt(c)) {
                        progress = true;
                    } else {
                        lo = mid;
                    }
                }
                if(i < best.choices.size() && best.choices[i] > 0) {
                    c    = best.choices;
                    c[i] = best.choices[i] - 1;
                    progress = attempt(c) || progress;
                }
            }
        }
        return best;
    }

    struct Stats {
        std::uint64_t cases = 0, discarded = 0, nontrivial = 0;
        std::unordered_set<std::uint64_t> distinct;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
    };

    inline int usage()
    {
        std::cerr << "usage: --seed S --cases N --workers W --time-cap SEC --stats FILE --replay-out FILE\n"
                     "       [--relation NAME] | --replay FILE | --list\n";
        return 2;
    }

    inline bool write_replay(const std::string& path, const std::string& prop, const Relation& r, const Outcome& o)
    {
        std::ofstream f(path);
        f << "property " << prop << "\nrelation " << r.name << "\nchoices";
        for(auto c : o.choices) {
            f << ' ' << c;
        }
        std::string m = o.msg, d = o.desc;
        std::replace(m.begin(), m.end(), '\n', ' ');
        f << "\nmessage " << m << "\ninput " << d << "\n";
        return bool(f);
    }

    // a cap on the memory of one worker, so that a runaway allocation fails the case only
    inline void limit_memory()
    {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
        rlimit rl{4ull << 30, 4ull << 30};
        setrlimit(RLIMIT_AS, &rl);
#endif
    }

    inline int main(int argc, char** argv)
    {
        std::uint64_t seed = 1, cases = 1000;
        unsigned workers = 4;
        double time_cap = 60, shrink_cap = 40;
        std::string stats_path, replay_out, replay, only, prop = "?";
        for(int i = 1; i < argc; ++i) {
            const std::string a = argv[i];
            auto next           = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if(a == "--seed") {
                seed = std::strtoull(next().c_str(), nullptr, 10);
            } else if(a == "--cases") {
                cases = std::strtoull(next().c_str(), nullptr, 10);
            } else if(a == "--workers") {
                workers = std::max(1, std::atoi(next().c_str()));
            } else if(a == "--time-cap") {
                time_cap = std::atof(next().c_str());
            } else if(a == "--shrink-cap") {
                shrink_cap = std::atof(next().c_str());
            } else if(a == "--case-cpu") {
                g_case_cpu = std::atoi(next().c_str());
            } else if(a == "--stats") {
                stats_path = next();
            } else if(a == "--replay-out") {
                replay_out = next();
            } else if(a == "--replay") {
                replay = next();
            } else if(a == "--relation") {
                only = next();
            } else if(a == "--property") {
                prop = next();
            } else if(a == "--list") {
                for(const auto& r : relations()) {
                    std::cout << r.name << "\n";
                }
                return 0;
            } else {
                return usage();
            }
        }
        Shared* sh          = make_shared_block();
        int campaign_worker = -1;

        if(!replay.empty()) {
            std::ifstream f(replay);
            std::string line, rel;
            std::vector<std::uint64_t> ch;
            while(std::getline(f, line)) {
                std::istringstream is(line);
                std::string key;
                is >> key;
                if(key == "relation") {
                    std::getline(is >> std::ws, rel); // names of relations contain spaces
                } else if(key == "campaign") {
                    is >> seed >> cases >> workers >> campaign_worker;
                    std::getline(is >> std::ws, only);
                    if(only == "-") {
                        only.clear();
                    }
                } else if(key == "choices") {
                    std::uint64_t c;
                    while(is >> c) {
                        ch.push_back(c);
                    }
                }
            }
            for(const auto& r : relations()) {
                if(campaign_worker < 0 && r.name == rel) {
                    Outcome o = try_choices(r, ch, sh, true);
                    std::cout << "relation " << rel << "\ninput " << o.desc << "\n"
                              << (o.failed ? "FAILED: " + o.msg : std::string("passed")) << "\n";
                    return o.failed ? 1 : 0;
                }
            }
            if(campaign_worker < 0) {
                std::cerr << "no such relation: " << rel << "\n";
                return 2;
            }
        }

        unsigned total_weight = 0;
        for(const auto& r : relations()) {
            if(only.empty() || r.name == only) {
                total_weight += r.weight;
            }
        }
        if(total_weight == 0) {
            return usage();
        }

        const auto t0 = std::chrono::steady_clock::now();
        auto elapsed  = [&]() {
            return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        };

        struct Worker {
            pid_t pid = -1;
            int fd    = -1;
            Shared* sh = nullptr;
            std::string buf;
            bool done = false;
            int ws    = 0;
        };
        std::vector<Worker> ws(workers);
        struct Found {
            std::size_t rel;
            unsigned worker;
            Outcome o;
        };
        std::vector<Found> found;

        // the campaign of worker w: a pure function of (seed, cases, workers, w)
        auto run_worker = [&](unsigned w, Shared* wsh, std::map<std::size_t, Stats>& stats) -> int {
            int rc = 0;
            // interleave relations so that a time cap cuts all of them evenly
            std::vector<std::uint64_t> budget(relations().size(), 0), done_(relations().size(), 0);
            std::uint64_t maxb = 0;
            for(std::size_t k = 0; k < relations().size(); ++k) {
                const auto& r = relations()[k];
                if(only.empty() || r.name == only) {
                    const std::uint64_t tot = std::max<std::uint64_t>(1, cases * r.weight / total_weight);
                    budget[k]               = tot / workers + (w < tot % workers ? 1 : 0);
                    maxb                    = std::max(maxb, budget[k]);
                }
            }
            const std::uint64_t rounds = 64;
            bool stop                  = false;
            for(std::uint64_t round = 0; round < rounds && !stop; ++round) {
                for(std::size_t k = 0; k < relations().size() && !stop; ++k) {
                    const auto& r           = relations()[k];
                    Stats& st               = stats[k];
                    const std::uint64_t end = budget[k] * (round + 1) / rounds;
                    for(; done_[k] < end && !stop; ++done_[k]) {
                        const std::uint64_t i = done_[k];
                        std::uint64_t x       = seed * 0x9E3779B97F4A7C15ull ^ hash_str(r.name)
                                          ^ ((i * workers + w) * 0xD1B54A32D192ED03ull);
                        const std::uint64_t cs = splitmix(x);
                        const double size      = budget[k] <= 1 ? 1. : 0.02 + 0.98 * ((i * 37) % budget[k]) / (budget[k] - 1);
                        wsh->index        = k;
                        Src s(cs, size, wsh);
                        arm(g_case_cpu);
                        const int status = run_case(r, s, wsh);
                        arm(0);
                        if(status == 2) {
                            rc   = 1;
                            stop = true;
                            break;
                        }
                        if(status == 3) {
                            ++st.discarded;
                            continue;
                        }
                        ++st.cases;
                        for(const auto& l : s.labels()) {
                            ++st.labels[l];
                        }
                        if(s.is_nontrivial()) {
                            ++st.nontrivial;
                            st.distinct.insert(s.hash());
                            if(st.samples.size() < 3 && w == 0 && (i % 7) == 3) {
                                st.samples.push_back(s.desc().substr(0, 400));
                            }
                        }
                        if((i & 7) == 0 && elapsed() > time_cap) {
                            stop = true;
                        }
                    }
                }
            }
            return rc;
        };

        if(campaign_worker >= 0) {
            const pid_t pid = fork();
            if(pid == 0) {
                limit_memory();
#if defined(PBT_SCHEDULES) && defined(__SANITIZE_THREAD__)
                __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<long>(open("/dev/null", O_WRONLY))));
#endif
                signal(SIGPROF, on_prof);
                std::map<std::size_t, Stats> st;
                _exit(run_worker(static_cast<unsigned>(campaign_worker), sh, st));
            }
            int wst = 0;
            while(waitpid(pid, &wst, 0) < 0) {
            }
            const bool bad = !WIFEXITED(wst) || WEXITSTATUS(wst) != 0;
            std::cout << "campaign of worker " << campaign_worker << (bad ? " FAILED: " : " passed ") << (bad ? sh->msg : "") << "\n";
            return bad ? 1 : 0;
        }

        for(unsigned w = 0; w < workers; ++w) {
            int p[2];
            if(pipe(p) != 0) {
                perror("pipe");
                return 2;
            }
            ws[w].sh = make_shared_block();
            fflush(stdout);
            const pid_t pid = fork();
            if(pid == 0) {
                close(p[0]);
                limit_memory();
#if defined(PBT_SCHEDULES) && defined(__SANITIZE_THREAD__)
                __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<long>(open("/dev/null", O_WRONLY))));
#endif
                signal(SIGPROF, on_prof);
                std::map<std::size_t, Stats> stats;
                const int rc = run_worker(w, ws[w].sh, stats);
                // report: binary-safe text protocol
                FILE* f = fdopen(p[1], "w");
                for(const auto& kv : stats) {
                    const Stats& st = kv.second;
                    fprintf(f, "R %zu %llu %llu %llu\n", kv.first, (unsigned long long)st.cases,
                            (unsigned long long)st.discarded, (unsigned long long)st.nontrivial);
                    for(auto h : st.distinct) {
                        fprintf(f, "D %zu %llx\n", kv.first, (unsigned long long)h);
                    }
                    for(const auto& l : st.labels) {
                        fprintf(f, "L %zu %llu %s\n", kv.first, (unsigned long long)l.second, l.first.c_str());
                    }
                    for(auto sm : st.samples) {
                        std::replace(sm.begin(), sm.end(), '\n', ' ');
                        fprintf(f, "S %zu %s\n", kv.first, sm.c_str());
                    }
                }
                fprintf(f, "E\n");
                fclose(f);
                _exit(rc);
            }
            close(p[1]);
            ws[w].pid = pid;
            ws[w].fd  = p[0];
        }

        std::map<std::size_t, Stats> all;
        // read all pipes (each worker writes only at its end)
        for(unsigned w = 0; w < workers; ++w) {
            auto& wk = ws[w];
            char b[65536];
            ssize_t n;
            while((n = read(wk.fd, b, sizeof b)) != 0) {
                if(n < 0) {
                    if(errno == EINTR) {
                        continue;
                    }
                    break;
                }
                wk.buf.append(b, n);
            }
            close(wk.fd);
            while(waitpid(wk.pid, &wk.ws, 0) < 0) {
            }
            bool complete = false;
            std::istringstream is(wk.buf);
            std::string line;
            while(std::getline(is, line)) {
                if(line == "E") {
                    complete = true;
                    break;
                }
                std::istringstream ls(line);
                std::string t;
                std::size_t k;
                ls >> t >> k;
                Stats& st = all[k];
                if(t == "R") {
                    std::uint64_t a, b2, c;
                    ls >> a >> b2 >> c;
                    st.cases += a;
                    st.discarded += b2;
                    st.nontrivial += c;
                } else if(t == "D") {
                    std::string h;
                    ls >> h;
                    st.distinct.insert(std::strtoull(h.c_str(), nullptr, 16));
                } else if(t == "L") {
                    std::uint64_t a;
                    std::string l;
                    ls >> a;
                    std::getline(ls, l);
                    st.labels[l.substr(l.empty() ? 0 : 1)] += a;
                } else if(t == "S") {
                    std::string l;
                    std::getline(ls, l);
                    st.samples.push_back(l.substr(l.empty() ? 0 : 1));
                }
            }
            const bool ok = complete && WIFEXITED(wk.ws) && WEXITSTATUS(wk.ws) == 0;
            if(!ok) {
                // the case in shared memory is the failing one
                Found f;
                f.rel    = wk.sh->index;
                f.worker = w;
                f.o.msg  = wk.sh->status == 2 ? wk.sh->msg : "worker died";
                f.o.desc = wk.sh->desc;
                f.o.choices.assign(wk.sh->choices, wk.sh->choices + wk.sh->n_choices);
                found.push_back(f);
            }
        }

        int rc = 0;
        std::string viol_msg;
        unsigned unreproduced = 0;
        for(auto& f : found) {
            const auto& r = relations()[f.rel];
            Outcome o     = try_choices(r, f.o.choices, sh);
            if(!o.failed) {
                o = try_choices(r, f.o.choices, sh); // a schedule-dependent failure may need more runs
                for(int k = 0; k < 20 && !o.failed; ++k) {
                    o = try_choices(r, f.o.choices, sh);
                }
            }
            if(!o.failed) {
                // the case alone passes: the failure needs what earlier cases of this process left
                // behind (static state).  Run the same campaign again; it is deterministic.
                const pid_t pid = fork();
                if(pid == 0) {
                    limit_memory();
                    signal(SIGPROF, on_prof);
                    std::map<std::size_t, Stats> st;
                    _exit(run_worker(f.worker, sh, st));
                }
                int wst = 0;
                while(waitpid(pid, &wst, 0) < 0) {
                }
                std::vector<std::uint64_t> again(sh->choices, sh->choices + sh->n_choices);
                if((!WIFEXITED(wst) || WEXITSTATUS(wst) != 0) && sh->index == f.rel && again == f.o.choices) {
                    std::cout << "failing history ending in a case of " << r.name << ": " << f.o.msg
                              << "\ninput of the last case: " << f.o.desc << "\n";
                    if(!replay_out.empty()) {
                        std::ofstream rf(replay_out);
                        rf << "property " << prop << "\ncampaign " << seed << ' ' << cases << ' ' << workers << ' '
                           << f.worker << ' ' << (only.empty() ? "-" : only) << "\nmessage fails only after the earlier cases of the campaign: " << f.o.msg << "\ninput " << f.o.desc << "\n";
                    }
                    viol_msg = r.name + " (history of cases): " + f.o.msg;
                    rc       = 1;
                    break;
                }
                ++unreproduced;
                std::cout << "note: a failing case of " << r.name << " did not fail again: " << f.o.msg << "\n";
                continue;
            }
            std::cout << "failing case of relation " << r.name << ": " << o.msg << "\n";
            Outcome b = shrink(r, o, sh, shrink_cap);
            std::cout << "shrunk to " << b.choices.size() << " choices: " << b.msg << "\ninput: " << b.desc << "\n";
            if(!replay_out.empty()) {
                write_replay(replay_out, prop, r, b);
            }
            viol_msg = r.name + ": " + b.msg;
            rc       = 1;
            break;
        }
        if(rc == 0 && unreproduced) {
            rc = 3;
        }

        if(!stats_path.empty()) {
            std::ofstream o(stats_path);
            o << "{\"elapsed\": " << elapsed() << ", \"relations\": [";
            bool first = true;
            for(std::size_t k = 0; k < relations().size(); ++k) {
                if(!only.empty() && relations()[k].name != only) {
                    continue;
                }
                const Stats& st = all[k];
                o << (first ? "" : ",") << "\n {\"name\": \"" << json_escape(relations()[k].name) << "\", \"rule\": \""
                  << json_escape(relations()[k].rule) << "\", \"cases\": " << st.cases
                  << ", \"discarded\": " << st.discarded << ", \"nontrivial\": " << st.nontrivial
                  << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"labels\": {";
                bool f2 = true;
                for(const auto& l : st.labels) {
                    o << (f2 ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
                    f2 = false;
                }
                o << "}, \"samples\": [";
                f2 = true;
                for(const auto& sm : st.samples) {
                    o << (f2 ? "" : ", ") << "\"" << json_escape(sm) << "\"";
                    f2 = false;
                }
                o << "]}";
                first = false;
            }
            o << "\n], \"violation\": \"" << json_escape(viol_msg) << "\"}\n";
        }
        return rc;
    }
} // namespace pbt

#ifdef PBT_FUZZ
// libFuzzer entry: the bytes become the choice sequence of the relation named by PBT_RELATION
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t n)
{
    static pbt::Shared* sh        = new pbt::Shared();
    static const pbt::Relation* r = nullptr;
    if(!r) {
        const char* want = std::getenv("PBT_RELATION");
        for(const auto& x : pbt::relations()) {
            if(!want || x.name == want) {
                r = &x;
                break;
            }
        }
        if(!r) {
            std::abort();
        }
    }
    std::vector<std::uint64_t> c;
    // one selector byte, then 1, 2, 4 or 8 little-endian value bytes
    std::size_t i = 0;
    while(i < n && c.size() < 4096) {
        const unsigned len = 1u << (data[i] & 3);
        std::uint64_t v    = 0;
        ++i;
        for(unsigned k = 0; k < len && i < n; ++k, ++i) {
            v |= std::uint64_t(data[i]) << (8 * k);
        }
        c.push_back(v);
    }
    pbt::Src s(c, sh);
    if(pbt::run_case(*r, s, sh) == 2) {
        const char* out = std::getenv("PBT_REPLAY_OUT");
        if(out) {
            pbt::Outcome o;
            o.choices.assign(sh->choices, sh->choices + sh->n_choices);
            o.msg  = sh->msg;
            o.desc = sh->desc;
            pbt::write_replay(out, "?", *r, o);
        }
        std::cerr << "relation failed: " << sh->msg << "\n";
        std::abort();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
#endif
