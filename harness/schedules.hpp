// An OpenMP run time that the harness controls, in place of libgomp: the members of a team are threads of their own
// that run either all at once - created and joined by pthreads, so that ThreadSanitizer sees what the
// program orders and what it does not, whatever the real timing - or one at a time in an arbitrary order, changing
// where OpenMP allows it. A team may be smaller than omp_get_max_threads() promises at most.
#ifndef VERIF_SCHEDULES_HPP_
#define VERIF_SCHEDULES_HPP_
#include <omp.h>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <dlfcn.h>
#include <sstream>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <vector>

namespace schedules
{
    enum class Mode { Concurrent, OneAtATime };
    struct Team;
    struct Control {
        Mode mode          = Mode::Concurrent;
        int max_threads    = 4;
        int limit          = 1 << 20; // of the members of a team
        std::uint64_t seed = 0;
        unsigned regions = 0, widest = 0; // parallel regions with more than one thread; the most members
        bool loud = true;
    };
    // number of races and the trace of the first one. Written from within a report: nothing there may be
    // instrumented or intercepted (reports come one at a time)
    static volatile int races = 0;
    static void* volatile trace[24];

    inline Control& control()
    {
        static Control c = []() {
            Control r;
            if(const char* n = std::getenv("OMP_NUM_THREADS")) {
                r.max_threads = std::max(1, std::atoi(n));
            }
            char mode[16];
            unsigned long long seed = 0;
            int limit = 0;
            const char* e = std::getenv("VERIF_SCHEDULE");
            if(e != nullptr && std::sscanf(e, "%15s %llu %d", mode, &seed, &limit) == 3) {
                r.mode  = mode[0] == 'o' ? Mode::OneAtATime : Mode::Concurrent;
                r.seed  = seed;
                r.limit = limit;
            }
            return r;
        }();
        return c;
    }

    // the place of the first race in the library
    inline std::string where()
    {
        Dl_info self;
        if(dladdr(reinterpret_cast<void*>(&control), &self) == 0) {
            return "?";
        }
        std::ostringstream command;
        command << "addr2line -i -e /proc/" << getpid() << "/exe";
        for(void* pc : trace) {
            if(pc == nullptr) {
                break;
            }
            command << ' ' << std::hex << "0x" << static_cast<char*>(pc) - static_cast<char*>(self.dli_fbase) - 1;
        }
        command << " 2>/dev/null";
        std::string r = "?";
        if(FILE* f = popen(command.str().c_str(), "r")) {
            char line[512];
            while(std::fgets(line, sizeof line, f) != nullptr) {
                const std::string l(line, std::strcspn(line, "\n"));
                const auto p = l.find("/ieompp/"), q = l.find("/src/hubbard/");
                if(r == "?" && (p != std::string::npos || q != std::string::npos)) {
                    r = l.substr(p != std::string::npos ? p + 1 : q + 1);
                }
            }
            pclose(f);
        }
        return r;
    }

    static const int SHARES = 256;
    struct Team {
        int size;
        Mode mode;
        std::atomic<long> next[SHARES]; // of each work-sharing construct: the next chunk
        pthread_barrier_t barrier;
        // one at a time
        pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
        pthread_cond_t wake  = PTHREAD_COND_INITIALIZER;
        std::uint64_t seed;
        int turn = -1;
        std::vector<int> state; // 0 runnable, 1 at the barrier, 2 finished

        explicit Team(int n, Mode m, std::uint64_t s) : size(n), mode(m), seed(s), state(n, 0)
        {
            for(auto& x : next) {
                x.store(0, std::memory_order_relaxed);
            }
            pthread_barrier_init(&barrier, nullptr, n);
        }
        ~Team() { pthread_barrier_destroy(&barrier); }
        // with the lock: choose who runs
        void pass()
        {
            std::vector<int> can;
            for(int i = 0; i < size; ++i) {
                if(state[i] == 0) {
                    can.push_back(i);
                }
            }
            if(can.empty()) { // all are at the barrier or done
                for(int i = 0; i < size; ++i) {
                    if(state[i] == 1) {
                        state[i] = 0;
                        can.push_back(i);
                    }
                }
            }
            if(can.empty()) {
                turn = -1;
            } else {
                seed += 0x9e3779b97f4a7c15ull;
                std::uint64_t z = seed;
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
                turn = can[(z ^ (z >> 31)) % can.size()];
            }
            pthread_cond_broadcast(&wake);
        }
        void wait(int me)
        {
            while(turn != me) {
                pthread_cond_wait(&wake, &lock);
            }
        }
        void begin(int me)
        {
            if(mode == Mode::OneAtATime) {
                pthread_mutex_lock(&lock);
                wait(me);
                pthread_mutex_unlock(&lock);
            }
        }
        void yield(int me, int s = 0)
        {
            if(mode == Mode::OneAtATime && size > 1) {
                pthread_mutex_lock(&lock);
                state[me] = s;
                pass();
                if(s != 2) {
                    wait(me);
                }
                pthread_mutex_unlock(&lock);
            }
        }
    };
    struct Member {
        Team* team = nullptr;
        int number = 0, share = 0;
        bool up = true;
        std::uint64_t start = 0, incr = 0, chunk = 1, count = 0, step = 0;
    };
    inline Member& me()
    {
        static thread_local Member m;
        return m;
    }
    struct Start {
        void (*fn)(void*);
        void* data;
        Team* team;
        int number;
    };
    inline void work(const Start& s)
    {
        const Member before = me();
        me()                = Member();
        me().team           = s.team;
        me().number         = s.number;
        s.team->begin(s.number);
        s.fn(s.data);
        s.team->yield(s.number, 2);
        me() = before;
    }
    inline void* entry(void* p)
    {
        work(*static_cast<Start*>(p));
        return nullptr;
    }
    inline void parallel(void (*fn)(void*), void* data, unsigned threads, const Member* loop = nullptr);

    // the iterations of the next chunk of a loop
    inline bool next(long& from, long& to)
    {
        Member& m = me();
        if(m.team != nullptr) {
            m.team->yield(m.number);
        }
        static thread_local std::atomic<long> alone{0};
        if(m.team == nullptr && m.step == 0) {
            alone = 0;
        }
        std::atomic<long>& counter = m.team ? m.team->next[m.share % SHARES] : alone;
        const std::uint64_t c      = counter.fetch_add(1, std::memory_order_relaxed);
        ++m.step;
        if(c * m.chunk >= m.count) {
            return false;
        }
        const std::uint64_t last = std::min(m.count, (c + 1) * m.chunk);
        from = static_cast<long>(m.start + c * m.chunk * m.incr);
        to   = static_cast<long>(m.start + last * m.incr);
        return true;
    }
    inline void loop(long start, long end, long incr, long chunk)
    {
        Member& m = me();
        ++m.share;
        m.step  = 0;
        m.start = static_cast<std::uint64_t>(start);
        m.incr  = static_cast<std::uint64_t>(incr);
        m.chunk = chunk > 0 ? static_cast<std::uint64_t>(chunk) : 1;
        m.count = incr > 0 ? (end > start ? (static_cast<std::uint64_t>(end) - start + incr - 1) / incr : 0) : (start > end ? (static_cast<std::uint64_t>(start) - end - incr - 1) / static_cast<std::uint64_t>(-incr) : 0);
    }
    inline void loop_ull(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk)
    {
        Member& m = me();
        ++m.share;
        m.step  = 0;
        m.start = start;
        m.incr  = incr;
        m.chunk = chunk > 0 ? chunk : 1;
        m.count = up ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end + (-incr) - 1) / (-incr) : 0);
    }
    inline void barrier()
    {
        Member& m = me();
        if(m.team == nullptr || m.team->size == 1) {
            return;
        }
        if(m.team->mode == Mode::Concurrent) {
            pthread_barrier_wait(&m.team->barrier);
        } else {
            m.team->yield(m.number, 1);
        }
    }
    inline pthread_mutex_t& global_lock()
    {
        static pthread_mutex_t l = PTHREAD_MUTEX_INITIALIZER;
        return l;
    }
    // (one at a time: nobody changes inside a critical section)
    inline void enter(pthread_mutex_t& l)
    {
        if(me().team != nullptr) {
            me().team->yield(me().number);
        }
        pthread_mutex_lock(&l);
    }

    inline void parallel(void (*fn)(void*), void* data, unsigned threads, const Member* first)
    {
        Control& c = control();
        int n      = threads ? static_cast<int>(threads) : c.max_threads;
        n          = std::max(1, std::min(n, c.limit));
        if(me().team != nullptr) {
            n = 1; // nested
        }
        if(n > 1) {
            ++c.regions;
            c.widest = std::max(c.widest, static_cast<unsigned>(n));
        }
        if(n > 1) {
            c.seed = c.seed * 6364136223846793005ull + 1442695040888963407ull;
        }
        Team team(n, c.mode, c.seed);
        if(n > 1 && c.mode == Mode::OneAtATime) {
            team.pass();
        } else if(n == 1) {
            team.turn = 0;
        }
        struct Loop {
            void (*fn)(void*);
            void* data;
            const Member* first;
        } with{fn, data, first};
        const auto body = [](void* p) {
            const Loop& l = *static_cast<Loop*>(p);
            if(l.first != nullptr) {
                Member& m = me();
                m.share = 1;
                m.start = l.first->start;
                m.incr  = l.first->incr;
                m.chunk = l.first->chunk;
                m.count = l.first->count;
            }
            l.fn(l.data);
        };
        void (*run)(void*) = body;
        std::vector<Start> starts;
        for(int i = 0; i < n; ++i) {
            starts.push_back({run, &with, &team, i});
        }
        std::vector<pthread_t> t(n);
        for(int i = 1; i < n; ++i) {
            if(pthread_create(&t[i], nullptr, entry, &starts[i]) != 0) {
                std::fprintf(stderr, "no thread\n");
                std::abort();
            }
        }
        work(starts[0]);
        for(int i = 1; i < n; ++i) {
            pthread_join(t[i], nullptr);
        }
    }
} // namespace schedules

#ifdef PBT_PROGRAM // a program compiled with this file: the exit status after a data race
#define VERIF_RACE_STATUS "66"
#else
#define VERIF_RACE_STATUS "0"
#endif
extern "C" {
const char* __tsan_default_options() { return "halt_on_error=0:exitcode=" VERIF_RACE_STATUS ":report_signal_unsafe=0:die_after_fork=0:report_thread_leaks=0:history_size=2:symbolize=0:suppress_equal_stacks=0:suppress_equal_addresses=0"; }
#if defined(__SANITIZE_THREAD__)
int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long);
void __sanitizer_set_report_fd(void*);
__attribute__((no_sanitize("thread"))) void __tsan_on_report(void* report)
{
    schedules::races = schedules::races + 1;
    if(schedules::races == 1) {
        static int tid, size, write, atomic;
        static void *addr, *trace[24];
        __tsan_get_report_mop(report, 0, &tid, &addr, &size, &write, &atomic, trace, 24);
        for(int i = 0; i < 24; ++i) {
            schedules::trace[i] = trace[i];
        }
    }
}
#endif

int omp_get_thread_num() noexcept { return schedules::me().number; }
int omp_get_num_threads() noexcept { return schedules::me().team ? schedules::me().team->size : 1; }
int omp_get_max_threads() noexcept { return schedules::control().max_threads; }
int omp_in_parallel() noexcept { return schedules::me().team && schedules::me().team->size > 1; }
int omp_get_num_procs() noexcept { return 4; }
void omp_set_num_threads(int n) noexcept { schedules::control().max_threads = n > 0 ? n : 1; }
void omp_init_lock(omp_lock_t* l) noexcept { std::memset(l, 0, sizeof *l); }
void omp_destroy_lock(omp_lock_t*) noexcept {}
int omp_test_lock(omp_lock_t* l) noexcept { return __atomic_exchange_n(reinterpret_cast<int*>(l), 1, __ATOMIC_ACQUIRE) == 0; }
void omp_set_lock(omp_lock_t* l) noexcept
{
    while(!omp_test_lock(l)) {
        if(schedules::me().team) {
            schedules::me().team->yield(schedules::me().number);
        }
        sched_yield();
    }
}
void omp_unset_lock(omp_lock_t* l) noexcept { __atomic_store_n(reinterpret_cast<int*>(l), 0, __ATOMIC_RELEASE); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { schedules::parallel(fn, data, n); }
void GOMP_barrier() { schedules::barrier(); }
void GOMP_loop_end() { schedules::barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { schedules::barrier(); return false; }
void GOMP_critical_start() { schedules::enter(schedules::global_lock()); }
void GOMP_critical_end() { pthread_mutex_unlock(&schedules::global_lock()); }
void GOMP_critical_name_start(void** p)
{
    // one mutex for each name
    static pthread_mutex_t making = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_t* l            = static_cast<pthread_mutex_t*>(__atomic_load_n(p, __ATOMIC_ACQUIRE));
    if(l == nullptr) {
        pthread_mutex_lock(&making);
        l = static_cast<pthread_mutex_t*>(__atomic_load_n(p, __ATOMIC_ACQUIRE));
        if(l == nullptr) {
            l = new pthread_mutex_t;
            pthread_mutex_init(l, nullptr);
            __atomic_store_n(p, static_cast<void*>(l), __ATOMIC_RELEASE);
        }
        pthread_mutex_unlock(&making);
    }
    schedules::enter(*l);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(__atomic_load_n(p, __ATOMIC_ACQUIRE))); }
void GOMP_atomic_start() { schedules::enter(schedules::global_lock()); }
void GOMP_atomic_end() { pthread_mutex_unlock(&schedules::global_lock()); }
bool GOMP_single_start()
{
    schedules::Member& m = schedules::me();
    ++m.share;
    if(m.team == nullptr) {
        return true;
    }
    m.team->yield(m.number);
    return m.team->next[m.share % schedules::SHARES].fetch_add(1, std::memory_order_relaxed) == 0;
}
unsigned GOMP_sections_start(unsigned count)
{
    schedules::loop(1, static_cast<long>(count) + 1, 1, 1);
    long a, b;
    return schedules::next(a, b) ? static_cast<unsigned>(a) : 0;
}
unsigned GOMP_sections_next()
{
    long a, b;
    return schedules::next(a, b) ? static_cast<unsigned>(a) : 0;
}
void GOMP_sections_end() { schedules::barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    schedules::Member m;
    m.start = 1;
    m.incr  = 1;
    m.count = count;
    schedules::parallel(fn, data, n, &m);
}
#define VERIF_LOOP(kind)                                                                                     \
    bool GOMP_loop_##kind##_start(long start, long end, long incr, long chunk, long* a, long* b)             \
    {                                                                                                        \
        schedules::loop(start, end, incr, chunk);                                                            \
        return schedules::next(*a, *b);                                                                      \
    }                                                                                                        \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return schedules::next(*a, *b); }                       \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b) \
    {                                                                                                        \
        schedules::loop_ull(up, start, end, incr, chunk);                                                    \
        return schedules::next(reinterpret_cast<long&>(*a), reinterpret_cast<long&>(*b));                    \
    }                                                                                                        \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return schedules::next(reinterpret_cast<long&>(*a), reinterpret_cast<long&>(*b)); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned) \
    {                                                                                                        \
        const schedules::Member before = schedules::me();                                                    \
        schedules::loop(start, end, incr, chunk);                                                            \
        const schedules::Member m = schedules::me();                                                         \
        schedules::me()           = before;                                                                  \
        schedules::parallel(fn, data, n, &m);                                                                \
    }
VERIF_LOOP(static)
VERIF_LOOP(dynamic)
VERIF_LOOP(guided)
VERIF_LOOP(nonmonotonic_dynamic)
VERIF_LOOP(nonmonotonic_guided)
#undef VERIF_LOOP
#define VERIF_LOOP(kind)                                                                                     \
    bool GOMP_loop_##kind##_start(long start, long end, long incr, long* a, long* b)                         \
    {                                                                                                        \
        schedules::loop(start, end, incr, 1);                                                                \
        return schedules::next(*a, *b);                                                                      \
    }                                                                                                        \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return schedules::next(*a, *b); }                       \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long* a, unsigned long long* b) \
    {                                                                                                        \
        schedules::loop_ull(up, start, end, incr, 1);                                                        \
        return schedules::next(reinterpret_cast<long&>(*a), reinterpret_cast<long&>(*b));                    \
    }                                                                                                        \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return schedules::next(reinterpret_cast<long&>(*a), reinterpret_cast<long&>(*b)); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned) \
    {                                                                                                        \
        const schedules::Member before = schedules::me();                                                    \
        schedules::loop(start, end, incr, 1);                                                                \
        const schedules::Member m = schedules::me();                                                         \
        schedules::me()           = before;                                                                  \
        schedules::parallel(fn, data, n, &m);                                                                \
    }
VERIF_LOOP(runtime)
VERIF_LOOP(nonmonotonic_runtime)
VERIF_LOOP(maybe_nonmonotonic_runtime)
#undef VERIF_LOOP
// tasks are executed where they are created
void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
    std::vector<char> buffer(static_cast<std::size_t>(size + align));
    char* p = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(buffer.data()) + align - 1) / align * align);
    if(copy != nullptr) {
        copy(p, data);
    } else {
        std::memcpy(p, data, static_cast<std::size_t>(size));
    }
    fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
#endif
