// Stand-in for the old spdlog interface that the programs use (the installed spdlog has another
// one).  It discards the messages.
#ifndef VERIF_SPDLOG_SHIM_H_
#define VERIF_SPDLOG_SHIM_H_
#include <chrono>
#include <cstdint>
#include <fstream>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
namespace spdlog
{
    namespace level
    {
        enum level_enum { trace, debug, info, warn, err, critical, off };
    }
    struct sink {
        virtual ~sink() = default;
    };
    using sink_ptr = std::shared_ptr<sink>;
    namespace sinks
    {
        using spdlog::sink;
        struct stderr_sink_mt : sink {
        };
        struct stdout_sink_mt : sink {
        };
        struct stderr_sink_st : sink {
        };
        struct stdout_sink_st : sink {
        };
        struct simple_file_sink_mt : sink {
            simple_file_sink_mt(const std::string& path, bool = false) { std::ofstream(path.c_str()); } // empty
        };
        using simple_file_sink_st = simple_file_sink_mt;
    } // namespace sinks
    struct logger {
        std::string _name;

        template <typename I>
        logger(const std::string& name, I, I) : _name(name)
        {
        }
        logger(const std::string& name, std::initializer_list<sink_ptr>) : _name(name) {}
        logger(const std::string& name, sink_ptr) : _name(name) {}
        const std::string& name() const { return _name; }
        void set_level(level::level_enum) {}
        level::level_enum level() const { return level::info; }
        bool should_log(level::level_enum) const { return true; }
        void set_pattern(const std::string&) {}
        void flush_on(level::level_enum) {}
        void flush() {}
#define VERIF_LEVEL(name)                                                                           \
    template <typename T, typename... Ts>                                                           \
    void name(const T&, const Ts&...)                                                               \
    {                                                                                               \
    }
        VERIF_LEVEL(trace)
        VERIF_LEVEL(debug)
        VERIF_LEVEL(info)
        VERIF_LEVEL(notice)
        VERIF_LEVEL(warn)
        VERIF_LEVEL(error)
        VERIF_LEVEL(critical)
#undef VERIF_LEVEL
        template <typename T, typename... Ts>
        void log(level::level_enum, const T&, const Ts&...)
        {
        }
    };
    inline void set_level(level::level_enum) {}
    inline void set_pattern(const std::string&) {}
    inline void register_logger(std::shared_ptr<logger>) {}
    inline void drop_all() {}
} // namespace spdlog
#endif
