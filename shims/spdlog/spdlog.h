// Stand-in for spdlog (absent here): loggers that format "{}" and write to the given sinks.
#ifndef VERIF_SHIM_SPDLOG_HPP
#define VERIF_SHIM_SPDLOG_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace spdlog
{
    namespace sinks
    {
        struct sink {
            virtual ~sink() = default;
            virtual void log(const std::string&) {}
            virtual void flush() {}
        };
        struct stderr_sink_mt : sink {
        };
        struct stdout_sink_mt : sink {
        };
        struct simple_file_sink_mt : sink {
            std::ofstream f;
            simple_file_sink_mt(const std::string& path, bool = false) : f(path) {}
            void log(const std::string& s) override { f << s << std::endl; }
            void flush() override { f.flush(); }
        };
    } // namespace sinks
    using sink_ptr = std::shared_ptr<sinks::sink>;
    class logger
    {
        std::vector<sink_ptr> _sinks;
        static void put(std::ostream& os, const std::string& spec, double v) { number(os, spec, v); }
        static void put(std::ostream& os, const std::string& spec, float v) { number(os, spec, v); }
        static void put(std::ostream& os, const std::string& spec, bool v)
        {
            if(!spec.empty()) throw std::runtime_error("format specifier");
            os << (v ? "true" : "false");
        }
        template <typename T>
        static void put(std::ostream& os, const std::string& spec, const T& v)
        {
            if(!spec.empty()) throw std::runtime_error("format specifier");
            os << v;
        }
        static void number(std::ostream& os, const std::string& spec, double v)
        {
            char buf[400];
            for(char c : spec)
                if(!std::strchr("0123456789.+-efgEFG", c)) throw std::runtime_error("format specifier");
            const bool type = !spec.empty() && std::strchr("efgEFG", spec.back());
            std::snprintf(buf, sizeof buf, ("%" + spec + (type ? "" : "g")).c_str(), v);
            os << buf;
        }
        // one replacement field: its number in the list of arguments, or a complaint
        static void pick(std::ostream&, const std::string&, std::size_t) { throw std::runtime_error("argument index out of range"); }
        template <typename T, typename... Ts>
        static void pick(std::ostream& os, const std::string& spec, std::size_t n, const T& t, const Ts&... ts)
        {
            if(n)
                pick(os, spec, n - 1, ts...);
            else
                put(os, spec, t);
        }
        // "{}", "{0}", "{:spec}", "{0:spec}", "{{" and "}}"
        template <typename... Ts>
        static void fmt(std::ostream& os, const char* f, const Ts&... ts)
        {
            std::size_t next = 0;
            for(; *f; ++f) {
                if(*f == '}') {
                    if(*++f != '}') throw std::runtime_error("unmatched '}' in format");
                    os << '}';
                } else if(*f == '{' && f[1] == '{') {
                    os << '{';
                    ++f;
                } else if(*f == '{') {
                    const char* e = std::strchr(f, '}');
                    if(!e) throw std::runtime_error("invalid format string");
                    const std::string field(f + 1, e);
                    const auto colon = field.find(':');
                    const auto id    = field.substr(0, colon);
                    if(id.find_first_not_of("0123456789") != std::string::npos) throw std::runtime_error("invalid format string");
                    pick(os, colon == std::string::npos ? "" : field.substr(colon + 1), id.empty() ? next++ : std::strtoul(id.c_str(), nullptr, 10), ts...);
                    f = e;
                } else
                    os << *f;
            }
        }
        void write(const std::string& text)
        {
            for(auto& s : _sinks)
                if(s) s->log(text);
        }

    public:
        template <typename It>
        logger(const std::string&, It b, It e) : _sinks(b, e)
        {
        }
        logger(const std::string&, sink_ptr s) : _sinks{s} {}
        // without arguments the text is written as it is; a record that cannot be formatted is lost
        void info(const char* f) { write(f); }
        template <typename T, typename... Ts>
        void info(const char* f, const T& t, const Ts&... ts)
        {
            std::ostringstream os;
            try {
                fmt(os, f, t, ts...);
            } catch(const std::exception& e) {
                std::cerr << "[*** LOG ERROR ***] " << e.what() << std::endl;
                return;
            }
            write(os.str());
        }
        template <typename T>
        void info(const T& t)
        {
            std::ostringstream os;
            os << t;
            write(os.str());
        }
        template <typename... Ts>
        void warn(const char* f, const Ts&... ts) { info(f, ts...); }
        template <typename... Ts>
        void error(const char* f, const Ts&... ts) { info(f, ts...); }
        template <typename... Ts>
        void debug(const char* f, const Ts&... ts) { info(f, ts...); }
        void flush()
        {
            for(auto& s : _sinks) s->flush();
        }
    };
    inline void set_pattern(const std::string&) {}
    inline void drop_all() {}
    inline void register_logger(std::shared_ptr<logger>) {}
} // namespace spdlog
#endif
