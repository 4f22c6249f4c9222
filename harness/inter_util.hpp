// Two processes whose file operations are interleaved as the explorer wants: each waits before every operation.
#ifndef VERIF_INTER_UTIL_HPP
#define VERIF_INTER_UTIL_HPP
#include "mc.hpp"

#include <csignal>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace inter
{
    static bool active = false;
    static int tell = -1, listen = -1;
    static bool apart[1024]; // files that nobody shares: devices
    static bool shared(int fd) { return fd > 2 && (fd >= 1024 || !apart[fd]); }
    // a process comes to its next operation
    static void turn()
    {
        if(!active) return;
        char c = 'o';
        if(::syscall(SYS_write, tell, &c, 1) != 1 || ::syscall(SYS_read, listen, &c, 1) != 1) ::_exit(99);
    }
    struct Process {
        pid_t pid    = -1;
        int in       = -1, out = -1, status = 0;
        bool ended   = false;
        uint64_t ops = 0;
        // starts it; it stops before its first operation
        void start(const std::function<int()>& body)
        {
            int up[2], down[2];
            std::fflush(nullptr);
            if(::pipe(up) || ::pipe(down)) std::abort();
            pid = ::fork();
            if(pid == 0) {
                ::close(up[0]);
                ::close(down[1]);
                tell   = up[1];
                listen = down[0];
                ::alarm(120);
                const struct rlimit none = {0, 0};
                ::setrlimit(RLIMIT_CORE, &none);
                const int null = ::open("/dev/null", O_RDWR);
                for(int i : {0, 1, 2}) ::dup2(null, i);
                active       = true;
                const int rc = body();
                std::fflush(nullptr);
                ::_exit(rc);
            }
            ::close(up[1]);
            ::close(down[0]);
            in  = up[0];
            out = down[1];
            next();
        }
        void next()
        {
            char c;
            if(::syscall(SYS_read, in, &c, 1) == 1) return;
            ended = true;
            ::waitpid(pid, &status, 0);
            ::close(in);
            ::close(out);
        }
        // lets it do up to n operations; false when it has ended
        bool go(uint64_t n)
        {
            for(; n && !ended; --n) {
                char c = 'g';
                ++ops;
                (void)!::syscall(SYS_write, out, &c, 1);
                next();
            }
            return !ended;
        }
        void kill()
        {
            if(ended) return;
            ::kill(pid, SIGKILL);
            ended = true;
            ::waitpid(pid, &status, 0);
            ::close(in);
            ::close(out);
        }
    };
    static FILE* opened(FILE* (*real)(const char*, const char*), const char* p, const char* m)
    {
        const bool device = std::string(p).compare(0, 5, "/dev/") == 0;
        if(!device) turn();
        FILE* f = real(p, m);
        if(f && ::fileno(f) < 1024) apart[::fileno(f)] = device;
        return f;
    }
} // namespace inter

extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if(inter::shared(fd)) inter::turn();
    return ::syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if(inter::shared(fd)) inter::turn();
    return ::syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if(inter::shared(fd)) inter::turn();
    return ::syscall(SYS_read, fd, p, n);
}
extern "C" int rename(const char* a, const char* b) noexcept
{
    inter::turn();
    return ::syscall(SYS_rename, a, b);
}
extern "C" int unlink(const char* a) noexcept
{
    inter::turn();
    return ::syscall(SYS_unlink, a);
}
extern "C" int remove(const char* a) noexcept
{
    static auto real = (int (*)(const char*))::dlsym(RTLD_NEXT, "remove");
    inter::turn();
    return real(a);
}
extern "C" int mkdir(const char* a, mode_t m) noexcept
{
    inter::turn();
    return ::syscall(SYS_mkdir, a, m);
}
extern "C" FILE* fopen(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen");
    return inter::opened(real, p, m);
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen64");
    return inter::opened(real, p, m);
}
#endif
