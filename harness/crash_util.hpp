// Death of the process at a chosen point of its file operations.
#ifndef VERIF_CRASH_UTIL_HPP
#define VERIF_CRASH_UTIL_HPP
#include <cstdint>
#include <cstdio>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

// The process dies at a chosen point of its file operations. Renames, opens, closes and writes are the
// points; a write can also be torn.
static bool armed       = false;
static uint64_t point   = 0; // points passed
static uint64_t kill_at = 0;
static void crash_point(int fd = -1, const void* p = nullptr, std::size_t n = 0)
{
    if(!armed) return;
    const uint64_t here = point;
    point += n ? 3 : 1;
    if(kill_at < here || kill_at >= point) return;
    const uint64_t part = n * (kill_at - here) / 3; // nothing, a third or two thirds of a write
    if(part) ::syscall(SYS_write, fd, p, part);
    ::_exit(42);
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if(fd > 2) crash_point(fd, p, n);
    return ::syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if(fd > 2)
        for(int i = 0; i < c; ++i) {
            // one after the other, so that the file can be torn between them
            if(!v[i].iov_len) continue;
            crash_point(fd, v[i].iov_base, v[i].iov_len);
            if(armed) {
                ssize_t r = ::syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len), s = 0;
                (void)r;
                for(int j = 0; j <= i; ++j) s += v[j].iov_len;
                bool more = false;
                for(int j = i + 1; j < c; ++j) more = more || v[j].iov_len;
                if(!more) return s;
            }
        }
    return ::syscall(SYS_writev, fd, v, c);
}
extern "C" int rename(const char* a, const char* b) noexcept
{
    crash_point();
    const int r = ::syscall(SYS_rename, a, b);
    crash_point();
    return r;
}
extern "C" FILE* fopen(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen");
    crash_point();
    FILE* r = real(p, m);
    crash_point();
    return r;
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen64");
    crash_point();
    FILE* r = real(p, m);
    crash_point();
    return r;
}
#endif
