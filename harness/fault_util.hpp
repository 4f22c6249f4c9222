// Failures of the operating system at a chosen file operation: opening, writing, reading, closing, renaming.
#ifndef VERIF_FAULT_UTIL_HPP
#define VERIF_FAULT_UTIL_HPP
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fault
{
    // what happens at the point
    enum Mode {
        once,  // the operation fails, later ones succeed
        full,  // it fails, as do all later ones of its kind
        torn,  // half of a write gets through, it and all later ones fail then
        part,  // half of a transfer is done and reported: nothing is lost if the rest is transferred later
        signal // the call is interrupted by a signal and has to be repeated
    };
    inline bool harmless(Mode m) { return m == part || m == signal; }
    static bool armed     = false;
    static Mode mode      = once;
    static uint64_t point = 0, at = 0;
    static bool fired = false, failing = false, tail = false;
    static bool (*interesting)(const std::string& path) = nullptr;
    static void (*before_first)() = nullptr; // called before the first of those files is opened
    static void (*on_fire)() = nullptr; // called when the operation is struck
    static const int LAST = 1024;
    static bool watched[LAST], writer[LAST];

    enum What { open_, write_, read_, close_, rename_ };
    static What struck = open_;
    // is it the turn of this operation?
    static bool strike(What w)
    {
        if(!armed) return false;
        if(failing && (w == write_) == (struck == write_)) return w != close_ && w != read_;
        if(point++ != at) return false;
        struck = w;
        fired  = true;
        if(on_fire) on_fire();
        return true;
    }
    static bool watch(int fd) { return armed && fd > 2 && fd < LAST && watched[fd]; }
    // the result of a transfer of n bytes; -2: the system does it
    template <typename Part>
    ssize_t transfer(What w, std::size_t n, Part half)
    {
        if(tail) { // the rest of a torn write
            tail    = false;
            failing = true;
            errno   = ENOSPC;
            return -1;
        }
        if(!n || !strike(w)) return -2;
        switch(failing ? full : mode) {
        case part:
            if(n < 2) return -2;
            return half(n / 2);
        case signal: errno = EINTR; return -1;
        case torn:
            if(w == write_ && n >= 2) {
                tail = true;
                return half(n / 2);
            }
        // fallthrough
        case full: failing = true;
        // fallthrough
        default: errno = w == write_ ? ENOSPC : EIO; return -1;
        }
    }
    static FILE* opened(FILE* (*real)(const char*, const char*), const char* p, const char* m)
    {
        if(before_first && interesting(p)) {
            const auto f = before_first;
            before_first = nullptr;
            f();
        }
        if(!armed || !interesting(p)) return real(p, m);
        const bool w = m[0] != 'r' || std::strchr(m, '+');
        if(!harmless(mode) && strike(open_)) {
            if(mode == full || mode == torn) failing = true;
            errno = w ? ENOSPC : EACCES;
            return nullptr;
        }
        FILE* r = real(p, m);
        if(r && ::fileno(r) < LAST) {
            watched[::fileno(r)] = true;
            writer[::fileno(r)]  = w;
        }
        return r;
    }
} // namespace fault

extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if(fault::watch(fd)) {
        const ssize_t r = fault::transfer(fault::write_, n, [=](size_t h) { return ::syscall(SYS_write, fd, p, h); });
        if(r != -2) return r;
    }
    return ::syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if(fault::watch(fd)) {
        std::string all;
        for(int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        const ssize_t r = fault::transfer(fault::write_, all.size(), [&](size_t h) { return ::syscall(SYS_write, fd, all.data(), h); });
        if(r != -2) return r;
    }
    return ::syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if(fault::watch(fd)) {
        const ssize_t r = fault::transfer(fault::read_, n, [=](size_t h) { return ::syscall(SYS_read, fd, p, h); });
        if(r != -2) return r;
    }
    return ::syscall(SYS_read, fd, p, n);
}
extern "C" int fclose(FILE* f)
{
    static auto real = (int (*)(FILE*))::dlsym(RTLD_NEXT, "fclose");
    const int fd     = ::fileno(f);
    bool fail        = false;
    if(fault::watch(fd)) {
        // only of files that were written to
        fail = fault::writer[fd] && !fault::harmless(fault::mode) && fault::strike(fault::close_);
        fault::watched[fd] = false;
    }
    const int r = real(f);
    if(!fail) return r;
    errno = EDQUOT;
    return -1;
}
extern "C" int rename(const char* a, const char* b) noexcept
{
    if(fault::armed && !fault::harmless(fault::mode) && fault::strike(fault::rename_)) {
        errno = EACCES;
        return -1;
    }
    return ::syscall(SYS_rename, a, b);
}
extern "C" FILE* fopen(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen");
    return fault::opened(real, p, m);
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) ::dlsym(RTLD_NEXT, "fopen64");
    return fault::opened(real, p, m);
}
#endif
