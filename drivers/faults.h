// interposes the functions libstdc++ and libc++utilities use for file I/O; lets the n-th call fail
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/sendfile.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace faults {
enum Op { Open, Read, Write, Seek, Close, Rename, Remove, Truncate };
inline const char *name(int op)
{
    static const char *n[] = { "open", "read", "write", "seek", "close", "rename", "remove", "truncate" };
    return n[op];
}
enum Mode {
    Once, // only the specified call fails
    FromThen, // all calls fail from then on (device gone)
    DiskFull, // all calls which need disk space fail from then on
    ShortOnce, // only a part is written/read but without error
    ShortThenFull, // only a part is written and the disk is full then
    Hook, // nothing fails but a hook is invoked
};
struct State {
    bool armed = false;
    long counter = 0;
    long target = -1;
    long second = 0; // makes another call fail, number of calls after the first one
    Mode mode = Once;
    bool exdev = false; // renaming is impossible in any case
    bool hit = false, hitSecond = false, full = false, gone = false;
    std::vector<int> ops; // log of a run without faults
    std::string what;
    void (*hook)() = nullptr;
};
inline State state;
// decides about the next call; returns 0 to proceed, 1 to fail and 2 to proceed partially
inline int next(Op op, const char *path = nullptr)
{
    auto &s = state;
    if (!s.armed)
        return 0;
    const bool needsSpace = op == Write;
    if (s.gone && op != Close) {
        errno = EIO;
        return 1;
    }
    if (s.full && needsSpace) {
        errno = ENOSPC;
        return 1;
    }
    const auto i = s.counter++;
    s.ops.push_back(op);
    if (s.second && i == s.target + s.second) {
        s.hitSecond = true;
        s.what += std::string(", ") + name(op) + (path ? std::string(" ") + path : std::string());
        errno = op == Open || op == Rename || op == Remove ? EACCES : op == Write ? ENOSPC : EIO;
        return 1;
    }
    if (i != s.target)
        return 0;
    s.hit = true;
    s.what = std::string(name(op)) + (path ? std::string(" ") + path : std::string());
    switch (s.mode) {
    case Hook:
        s.hook();
        return 0;
    case FromThen:
        s.gone = true;
        break;
    case DiskFull:
        s.full = true;
        break;
    case ShortOnce:
        return 2;
    case ShortThenFull:
        s.full = true;
        return 2;
    default:;
    }
    errno = op == Open || op == Rename || op == Remove ? EACCES : op == Write ? ENOSPC : EIO;
    return 1;
}
template <class F> F real(const char *n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
struct Armed { // arms for the lifetime of the object
    explicit Armed(long target = -1, Mode mode = Once, long second = 0)
    {
        const auto exdev = state.exdev;
        state = State();
        state.exdev = exdev;
        state.target = target;
        state.mode = mode;
        state.second = second;
        state.armed = true;
    }
    ~Armed()
    {
        state.armed = false;
    }
};
} // namespace faults

extern "C" {
int open(const char *path, int flags, ...)
{
    static const auto f = faults::real<int (*)(const char *, int, ...)>("open");
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = static_cast<mode_t>(va_arg(a, int));
        va_end(a);
    }
    if (faults::next(faults::Open, path))
        return -1;
    return f(path, flags, mode);
}
FILE *fopen(const char *path, const char *mode)
{
    static const auto f = faults::real<FILE *(*)(const char *, const char *)>("fopen");
    if (faults::next(faults::Open, path))
        return nullptr;
    return f(path, mode);
}
ssize_t read(int fd, void *buf, size_t n)
{
    static const auto f = faults::real<ssize_t (*)(int, void *, size_t)>("read");
    const auto r = faults::next(faults::Read);
    if (r == 1)
        return -1;
    return f(fd, buf, r == 2 && n > 1 ? n / 2 : n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    static const auto f = faults::real<ssize_t (*)(int, const void *, size_t)>("write");
    const auto r = fd > 2 ? faults::next(faults::Write) : 0;
    if (r == 1)
        return -1;
    return f(fd, buf, r == 2 && n > 1 ? n / 2 : n);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    static const auto f = faults::real<ssize_t (*)(int, const struct iovec *, int)>("writev");
    const auto r = faults::next(faults::Write);
    if (r == 1)
        return -1;
    if (r == 2) {
        struct iovec one = v[0];
        if (n < 2 || !one.iov_len)
            one.iov_len /= 2;
        return one.iov_len ? f(fd, &one, 1) : f(fd, v, n);
    }
    return f(fd, v, n);
}
off_t lseek(int fd, off_t off, int whence)
{
    static const auto f = faults::real<off_t (*)(int, off_t, int)>("lseek");
    if ((off || whence != SEEK_CUR) && faults::next(faults::Seek)) // querying the position does not involve any I/O
        return -1;
    return f(fd, off, whence);
}
int fclose(FILE *file)
{
    static const auto f = faults::real<int (*)(FILE *)>("fclose");
    const auto r = file == stdout || file == stderr ? 0 : faults::next(faults::Close);
    const auto res = f(file);
    if (r) {
        errno = EIO;
        return EOF;
    }
    return res;
}
int close(int fd)
{
    static const auto f = faults::real<int (*)(int)>("close");
    const auto r = faults::next(faults::Close);
    const auto res = f(fd);
    if (r) {
        errno = EIO;
        return -1;
    }
    return res;
}
int rename(const char *a, const char *b)
{
    static const auto f = faults::real<int (*)(const char *, const char *)>("rename");
    if (faults::next(faults::Rename, a))
        return -1;
    if (faults::state.armed && faults::state.exdev) {
        errno = EXDEV;
        return -1;
    }
    return f(a, b);
}
int remove(const char *path)
{
    static const auto f = faults::real<int (*)(const char *)>("remove");
    if (faults::next(faults::Remove, path))
        return -1;
    return f(path);
}
int truncate(const char *path, off_t n)
{
    static const auto f = faults::real<int (*)(const char *, off_t)>("truncate");
    if (faults::next(faults::Truncate, path))
        return -1;
    return f(path, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    static const auto f = faults::real<ssize_t (*)(int, int, off_t *, size_t)>("sendfile");
    const auto r = faults::next(faults::Write);
    if (r == 1)
        return -1;
    return f(out, in, off, r == 2 && n > 1 ? n / 2 : n);
}
}
