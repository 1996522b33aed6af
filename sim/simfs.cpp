// Storage seam: the libc calls that libstdc++ and the library use for files are defined here.
// Data lives in a private scratch directory (real files, one directory per run), every call of a
// rank is a scheduling point and an opportunity for a fault.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

using namespace sim;
namespace sim {
template <typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

static std::map<int, std::string> *fdpath;  // descriptors opened by ranks
static long io_calls;                        // counted fault opportunities
static long fail_at, crash_io, fail_len;
static std::string kind, match_s;
static bool nospace;                         // persistent full disk
static Prng rng_io;

void list_dir(const std::string &p, std::vector<std::string> &out) {
    DIR *d = opendir(p.c_str());
    if (!d) return;
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") out.push_back(n);
    }
    closedir(d);
}
void fs_reset() {
    fdpath = new std::map<int, std::string>;
    io_calls = 0;
    fail_at = P("io_fail_at", -1);
    fail_len = P("io_fail_len", 1);
    crash_io = P("crash_io_at", -1);
    kind = PS("io_kind", "");
    match_s = PS("io_match", "");
    nospace = false;
    rng_io.seed(seed, hash_str("io") + epoch);
}
static std::string map_path(const char *p) {
    if (cur < 0 || !p) return p ? p : "";
    std::string s = p;
    if (!s.empty() && s[0] != '/') s = ranks[cur].cwd + "/" + s;
    return s;
}
static std::string rel(const std::string &s) {
    return s.compare(0, scratch.size(), scratch) == 0 ? s.substr(scratch.size()) : s;
}
static bool inside(const std::string &s) { return s.compare(0, scratch.size(), scratch) == 0; }
static void guard_write(const std::string &s) {
    if (cur >= 0 && !s.empty() && s != ranks[cur].cwd + "/" && !inside(s)) violation("io:outside-scratch", "a rank wants to write to " + s);
}
// one fault opportunity.  returns: 0 normal, 1 this call is the one to fail, 2 kill here
static int tick(const char *op, const std::string &path, bool writing) {
    if (cur < 0) return 0;
    event(op, (long)(hash_str(rel(path).c_str()) & 0xffffffff));
    yield_point();
    if (faults_off[cur]) return 0;
    if (!match_s.empty() && rel(path).find(match_s) == std::string::npos) return 0;
    (void)writing;
    io_calls++;
    if (crash_io >= 0 && io_calls == crash_io) return 2;
    if (fail_at >= 0 && io_calls >= fail_at && io_calls < fail_at + fail_len) return 1;
    return 0;
}
[[noreturn]] static void kill_here(const char *where) {
    sim::count("fault.kill_job_at_io", 1);
    trace_line("FAULT kill of the whole job at %s", where);
    end_epoch(2);
}
static long frac(long n) { return n <= 1 ? 0 : (long)(rng_io.next() % (uint64_t)n); }
static bool is_rank_fd(int fd) { return cur >= 0 && fdpath && fdpath->count(fd); }
} // namespace sim

extern "C" {
long sim_io_calls() { return io_calls; }

static bool writing_mode(const char *m) { return strpbrk(m, "wa+") != nullptr; }
FILE *fopen(const char *p, const char *m) {
    typedef FILE *(*T)(const char *, const char *);
    static T r = real<T>("fopen");
    if (cur < 0) return r(p, m);
    std::string s = map_path(p);
    bool w = writing_mode(m);
    if (w) guard_write(s);
    int t = tick("io.fopen", s, w);
    if (t == 2) kill_here("open");
    if (t == 1 && kind == "open") {
        sim::count("fault.open_fails", 1);
        trace_line("FAULT open of %s fails", rel(s).c_str());
        errno = w ? EACCES : ENOENT;
        return nullptr;
    }
    if (w && nospace && access(s.c_str(), F_OK) != 0) { errno = ENOSPC; return nullptr; }
    FILE *f = r(s.c_str(), m);
    if (f) (*fdpath)[fileno(f)] = s;
    return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) {
    typedef int (*T)(FILE *);
    static T r = real<T>("fclose");
    int fd = f ? fileno(f) : -1;
    if (!is_rank_fd(fd)) return r(f);
    std::string s = (*fdpath)[fd];
    int t = tick("io.fclose", s, true);
    if (t == 2) kill_here("close");
    fdpath->erase(fd);
    int rv = r(f);
    if (t == 1 && kind == "close") {
        sim::count("fault.close_error", 1);
        trace_line("FAULT close of %s reports EIO", rel(s).c_str());
        errno = EIO;
        return EOF;
    }
    return rv;
}
static ssize_t write_seam(int fd, const struct iovec *v, int nv) {
    std::string all;
    for (int i = 0; i < nv; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
    std::string s = (*fdpath)[fd];
    int t = tick("io.write", s, true);
    long n = all.size();
    auto put = [&](long k) -> ssize_t { return k > 0 ? syscall(SYS_write, fd, all.data(), k) : 0; };
    if (t == 2) {
        long k = frac(n + 1);
        put(k);
        sim::count("fault.torn_write", k > 0 && k < n);
        kill_here("write");
    }
    if (nospace) { sim::count("fault.enospc", 1); errno = ENOSPC; return -1; }
    if (t == 1) {
        if (kind == "eio") {
            long k = frac(2) ? frac(n + 1) : 0; // part of the data may have reached the disk
            off_t o = lseek(fd, 0, SEEK_CUR);
            put(k);
            lseek(fd, o, SEEK_SET);
            sim::count("fault.write_eio", 1);
            trace_line("FAULT write of %ld bytes to %s fails with EIO", n, rel(s).c_str());
            errno = EIO;
            return -1;
        }
        if (kind == "enospc") {
            nospace = true;
            sim::count("fault.enospc", 1);
            trace_line("FAULT disk full writing %s", rel(s).c_str());
            long k = frac(n);
            if (k > 0) return put(k);
            errno = ENOSPC;
            return -1;
        }
        if (kind == "short" && n > 1) { sim::count("fault.short_write", 1); return put(1 + frac(n - 1)); }
        if (kind == "eintr") { sim::count("fault.eintr", 1); errno = EINTR; return -1; }
    }
    ssize_t rv = put(n);
    if (n == 0) return 0;
    return rv;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!is_rank_fd(fd)) return syscall(SYS_write, fd, b, n);
    struct iovec v = {(void *)b, n};
    return write_seam(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int nv) {
    if (!is_rank_fd(fd)) return syscall(SYS_writev, fd, v, nv);
    return write_seam(fd, v, nv);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!is_rank_fd(fd)) return syscall(SYS_read, fd, b, n);
    std::string s = (*fdpath)[fd];
    int t = tick("io.read", s, false);
    if (t == 2) kill_here("read");
    if (t == 1) {
        if (kind == "reio") {
            sim::count("fault.read_eio", 1);
            trace_line("FAULT read from %s fails with EIO", rel(s).c_str());
            errno = EIO;
            return -1;
        }
        if (kind == "rshort" && n > 1) { sim::count("fault.short_read", 1); n = 1 + frac(n - 1); }
        if (kind == "eintr") { sim::count("fault.eintr", 1); errno = EINTR; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
int open(const char *p, int fl, ...) {
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
    if (cur < 0) return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    std::string s = map_path(p);
    bool w = (fl & O_ACCMODE) != O_RDONLY;
    if (w) guard_write(s);
    int t = tick("io.open", s, w);
    if (t == 2) kill_here("open");
    if (t == 1 && kind == "open") { sim::count("fault.open_fails", 1); errno = EACCES; return -1; }
    int fd = syscall(SYS_openat, AT_FDCWD, s.c_str(), fl, mode);
    if (fd >= 0) (*fdpath)[fd] = s;
    return fd;
}
int open64(const char *p, int fl, ...) {
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
    return open(p, fl, mode);
}
int close(int fd) {
    if (is_rank_fd(fd)) {
        std::string s = (*fdpath)[fd];
        int t = tick("io.close", s, true);
        if (t == 2) kill_here("close");
        fdpath->erase(fd);
        int rv = syscall(SYS_close, fd);
        if (t == 1 && kind == "close") { sim::count("fault.close_error", 1); errno = EIO; return -1; }
        return rv;
    }
    return syscall(SYS_close, fd);
}
int mkdir(const char *p, mode_t m) noexcept {
    std::string s = map_path(p);
    if (cur >= 0) {
        guard_write(s);
        int t = tick("io.mkdir", s, true);
        if (t == 2) kill_here("mkdir");
        if ((t == 1 && kind == "mkdir") || nospace) { sim::count("fault.mkdir_fails", 1); errno = ENOSPC; return -1; }
    }
    return syscall(SYS_mkdir, s.c_str(), m);
}
int chdir(const char *p) noexcept {
    if (cur < 0) return syscall(SYS_chdir, p);
    std::string s = map_path(p);
    tick("io.chdir", s, false);
    struct stat st;
    if (syscall(SYS_stat, s.c_str(), &st)) { errno = ENOENT; return -1; }
    if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
    ranks[cur].cwd = s;
    return 0;
}
char *getcwd(char *b, size_t n) noexcept {
    std::string s;
    if (cur < 0) {
        char t[PATH_MAX];
        if (syscall(SYS_getcwd, t, sizeof t) < 0) return nullptr;
        s = t;
    } else s = ranks[cur].cwd;
    if (!b) { if (!n) n = s.size() + 1; b = (char *)malloc(n); }
    if (n < s.size() + 1) { errno = ERANGE; return nullptr; }
    memcpy(b, s.c_str(), s.size() + 1);
    return b;
}
int stat(const char *p, struct stat *st) noexcept { return syscall(SYS_stat, map_path(p).c_str(), st); }
int lstat(const char *p, struct stat *st) noexcept { return syscall(SYS_lstat, map_path(p).c_str(), st); }
int access(const char *p, int m) noexcept { return syscall(SYS_access, map_path(p).c_str(), m); }
int rename(const char *a, const char *b) noexcept {
    std::string x = map_path(a), y = map_path(b);
    if (cur >= 0) {
        guard_write(x); guard_write(y);
        int t = tick("io.rename", y, true);
        if (t == 2) { if (frac(2)) syscall(SYS_rename, x.c_str(), y.c_str()); kill_here("rename"); }
        if (t == 1 && kind == "rename") { sim::count("fault.rename_fails", 1); errno = EIO; return -1; }
    }
    return syscall(SYS_rename, x.c_str(), y.c_str());
}
int unlink(const char *p) noexcept {
    std::string s = map_path(p);
    if (cur >= 0) {
        guard_write(s);
        int t = tick("io.unlink", s, true);
        if (t == 2) { if (frac(2)) syscall(SYS_unlink, s.c_str()); kill_here("unlink"); }
        if (t == 1 && kind == "unlink") { sim::count("fault.unlink_fails", 1); errno = EACCES; return -1; }
    }
    return syscall(SYS_unlink, s.c_str());
}
int remove(const char *p) noexcept {
    std::string s = map_path(p);
    struct stat st;
    if (syscall(SYS_lstat, s.c_str(), &st)) { errno = ENOENT; return -1; }
    if (S_ISDIR(st.st_mode)) { if (cur >= 0) guard_write(s); return syscall(SYS_rmdir, s.c_str()); }
    return unlink(p);
}
int fsync(int fd) { if (is_rank_fd(fd)) { if (tick("io.fsync", (*fdpath)[fd], true) == 2) kill_here("fsync"); } return 0; }
int fdatasync(int fd) { return fsync(fd); }
// the job scheduler's answer to "squeue" comes from the plan
FILE *popen(const char *cmd, const char *) {
    static char none[1] = {0};
    if (cur >= 0) event("popen");
    (void)cmd;
    const char *t = PS("squeue", "");
    if (!strcmp(t, "FAIL")) return nullptr;
    return fmemopen(*t ? (void *)t : (void *)none, strlen(t), "r");
}
int pclose(FILE *f) { if (!f) violation("io:pclose-null", "pclose(NULL)"); fclose(f); return 0; }
int system(const char *) { violation("io:system", "system() called"); }
}
