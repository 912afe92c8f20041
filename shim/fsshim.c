/* Preloaded into the program under test: records the operations by which it changes files below
 * $FSDIR and, on request, interrupts one of them.
 *
 * $FSLOG  one line per operation: n op ret errno path [path2] off len hexdata
 * $FSCTL  control file "seq at mode [at mode ...]": operation number `at` (counted from 0 since seq
 *         changed; with a + all from there on) is treated by mode: kill (end before it), mid (end in the middle of it), short (write half),
 *         pause (wait until seq changes), or the number of an errno to fail with.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char *paths[MAXFD];
static int logfd = -1;
static const char *dir, *ctl;
static char seq[64];
static int count;

static void setup(void) {
    static int done;
    if (done)
        return;
    done = 1;
    dir = getenv("FSDIR");
    ctl = getenv("FSCTL");
    const char *log = getenv("FSLOG");
    if (dir && log)
        logfd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (logfd >= 0) { /* out of the way of the program's descriptors */
        int fd = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
        if (fd >= 0) {
            syscall(SYS_close, logfd);
            logfd = fd;
        }
    }
}

static int ours(const char *path) {
    setup();
    return logfd >= 0 && path && !strncmp(path, dir, strlen(dir));
}

static int oursfd(int fd) {
    setup();
    return logfd >= 0 && fd >= 0 && fd < MAXFD && paths[fd];
}

/* returns the mode for this operation, "" if none */
static void control(char *mode, char *now) {
    char buf[256];
    mode[0] = 0;
    now[0] = 0;
    if (!ctl)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, ctl, O_RDONLY | O_CLOEXEC);
    if (fd < 0)
        return;
    int n = syscall(SYS_read, fd, buf, sizeof buf - 1);
    syscall(SYS_close, fd);
    if (n <= 0)
        return;
    buf[n] = 0;
    int at, pos = 0, used;
    char s[64], m[64], a[64];
    if (sscanf(buf, "%63s%n", s, &pos) != 1)
        return;
    strcpy(now, s);
    if (strcmp(s, seq)) {
        strcpy(seq, s);
        count = 0;
    }
    while (sscanf(buf + pos, "%63s %63s%n", a, m, &used) == 2) {
        pos += used;
        at = atoi(a);
        if (at == count || (a[strlen(a) - 1] == '+' && count > at)) {
            strcpy(mode, m);
            return;
        }
    }
}

static void put(const char *op, long ret, int err, const char *path, const char *path2, long off, const void *data,
                size_t len) {
    size_t size = 3 * PATH_MAX + 2 * len + 200;
    char *line = malloc(size);
    int n = snprintf(line, size, "%d %s %ld %d %s %s %ld %zu ", count, op, ret, err, path ? path : "-",
                     path2 ? path2 : "-", off, len);
    for (size_t i = 0; data && i < len; i++)
        n += sprintf(line + n, "%02x", ((const unsigned char *)data)[i]);
    line[n++] = '\n';
    (void)!syscall(SYS_write, logfd, line, n);
    free(line);
}

static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;)
        pause();
}

/* what to do about the coming operation: 0 perform, 1 fail with errno, 2 half, 3 half and end */
static int before(const char *op, const char *path) {
    char mode[64], now[64], then[64];
    control(mode, now);
    if (!mode[0])
        return 0;
    put("!", 0, 0, op, mode, 0, NULL, 0);
    if (!strcmp(mode, "kill"))
        die();
    if (!strcmp(mode, "mid"))
        return 3;
    if (!strcmp(mode, "short"))
        return 2;
    if (!strcmp(mode, "pause")) {
        char m[64];
        int c = count;
        strcpy(then, now);
        do {
            usleep(300);
            char keep[64];
            strcpy(keep, seq);
            control(m, now);
            if (strcmp(now, then))
                break;
            strcpy(seq, keep);
        } while (1);
        count = c;
        return 0;
    }
    errno = atoi(mode);
    return errno ? 1 : 0;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static int opening(const char *name, int dirfd, const char *path, int flags, mode_t mode) {
    int writes = (flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC);
    if (!writes || !ours(path))
        return syscall(SYS_openat, dirfd, path, flags, mode);
    const char *kind = flags & O_TRUNC ? "trunc" : flags & O_APPEND ? "append" : flags & O_EXCL ? "excl" : "open";
    int todo = before(name, path);
    int fd = -1;
    if (todo == 3)
        die();
    if (todo != 1)
        fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int err = errno;
    put(kind, fd, fd < 0 ? err : 0, path, NULL, 0, NULL, 0);
    count++;
    if (fd >= 0 && fd < MAXFD) {
        free(paths[fd]);
        paths[fd] = strdup(path);
    }
    errno = err;
    return fd;
}

#define MODE_ARG                                                                                                       \
    mode_t mode = 0;                                                                                                   \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                                               \
        va_list ap;                                                                                                    \
        va_start(ap, flags);                                                                                           \
        mode = va_arg(ap, mode_t);                                                                                     \
        va_end(ap);                                                                                                    \
    }

int open(const char *path, int flags, ...) {
    MODE_ARG return opening("open", AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    MODE_ARG return opening("open", AT_FDCWD, path, flags, mode);
}
int openat(int fd, const char *path, int flags, ...) {
    MODE_ARG return opening("open", fd, path, flags, mode);
}
int openat64(int fd, const char *path, int flags, ...) {
    MODE_ARG return opening("open", fd, path, flags, mode);
}
int creat(const char *path, mode_t mode) {
    return opening("open", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
int creat64(const char *path, mode_t mode) {
    return opening("open", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

static ssize_t writing(int fd, const void *data, size_t len, long off) {
    if (!oursfd(fd))
        return off < 0 ? syscall(SYS_write, fd, data, len) : syscall(SYS_pwrite64, fd, data, len, off);
    long at = off < 0 ? lseek(fd, 0, SEEK_CUR) : off;
    int todo = before("write", paths[fd]);
    ssize_t ret = -1;
    size_t n = todo >= 2 ? (len + 1) / 2 : len;
    if (todo != 1)
        ret = off < 0 ? syscall(SYS_write, fd, data, n) : syscall(SYS_pwrite64, fd, data, n, off);
    int err = errno;
    if (todo == 3)
        die();
    put("write", ret, ret < 0 ? err : 0, paths[fd], NULL, at, data, ret < 0 ? 0 : ret);
    count++;
    errno = err;
    return ret;
}

ssize_t write(int fd, const void *data, size_t len) { return writing(fd, data, len, -1); }
ssize_t pwrite(int fd, const void *data, size_t len, off_t off) { return writing(fd, data, len, off); }
ssize_t pwrite64(int fd, const void *data, size_t len, off64_t off) { return writing(fd, data, len, off); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!oursfd(fd))
        return syscall(SYS_writev, fd, v, n);
    size_t len = 0;
    for (int i = 0; i < n; i++)
        len += v[i].iov_len;
    char *buf = malloc(len + 1);
    size_t at = 0;
    for (int i = 0; i < n; i++) {
        memcpy(buf + at, v[i].iov_base, v[i].iov_len);
        at += v[i].iov_len;
    }
    ssize_t ret = writing(fd, buf, len, -1);
    int err = errno;
    free(buf);
    errno = err;
    return ret;
}

/* operations without data */
#define SIMPLE(op, path, path2, off, len, call)                                                                        \
    do {                                                                                                               \
        int todo = before(op, path);                                                                                   \
        long ret = -1;                                                                                                 \
        if (todo == 3)                                                                                                 \
            die();                                                                                                     \
        if (todo != 1)                                                                                                 \
            ret = call;                                                                                                \
        int err = errno;                                                                                               \
        put(op, ret, ret < 0 ? err : 0, path, path2, off, NULL, len);                                                  \
        count++;                                                                                                       \
        errno = err;                                                                                                   \
        return ret;                                                                                                    \
    } while (0)

int ftruncate(int fd, off_t len) {
    if (!oursfd(fd))
        return syscall(SYS_ftruncate, fd, len);
    SIMPLE("truncate", paths[fd], NULL, len, 0, syscall(SYS_ftruncate, fd, len));
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int truncate(const char *path, off_t len) {
    if (!ours(path))
        return syscall(SYS_truncate, path, len);
    SIMPLE("truncate", path, NULL, len, 0, syscall(SYS_truncate, path, len));
}
int truncate64(const char *path, off64_t len) { return truncate(path, len); }
int rename(const char *a, const char *b) {
    if (!ours(a) && !ours(b))
        return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    SIMPLE("rename", a, b, 0, 0, syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int renameat(int d1, const char *a, int d2, const char *b) {
    if (!ours(a) && !ours(b))
        return syscall(SYS_renameat2, d1, a, d2, b, 0);
    SIMPLE("rename", a, b, 0, 0, syscall(SYS_renameat2, d1, a, d2, b, 0));
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned flags) {
    if (!ours(a) && !ours(b))
        return syscall(SYS_renameat2, d1, a, d2, b, flags);
    SIMPLE(flags & 2 ? "exchange" : "rename", a, b, 0, 0, syscall(SYS_renameat2, d1, a, d2, b, flags));
}
int link(const char *a, const char *b) {
    if (!ours(a) && !ours(b))
        return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
    SIMPLE("link", a, b, 0, 0, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int linkat(int d1, const char *a, int d2, const char *b, int flags) {
    if (!ours(a) && !ours(b))
        return syscall(SYS_linkat, d1, a, d2, b, flags);
    SIMPLE("link", a, b, 0, 0, syscall(SYS_linkat, d1, a, d2, b, flags));
}
int unlink(const char *a) {
    if (!ours(a))
        return syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    SIMPLE("unlink", a, NULL, 0, 0, syscall(SYS_unlinkat, AT_FDCWD, a, 0));
}
int unlinkat(int d, const char *a, int flags) {
    if (!ours(a))
        return syscall(SYS_unlinkat, d, a, flags);
    SIMPLE("unlink", a, NULL, 0, 0, syscall(SYS_unlinkat, d, a, flags));
}
int mkdir(const char *a, mode_t mode) {
    if (!ours(a))
        return syscall(SYS_mkdirat, AT_FDCWD, a, mode);
    SIMPLE("mkdir", a, NULL, 0, 0, syscall(SYS_mkdirat, AT_FDCWD, a, mode));
}
int chmod(const char *a, mode_t mode) {
    if (!ours(a))
        return syscall(SYS_fchmodat, AT_FDCWD, a, mode);
    SIMPLE("chmod", a, NULL, 0, 0, syscall(SYS_fchmodat, AT_FDCWD, a, mode));
}
int fchmod(int fd, mode_t mode) {
    if (!oursfd(fd))
        return syscall(SYS_fchmod, fd, mode);
    SIMPLE("chmod", paths[fd], NULL, 0, 0, syscall(SYS_fchmod, fd, mode));
}
int fsync(int fd) {
    if (!oursfd(fd))
        return syscall(SYS_fsync, fd);
    SIMPLE("sync", paths[fd], NULL, 0, 0, syscall(SYS_fsync, fd));
}
int fdatasync(int fd) {
    if (!oursfd(fd))
        return syscall(SYS_fdatasync, fd);
    SIMPLE("sync", paths[fd], NULL, 0, 0, syscall(SYS_fdatasync, fd));
}
ssize_t copy_file_range(int in, off64_t *inoff, int out, off64_t *outoff, size_t len, unsigned flags) {
    if (!oursfd(out))
        return syscall(SYS_copy_file_range, in, inoff, out, outoff, len, flags);
    errno = ENOSYS; /* makes the caller use read and write */
    return -1;
}
ssize_t sendfile(int out, int in, off_t *off, size_t len) {
    if (!oursfd(out))
        return syscall(SYS_sendfile, out, in, off, len);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t len) { return sendfile(out, in, off, len); }
ssize_t splice(int in, off64_t *inoff, int out, off64_t *outoff, size_t len, unsigned flags) {
    if (!oursfd(out))
        return syscall(SYS_splice, in, inoff, out, outoff, len, flags);
    errno = EINVAL;
    return -1;
}
int close(int fd) {
    if (!oursfd(fd))
        return syscall(SYS_close, fd);
    char *path = paths[fd];
    paths[fd] = NULL;
    int todo = before("close", path);
    if (todo == 3)
        die();
    long ret = syscall(SYS_close, fd);
    int err = errno;
    if (todo == 1) {
        ret = -1;
        err = EIO;
    }
    put("close", ret, ret < 0 ? err : 0, path, NULL, 0, NULL, 0);
    count++;
    free(path);
    errno = err;
    return ret;
}
