/* The external diff command of the C10 check: records what it is given, then ends as REC_MODE says.
 * record, appended in one write: "REC" u32 n, n * (string argument, u8 state, [u64 dev, u64 ino, u32 mode, u32 uid, string content]) */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
static char *buf; static size_t n, cap;
static void put(const void *p, size_t l)
{
    if (n + l > cap) { cap = (n + l) * 2 + 4096; buf = realloc(buf, cap); }
    memcpy(buf + n, p, l); n += l;
}
static void u32(uint32_t v) { put(&v, 4); }
static void u64(uint64_t v) { put(&v, 8); }
int main(int ac, char **av)
{
    const char *out = getenv("REC_OUT"), *mode = getenv("REC_MODE"), *delay = getenv("REC_DELAY");
    if (!out) return 90;
    struct rlimit lim; /* the limit that may apply to the program is not for this one */
    if (getrlimit(RLIMIT_FSIZE, &lim) == 0) { lim.rlim_cur = lim.rlim_max; setrlimit(RLIMIT_FSIZE, &lim); }
    if (delay) { struct timespec t = { 0, atol(delay) * 1000000L }; nanosleep(&t, NULL); }
    uint32_t total = 0;
    char *temp = calloc(ac + 1, 1);
    put("REC", 3); put(&total, 4); u32(ac);
    for (int i = 0; i < ac; ++i) {
        struct stat st;
        u32(strlen(av[i])); put(av[i], strlen(av[i]));
        unsigned char state = 0;
        if (i && av[i][0] == '/' && lstat(av[i], &st) == 0) state = S_ISREG(st.st_mode) ? 1 : 2;
        put(&state, 1);
        temp[i] = state == 1;
        if (state != 1) continue;
        u64(st.st_dev); u64(st.st_ino); u32(st.st_mode); u32(st.st_uid);
        size_t at = n, len = 0; u32(0);
        int fd = open(av[i], O_RDONLY); char b[65536]; ssize_t r;
        while (fd >= 0 && (r = read(fd, b, sizeof b)) > 0) { put(b, r); len += r; }
        if (fd >= 0) close(fd);
        *(uint32_t *) (buf + at) = len;
    }
    total = n; memcpy(buf + 3, &total, 4);
    int fd = open(out, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0 || write(fd, buf, n) != (ssize_t) n) return 91;
    close(fd);
    if (delay) { struct timespec t = { 0, atol(delay) * 1000000L }; nanosleep(&t, NULL); }
    if (!mode) return 0;
    if (!strcmp(mode, "remove")) { for (int i = 1; i < ac; ++i) if (temp[i]) unlink(av[i]); return 0; }
    if (!strncmp(mode, "remove-", 7)) { int k = 0; for (int i = 1; i < ac; ++i) if (temp[i] && k++ == atoi(mode + 7)) unlink(av[i]); return 1; } /* one of them */
    if (!strcmp(mode, "modify")) { for (int i = 1; i < ac; ++i) if (temp[i]) { int f = open(av[i], O_WRONLY | O_APPEND); if (f >= 0) { write(f, "X", 1); close(f); } } return 1; }
    if (!strncmp(mode, "psig", 4) || !strncmp(mode, "gsig", 4)) { /* interrupt the program, or both as the keyboard does */
        struct timespec t = { 0, 10000000L };
        kill(*mode == 'p' ? getppid() : 0, atoi(mode + 4));
        nanosleep(&t, NULL);
        return 1;
    }
    if (!strncmp(mode, "sig", 3)) { signal(atoi(mode + 3), SIG_DFL); raise(atoi(mode + 3)); return 92; }
    return atoi(mode);
}
