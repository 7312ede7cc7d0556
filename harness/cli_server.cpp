/**
 * Fork server around the program's main() (compiled as jsonstroll_main).
 * Reads cases on fd 0, writes results on fd 1; each case runs in a fork with its own stdin, stdout, stderr.
 * request:  u32 timeout_ms, u32 argc, argc * (u32 len, bytes), u32 stdin_len, bytes
 * response: i32 status (exit code, -signal, or -1000 on timeout), u32 len, stdout, u32 len, stderr
**/
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

int jsonstroll_main(int, char **);

static int req, res;
static void rd(void *p, size_t n)
{
    char *c = (char *) p;
    while (n) {
        ssize_t r = read(req, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= r;
    }
}
static void wr(const void *p, size_t n)
{
    const char *c = (const char *) p;
    while (n) {
        ssize_t r = write(res, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= r;
    }
}
static uint32_t rd32() { uint32_t v; rd(&v, 4); return v; }
static std::string rdstr() { std::string s(rd32(), '\0'); if (s.size()) rd(&s[0], s.size()); return s; }
static void wrfile(int fd)
{
    struct stat st;
    fstat(fd, &st);
    std::string s(std::min<off_t>(st.st_size, 256 << 20), '\0');
    size_t o = 0;
    while (o < s.size()) {
        ssize_t r = pread(fd, &s[o], s.size() - o, o);
        if (r <= 0) break;
        o += r;
    }
    s.resize(o);
    uint32_t n = s.size();
    wr(&n, 4);
    wr(s.data(), n);
    close(fd);
}

int main()
{
    req = fcntl(0, F_DUPFD_CLOEXEC, 100);
    res = fcntl(1, F_DUPFD_CLOEXEC, 100);
    while (true)
    {
        uint32_t timeout = rd32(), argc = rd32();
        std::vector<std::string> args;
        for (uint32_t i = 0; i < argc; ++i) args.push_back(rdstr());
        std::string in = rdstr();
        int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
        size_t o = 0;
        while (o < in.size()) { ssize_t r = write(fi, in.data() + o, in.size() - o); if (r <= 0) break; o += r; }
        lseek(fi, 0, SEEK_SET);
        fcntl(fo, F_SETFL, O_APPEND); fcntl(fe, F_SETFL, O_APPEND);
        pid_t pid = fork();
        if (pid == 0)
        {
            dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
            close(fi); close(fo); close(fe); close(req); close(res);
            struct itimerval t;
            memset(&t, 0, sizeof(t));
            t.it_value.tv_sec = timeout / 1000; t.it_value.tv_usec = (timeout % 1000) * 1000;
            signal(SIGALRM, SIG_DFL);
            setitimer(ITIMER_REAL, &t, nullptr);
            struct rlimit rl = { 512 << 20, 512 << 20 };
            setrlimit(RLIMIT_FSIZE, &rl);
            std::vector<char *> av;
            for (std::string &a : args) av.push_back(&a[0]);
            av.push_back(nullptr);
            exit(jsonstroll_main(argc, av.data()));
        }
        int st = 0;
        while (waitpid(pid, &st, 0) == -1 && errno == EINTR);
        int32_t status = WIFEXITED(st) ? WEXITSTATUS(st) : (WTERMSIG(st) == SIGALRM ? -1000 : -WTERMSIG(st));
        close(fi);
        wr(&status, 4);
        wrfile(fo);
        wrfile(fe);
    }
}
