/* The external commands of the test sessions: one program, which acts as the
 * last component of argv[0] says. What each of them does is RunExe in
 * spec/RshSem.tla, and the ones for processes are described in spec/Jobs.tla. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/un.h>

static char buf[1 << 20];
static size_t n;

static void add(const char *s) { size_t l = strlen(s); if (n + l < sizeof buf) { memcpy(buf + n, s, l); n += l; } }
static void addc(char c) { if (n + 1 < sizeof buf) buf[n++] = c; }
static void esc(const char *s) {
    for (; *s; s++)
        switch (*s) {
        case '\\': add("\\\\"); break;
        case '\n': add("\\n"); break;
        case '\t': add("\\t"); break;
        default: addc(*s);
        }
}
static void brackets(int c, char **v, int from) {
    for (int i = from; i < c; i++) { addc('['); esc(v[i]); addc(']'); }
}
static int put(int fd) {
    size_t o = 0;
    while (o < n) {
        ssize_t k = write(fd, buf + o, n - o);
        if (k < 0) { if (errno == EINTR) continue; return 1; }
        o += k;
    }
    n = 0;
    return 0;
}
static void napms(int ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, 0); }
static int readbyte(char *c) {
    ssize_t k;
    do k = read(0, c, 1); while (k < 0 && errno == EINTR);
    return k == 1;
}

int main(int c, char **v) {
    const char *me = strrchr(v[0], '/');
    me = me ? me + 1 : v[0];
#define IS(x) (!strcmp(me, x))
    if (IS("pr")) { addc('>'); brackets(c, v, 1); addc('\n'); return put(1); }
    if (IS("er")) { addc('E'); brackets(c, v, 1); addc('\n'); return put(2); }
    if (IS("bo")) {
        addc('E'); brackets(c, v, 1); addc('\n'); put(2);
        addc('>'); brackets(c, v, 1); addc('\n'); return put(1);
    }
    if (IS("st")) return c > 1 ? atoi(v[1]) : 0;
    if (IS("sg")) { int s = c > 1 ? atoi(v[1]) : 15; signal(s, SIG_DFL); kill(getpid(), s); napms(2000); return 99; }
    if (IS("rd")) {
        char *all = 0; size_t len = 0, cap = 0;
        for (;;) {
            if (cap - len < 65536) { cap = cap ? cap * 2 : 131072; all = realloc(all, cap); if (!all) return 98; }
            ssize_t k = read(0, all + len, cap - len);
            if (k < 0 && errno == EINTR) continue;
            if (k < 0) return 97;
            if (k == 0) break;
            len += k;
        }
        int bol = 1;
        for (size_t i = 0; i < len; i++) {
            if (bol) addc('<');
            bol = all[i] == '\n';
            addc(all[i]);
            if (n > sizeof buf - 16 && put(1)) return 96;
        }
        if (len && !bol) addc('\n');
        return put(1);
    }
    if (IS("i1")) {
        char ch; int got = 0;
        addc('<');
        while (readbyte(&ch)) { got = 1; addc(ch); if (ch == '\n') break; }
        if (!got) return 1;
        return put(1);
    }
    if (IS("bl")) {
        for (int i = 0, k = c > 2 ? atoi(v[1]) : 0, l = c > 2 ? atoi(v[2]) : 0; i < k; i++) {
            addc('>');
            for (int j = 0; j < l; j++) addc('x');
            addc('\n');
            if (n > 30000 && put(1)) return 96;
        }
        return put(1);
    }
    if (IS("ct")) {
        static char in_[65536];
        long lines = 0, chars = 0;
        ssize_t k;
        while ((k = read(0, in_, sizeof in_)) != 0) {
            if (k < 0) { if (errno == EINTR) continue; return 97; }
            chars += k;
            for (ssize_t i = 0; i < k; i++) lines += in_[i] == '\n';
        }
        char t[64];
        snprintf(t, sizeof t, ">%ld %ld\n", lines, chars);
        add(t);
        return put(1);
    }
    if (IS("ev")) {
        const char *x = getenv(v[1]);
        addc('>'); add(v[1]);
        if (x) { addc('='); esc(x); } else add(" unset");
        addc('\n'); put(1);
        return x ? 0 : 1;
    }
    if (IS("pw")) {
        addc('>'); brackets(3, v, 2); addc('\n');
        return put(atoi(v[1]));
    }
    if (IS("fd")) {
        int open_[1024] = {0};
        for (int i = 0; i < 1024; i++) open_[i] = fcntl(i, F_GETFD) >= 0;
        add(">fd");
        for (int i = 0; i < 1024; i++) if (open_[i]) { char t[16]; snprintf(t, sizeof t, "%d", i); add(t); if (i > 9) addc('!'); }
        sigset_t m;             /* a program has all signals, with their default actions */
        sigprocmask(SIG_SETMASK, 0, &m);
        for (int i = 1; i < 32; i++) {
            struct sigaction a;
            if (sigaction(i, 0, &a) == 0 && (a.sa_handler == SIG_IGN || sigismember(&m, i))) { char t[32]; snprintf(t, sizeof t, " no signal %d", i); add(t); }
        }
        addc('\n'); return put(1);
    }
    if (IS("sf")) {     /* whether the descriptors of the shell are those of the first time it is asked */
        static char now[1 << 16], old[1 << 16];
        char p[4096], t[4096], q[64];
        ssize_t k = readlink("/proc/self/exe", p, sizeof p - 100);
        p[k < 0 ? 0 : k] = 0;
        char *e = strstr(p, "/R/");
        if (!e) return 95;
        sprintf(e, "/fds.%d", (int)getppid());
        for (int i = 0; i < 1024; i++) {
            snprintf(q, sizeof q, "/proc/%d/fd/%d", (int)getppid(), i);
            if ((k = readlink(q, t, sizeof t - 1)) < 0) continue;
            t[k] = 0;
            size_t l = strlen(now);
            snprintf(now + l, sizeof now - l, " %d=%s", i, t);
        }
        FILE *f = fopen(p, "r");
        if (f) { size_t l = fread(old, 1, sizeof old - 1, f); old[l] = 0; fclose(f); }
        else { f = fopen(p, "w"); if (!f) return 95; fputs(now, f); fclose(f); strcpy(old, now); }
        add(strcmp(now, old) ? ">sf other" : ">sf same"); addc('\n');
        return put(1);
    }
    if (IS("wd")) { char d[4096]; addc('>'); add(getcwd(d, sizeof d) ? d : "?"); addc('\n'); return put(1); }
    if (IS("wt")) {
        struct stat s;
        for (int i = 0; i < 4000; i++) { if (!stat(v[1], &s) && s.st_size > 0) return 0; napms(1); }
        return 1;
    }
    if (IS("lg")) {     /* lingers: its output is gone long before it ends */
        if (c != 3) return 98;
        int o = open(v[1], O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (o < 0) return 1;
        close(0); close(1);
        napms(25);
        addc('>'); brackets(c, v, 2); addc('\n');
        return put(o);
    }
    if (IS("op")) {
        int o = open(v[1], O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (o < 0) return 1;
        addc('>'); brackets(c, v, 1); addc('\n');
        return put(o);
    }
    if (IS("gt")) {
        struct stat s;
        int late = 1;
        for (int i = 0; i < 3000 && late; i++) { if (!stat(v[1], &s) && s.st_size > 0) late = 0; else napms(1); }
        addc('>'); brackets(c, v, 1); if (late) add("late"); addc('\n');
        return put(1);
    }
    if (IS("jb")) {     /* tells the driver its name, and ends when and as it is told */
        struct sockaddr_un a = {AF_UNIX, ""};
        char p[4096], x[64];
        ssize_t k = readlink("/proc/self/exe", p, sizeof p - 1);
        p[k < 0 ? 0 : k] = 0;
        char *e = strstr(p, "/R/");
        if (!e) return 95;
        strcpy(e, "/sock");
        if (strlen(p) >= sizeof a.sun_path) return 95;
        strcpy(a.sun_path, p);
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        if (connect(s, (struct sockaddr *)&a, sizeof a)) return 95;
        snprintf(x, sizeof x, "%s\n", c > 1 ? v[1] : "");
        if (write(s, x, strlen(x)) < 0) return 95;
        do k = read(s, x, 1); while (k < 0 && errno == EINTR);
        return k == 1 ? (unsigned char)x[0] : 94;
    }
    char p[4096];
    ssize_t k = readlink("/proc/self/exe", p, sizeof p - 1);
    p[k < 0 ? 0 : k] = 0;
    add(">tag:"); add(p); brackets(c, v, 1); addc('\n');
    return put(1);
}
