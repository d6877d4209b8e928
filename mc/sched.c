// sched PREFIX DIR CMD... [-- DIR CMD...]...
// Runs the commands as processes 0, 1, ... one at a time, under a scheduler that takes control whenever a process is about to
// start, create, close, rename or remove a file, read a .clara program outside the library, or execute another program
// (a program executed runs freely up to its parent's next such point). PREFIX is a comma separated list of processes to
// continue at each choice; beyond it the last process continues while it can. Prints one line per choice:
//   step CHOSEN ENABLED EVENT
// and "exit I STATUS" when a process ends. The output of process i goes to DIR/stdout.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXP 4
#define MAXT 4096

static struct proc { pid_t pid; int done, status, held, execs; char event[512]; } P[MAXP];
static struct thr { pid_t tid; int proc, freed, seen; } T[MAXT];
static int np, nt;

static struct thr *find(pid_t t) {
    for (int i = 0; i < nt; i++) if (T[i].tid == t) return &T[i];
    return 0;
}

static struct thr *add(pid_t t, int proc, int freed) {
    struct thr *x = find(t);
    if (!x) {
        for (int i = 0; i < nt && !x; i++) if (!T[i].tid) x = &T[i];
        if (!x) { if (nt == MAXT) _exit(99); x = &T[nt++]; }
        memset(x, 0, sizeof *x);
        x->tid = t;
    }
    x->proc = proc;
    x->freed = freed;
    return x;
}

static void readstr(pid_t t, unsigned long a, char *b, size_t n) {
    // page by page, as the string may end just before an unmapped one
    size_t k = 0;
    while (k < n - 1) {
        size_t c = 4096 - ((a + k) & 4095);
        if (c > n - 1 - k) c = n - 1 - k;
        struct iovec l = {b + k, c}, r = {(void *)(a + k), c};
        if (process_vm_readv(t, &l, 1, &r, 1, 0) <= 0) break;
        if (memchr(b + k, 0, c)) return;
        k += c;
    }
    b[k] = 0;
}

static int writable_regular(pid_t t, int fd) {
    char p[64], line[128];
    snprintf(p, sizeof p, "/proc/%d/fd/%d", t, fd);
    struct stat s;
    if (stat(p, &s) || !S_ISREG(s.st_mode)) return 0;
    snprintf(p, sizeof p, "/proc/%d/fdinfo/%d", t, fd);
    FILE *f = fopen(p, "r");
    unsigned fl = 0;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "flags: %o", &fl) == 1) break;
    if (f) fclose(f);
    return (fl & O_ACCMODE) != O_RDONLY;
}

// Describes the system call thread t is about to make if it is a point of control
static int interesting(struct thr *x, char *out, size_t n) {
    struct user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, x->tid, 0, &r)) return 0;
    char p[400];
    switch (r.orig_rax) {
    case SYS_open: case SYS_creat:
        readstr(x->tid, r.rdi, p, sizeof p);
        goto opened;
    case SYS_openat:
        readstr(x->tid, r.rsi, p, sizeof p);
        r.rsi = r.rdx;
    opened:
        if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) return 0;
        size_t l = strlen(p);
        int clara = l > 6 && !strcmp(p + l - 6, ".clara") && !strstr(p, "/install/lib/");
        if (r.orig_rax == SYS_creat || (r.rsi & (O_CREAT | O_TRUNC)) || (r.rsi & O_ACCMODE) != O_RDONLY) snprintf(out, n, "create");
        else if (clara) snprintf(out, n, "read");
        else return 0;
        return 1;
    case SYS_close:
        if (!writable_regular(x->tid, (int)r.rdi)) return 0;
        snprintf(out, n, "close");
        return 1;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: snprintf(out, n, "unlink"); return 1;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: snprintf(out, n, "rename"); return 1;
    case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: snprintf(out, n, "link"); return 1;
    case SYS_truncate: case SYS_ftruncate: snprintf(out, n, "truncate"); return 1;
    case SYS_mkdir: case SYS_mkdirat: snprintf(out, n, "mkdir"); return 1;
    case SYS_execve: case SYS_execveat:
        if (P[x->proc].execs == 0) { P[x->proc].execs = 1; return 0; }
        snprintf(out, n, "exec");
        return 1;
    }
    return 0;
}

static void filter(void) {
    int nrs[] = {SYS_open, SYS_creat, SYS_openat, SYS_close, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_truncate, SYS_ftruncate, SYS_mkdir, SYS_mkdirat, SYS_execve, SYS_execveat};
    int k = sizeof nrs / sizeof *nrs, i = 0;
    struct sock_filter f[64];
    f[i++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int j = 0; j < k; j++) f[i++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[j], k - j, 0);
    f[i++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[i++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    struct sock_fprog pr = {i, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { perror("seccomp"); _exit(98); }
}

// Handles stops until process i is held again or has ended (other processes only have idle threads running)
static void run(int i) {
    P[i].held = 0;
    while (!P[i].held && !P[i].done) {
        int st;
        pid_t t = waitpid(-1, &st, __WALL);
        if (t < 0) { if (errno == EINTR) continue; printf("lost\n"); exit(97); }
        struct thr *x = find(t);
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (x) {
                for (int k = 0; k < np; k++)
                    if (P[k].pid == t) { P[k].done = 1; P[k].status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); printf("exit %d %d\n", k, P[k].status); }
                x->tid = 0;
            }
            continue;
        }
        int sig = WSTOPSIG(st), ev = st >> 16;
        if (ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK) {
            unsigned long c = 0;
            ptrace(PTRACE_GETEVENTMSG, t, 0, &c);
            struct thr *y = add(c, x ? x->proc : i, x ? x->freed : 0);
            if (y->seen == 1) { y->seen = 2; ptrace(PTRACE_CONT, c, 0, 0); }
            ptrace(PTRACE_CONT, t, 0, 0);
            continue;
        }
        if (!x) { x = add(t, -1, 0); x->seen = 1; continue; } // its parent's event follows
        if (ev == PTRACE_EVENT_EXEC) {
            int main = 0;
            for (int k = 0; k < np; k++) main |= P[k].pid == t;
            if (!main) x->freed = 1;
            ptrace(PTRACE_CONT, t, 0, 0);
            continue;
        }
        if (ev == PTRACE_EVENT_SECCOMP) {
            if (!x->freed && x->proc >= 0 && interesting(x, P[x->proc].event, sizeof P[0].event)) { P[x->proc].held = t; continue; }
            ptrace(PTRACE_CONT, t, 0, 0);
            continue;
        }
        if (ev) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
        if (sig == SIGSTOP && x->seen < 2) { x->seen = 2; ptrace(PTRACE_CONT, t, 0, 0); continue; }
        ptrace(PTRACE_CONT, t, 0, sig == SIGTRAP ? 0 : sig);
    }
}

int main(int argc, char **argv) {
    setvbuf(stdout, 0, _IOLBF, 0);
    char *prefix = argv[1];
    int a = 2;
    while (a < argc) {
        char *dir = argv[a++];
        char **cmd = argv + a;
        while (a < argc && strcmp(argv[a], "--")) a++;
        if (a < argc) argv[a++] = 0;
        pid_t p = fork();
        if (!p) {
            char o[4096];
            if (chdir(dir)) _exit(96);
            snprintf(o, sizeof o, "%s/stdout", dir);
            int fd = open(o, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
            fd = open("/dev/null", O_RDONLY);
            dup2(fd, 0);
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            raise(SIGSTOP);
            filter();
            execv(cmd[0], cmd);
            _exit(95);
        }
        int st;
        waitpid(p, &st, __WALL);
        if (!WIFSTOPPED(st)) { printf("notrace\n"); return 94; }
        if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP | PTRACE_O_EXITKILL)) { printf("notrace\n"); return 94; }
        P[np].pid = P[np].held = p;
        strcpy(P[np].event, "start");
        add(p, np, 0)->seen = 2;
        np++;
    }
    int last = -1;
    for (;;) {
        int any = 0, pick = -1;
        char en[MAXP + 1] = "";
        for (int k = 0; k < np; k++) if (!P[k].done) { any = 1; sprintf(en + strlen(en), "%d", k); }
        if (!any) break;
        if (*prefix) {
            pick = *prefix - '0';
            prefix++;
            if (*prefix == ',') prefix++;
            if (pick < 0 || pick >= np || P[pick].done) { printf("diverged\n"); return 93; }
        } else if (last >= 0 && !P[last].done) pick = last;
        else for (int k = np - 1; k >= 0; k--) if (!P[k].done) pick = k;
        printf("step %d %s %s\n", pick, en, P[pick].event);
        last = pick;
        pid_t t = P[pick].held;
        P[pick].held = 0;
        ptrace(PTRACE_CONT, t, 0, 0);
        run(pick);
    }
    printf("end\n");
    return 0;
}
