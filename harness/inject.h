// In-process system-call interception (seccomp TRAP + SIGSYS): counts, logs, fails, cuts short or
// kills at a chosen system call of the library.  Installed in forked children only.
#pragma once
#include "common.h"
#include <stddef.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>

extern "C" { extern char inj_begin[], inj_end[]; long inj_raw(long n, long a, long b, long c, long d, long e, long f); }
asm(".text\n.globl inj_begin\ninj_begin:\n.globl inj_raw\ninj_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl inj_end\ninj_end:\n ret\n");

enum SClass { S_OPEN, S_READ, S_WRITE, S_SEEK, S_STAT, S_MKDIR, S_CLOSE, S_OTHER, S_NONE };
static const char *sclass_name[] = {"open", "read", "write", "seek", "stat", "mkdir", "close", "other", "none"};
enum FKind { F_NONE, F_ERR, F_EOF, F_SHORT, F_SHORT_ERR, F_CLOSE_ERR, F_CLOSE_LOST, F_KILL };
static const char *fkind_name[] = {"none", "error", "eof", "short", "short+error", "close-error", "close-lost", "kill"};
struct SysRec { short nr, cls, op, flags; int len; }; // flags: 1 creating open, 2 attribute file, 4 file was written
struct Extent { int file, fileid; long off, len; int op; };
struct Inj {
    volatile int armed, op; long count, target; int kind, err, persistent; long fired; int pending_fd, pending_err;
    SysRec log[20000]; long nlog;
    // extents written to data files, for kill verdicts
    Extent ext[20000]; long next; char root[512];
    char key[64], msg[4000]; volatile int status, failed_op, nfailed;
    // the writes of every open file, to lose them
    struct { int fd; long off, len, oldsize, at; } wr[3000]; int nwr; char arena[3 << 20]; long used; int overflow;
    struct { char path[400]; int attr, wrote; } fd[256];
};
static Inj *inj;

static int sclass(long nr) {
    switch(nr) {
        case SYS_open: case SYS_openat: case SYS_creat: return S_OPEN;
        case SYS_read: case SYS_pread64: case SYS_readv: return S_READ;
        case SYS_write: case SYS_pwrite64: case SYS_writev: return S_WRITE;
        case SYS_lseek: return S_SEEK;
        case SYS_stat: case SYS_fstat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case 439: return S_STAT;
        case SYS_mkdir: case SYS_mkdirat: return S_MKDIR;
        case SYS_close: return S_CLOSE;
        case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: case SYS_ftruncate: case SYS_truncate: case SYS_fsync: case SYS_fdatasync: case SYS_fallocate: case SYS_getdents64: case SYS_utimes: case SYS_utimensat: case SYS_link: case SYS_linkat: case SYS_copy_file_range: case SYS_sendfile: return S_OTHER;
    }
    return S_NONE;
}
static long inj_call(long nr, const long *a) { return inj_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); }
static bool str_ends(const char *s, const char *e) { size_t n = strlen(s), m = strlen(e); return n >= m && !strcmp(s + n - m, e); }

static void inj_note_write(long nr, const long *a, long done_off, long len) { // an extent of a data file "%06X"
    int fd = a[0]; if(fd < 0 || fd >= 256 || len <= 0) return;
    inj->fd[fd].wrote = 1; const char *p = inj->fd[fd].path, *b = strrchr(p, '/'); if(!b) return;
    long id = 0; int k = 0; for(const char *q = b + 1; *q; q++, k++) { int v = *q >= '0' && *q <= '9' ? *q - '0' : *q >= 'A' && *q <= 'F' ? *q - 'A' + 10 : -1; if(v < 0) return; id = id * 16 + v; }
    if(k < 6 || inj->next >= 20000) return;
    uint64_t h = 1469598103934665603ull; for(const char *q = p; q < b; q++) { if(*q == '/' && q[1] == '/') continue; h ^= (u8)*q; h *= 1099511628211ull; }
    Extent &e = inj->ext[inj->next++]; e.file = (int)(h & 0x7fffffff); e.fileid = id; e.off = done_off; e.len = len; e.op = inj->op;
}
static int dir_hash(const string &dir) { uint64_t h = 1469598103934665603ull; for(size_t i = 0; i < dir.size(); i++) { if(dir[i] == '/' && i + 1 < dir.size() && dir[i + 1] == '/') continue; h ^= (u8)dir[i]; h *= 1099511628211ull; } return (int)(h & 0x7fffffff); }

static long inj_do(long nr, long *a) {
    Inj *J = inj; if(!J || !J->armed) return inj_call(nr, a);
    int cls = sclass(nr); long idx = J->count++; int fd = (int)a[0]; bool okfd = fd >= 0 && fd < 256;
    const char *path = nr == SYS_openat ? (const char *)a[1] : (nr == SYS_open || nr == SYS_creat) ? (const char *)a[0] : NULL;
    long oflags = nr == SYS_openat ? a[2] : nr == SYS_open ? a[1] : nr == SYS_creat ? O_CREAT | O_WRONLY | O_TRUNC : 0;
    int flags = 0; if(path) { if(oflags & O_CREAT) flags |= 1; if(str_ends(path, "/attr-v2") || str_ends(path, "/attr")) flags |= 2; } else if(okfd && (cls == S_READ || cls == S_WRITE || cls == S_CLOSE)) { if(J->fd[fd].attr) flags |= 2; if(J->fd[fd].wrote) flags |= 4; }
    if(J->nlog < 20000) { SysRec &l = J->log[J->nlog++]; l.nr = nr; l.cls = cls; l.op = J->op; l.flags = flags; l.len = (cls == S_READ || cls == S_WRITE) ? (int)std::min(a[2], 1000000L) : 0; }
    bool fire = idx == J->target && J->kind != F_NONE;
    if(!fire && J->persistent && J->fired && J->nlog && cls == J->persistent - 1) fire = true;
    if(fire && J->kind == F_KILL) { inj_raw(SYS_kill, inj_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for(;;) ; }
    if(cls == S_WRITE && J->pending_err && fd == J->pending_fd) { int e = J->pending_err; J->pending_err = 0; return -e; }
    if(fire) {
        switch(J->kind) {
            case F_ERR: J->fired++; return -J->err;
            case F_EOF: J->fired++; return 0;
            case F_SHORT: if((nr == SYS_write || nr == SYS_read) && a[2] >= 2) { a[2] /= 2; J->fired++; } break;
            case F_SHORT_ERR: if(nr == SYS_write && a[2] >= 2) { a[2] /= 2; J->fired++; J->pending_fd = fd; J->pending_err = J->err; } break;
            case F_CLOSE_ERR: case F_CLOSE_LOST: {
                if(J->kind == F_CLOSE_LOST) { if(J->overflow) break; for(int i = J->nwr - 1; i >= 0; i--) if(J->wr[i].fd == fd) { auto &w = J->wr[i]; if(w.at >= 0) { long x[6] = {fd, (long)(J->arena + w.at), w.len, w.off, 0, 0}; inj_call(SYS_pwrite64, x); } long y[6] = {fd, w.oldsize, 0, 0, 0, 0}; inj_call(SYS_ftruncate, y); } }
                J->fired++; J->fd[fd & 255].path[0] = 0; inj_call(nr, a); return -J->err; }
        }
    }
    long off = -1;
    if((nr == SYS_write || nr == SYS_pwrite64) && okfd) {
        long s[6] = {fd, 0, SEEK_CUR, 0, 0, 0}; off = nr == SYS_pwrite64 ? a[3] : inj_call(SYS_lseek, s);
        if(off >= 0) { // keep what is overwritten
            struct stat st; long f[6] = {fd, (long)&st, 0, 0, 0, 0}; inj_call(SYS_fstat, f);
            long old = std::max(0L, std::min((long)st.st_size - off, a[2]));
            if(J->nwr >= 3000 || J->used + old > (long)sizeof J->arena) J->overflow = 1;
            else { auto &w = J->wr[J->nwr++]; w.fd = fd; w.off = off; w.len = old; w.oldsize = st.st_size; w.at = old ? J->used : -1; if(old) { // the descriptor may not be readable
                        char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", fd); long o[6] = {AT_FDCWD, (long)pp, O_RDONLY, 0, 0, 0}; int rfd = inj_call(SYS_openat, o); long x[6] = {rfd, (long)(J->arena + J->used), old, off, 0, 0}; inj_call(SYS_pread64, x); long cl[6] = {rfd, 0, 0, 0, 0, 0}; inj_call(SYS_close, cl); J->used += old; } }
        }
    }
    long rt = inj_call(nr, a);
    if(cls == S_OPEN && rt >= 0 && rt < 256) { strncpy(J->fd[rt].path, path, 399); J->fd[rt].attr = (flags & 2) != 0; J->fd[rt].wrote = 0; int k = 0; for(int i = 0; i < J->nwr; i++) if(J->wr[i].fd != rt) J->wr[k++] = J->wr[i]; J->nwr = k; if(k == 0) J->used = 0; }
    if(cls == S_WRITE && rt > 0 && off >= 0) inj_note_write(nr, a, off, rt);
    return rt;
}
static void inj_handler(int, siginfo_t *, void *u) {
    ucontext_t *c = (ucontext_t *)u; greg_t *g = c->uc_mcontext.gregs; int e = errno;
    long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
    g[REG_RAX] = inj_do((long)g[REG_RAX], a); errno = e;
}
static void inj_install() { // in the child: every call of a traced class not made by the stub traps
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = inj_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, NULL);
    vector<struct sock_filter> f; uint64_t ip = (uint64_t)inj_end; vector<int> nrs; for(int n = 0; n < 460; n++) if(sclass(n) != S_NONE) nrs.push_back(n);
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned)offsetof(struct seccomp_data, instruction_pointer)));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)ip, 0, 3));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned)offsetof(struct seccomp_data, instruction_pointer) + 4));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip >> 32), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned)offsetof(struct seccomp_data, nr)));
    for(size_t i = 0; i < nrs.size(); i++) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nrs[i], 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)); }
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    struct sock_fprog p = {(unsigned short)f.size(), f.data()};
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { fprintf(stderr, "HARNESS: no seccomp: %s\n", strerror(errno)); _exit(97); }
}
static void inj_alloc() { if(!inj) { inj = (Inj *)mmap(NULL, sizeof(Inj), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(inj == MAP_FAILED) _exit(97); } }
static void inj_reset() { inj->armed = 0; inj->op = 0; inj->count = 0; inj->target = -1; inj->kind = 0; inj->err = 0; inj->persistent = 0; inj->fired = 0; inj->pending_err = 0; inj->nlog = 0; inj->next = 0; inj->key[0] = inj->msg[0] = 0; inj->status = 0; inj->failed_op = -1; inj->nfailed = 0; inj->nwr = 0; inj->used = 0; inj->overflow = 0; memset(inj->fd, 0, sizeof inj->fd); }

// Runs fn in a forked child; its failures come back through the shared page.  Returns the wait status.
static int in_child(Ctx &c, std::function<void()> fn, string &err, int limit_s = 60) {
    string ef = c.dir + ".err"; fflush(NULL);
    pid_t p = fork(); if(p < 0) _exit(97);
    if(!p) {
        int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); close(e); alarm(limit_s);
        try { fn(); inj->armed = 0; inj->status = 1; } catch(const Fail &f) { inj->armed = 0; snprintf(inj->key, sizeof inj->key, "%s", f.key.c_str()); snprintf(inj->msg, sizeof inj->msg, "%s", f.msg.c_str()); inj->status = 2; }
        inj_raw(SYS_exit_group, 0, 0, 0, 0, 0, 0); _exit(0);
    }
    int st = 0; while(waitpid(p, &st, 0) < 0) if(errno != EINTR) _exit(97);
    Bytes b; read_file(ef, b); unlink(ef.c_str()); err = string(b.begin(), b.end()); return st;
}
static string crash_key(const string &err, int st) {
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "hang";
    size_t i = err.find("runtime error: "); if(i != string::npos) { string k = "crash:ubsan "; for(char ch : err.substr(i + 15, 60)) { if(ch == '\n') break; k += isdigit(ch) ? 'N' : ch; } return k; }
    i = err.find("AddressSanitizer: "); if(i != string::npos) { size_t e = err.find_first_of(" \n", i + 18); return "crash:address " + err.substr(i + 18, e - i - 18); }
    if(WIFSIGNALED(st)) return fmt("crash:signal %d", WTERMSIG(st));
    return fmt("crash:exit %d", WEXITSTATUS(st));
}
