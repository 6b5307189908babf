// LD_PRELOAD shim for replays: logs what the program opens below SHIM_ROOT and injects the faults / listing order a
// counterexample asks for (SHIM_PLAN: "<op> <value> <path>" and "O <k> <value>").
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static int (*r_close)(int);
static DIR *(*r_opendir)(const char *);
static struct dirent *(*r_readdir)(DIR *);
static int (*r_closedir)(DIR *);
static int (*r_unlink)(const char *);
static int (*r_rename)(const char *, const char *);
static const char *root; static size_t rl; static int logfd = -1;
struct plan { char op; int v; char path[512]; } plan[64]; static int np;
static int ordv[256]; static int ordk;
static char *fdpath[1024]; static int fdhalf[1024];
struct dh { DIR *d; char path[512]; struct dirent ents[256]; int n, pos; struct dh *next; } *dirs;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void init(void) {
    r_open = dlsym(RTLD_NEXT, "open64"); r_openat = dlsym(RTLD_NEXT, "openat64"); r_read = dlsym(RTLD_NEXT, "read"); r_write = dlsym(RTLD_NEXT, "write"); r_close = dlsym(RTLD_NEXT, "close");
    r_opendir = dlsym(RTLD_NEXT, "opendir"); r_readdir = dlsym(RTLD_NEXT, "readdir64"); r_closedir = dlsym(RTLD_NEXT, "closedir"); r_unlink = dlsym(RTLD_NEXT, "unlink"); r_rename = dlsym(RTLD_NEXT, "rename");
    root = getenv("SHIM_ROOT"); if (root) rl = strlen(root);
    if (getenv("SHIM_LOG")) logfd = r_open(getenv("SHIM_LOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (getenv("SHIM_PLAN")) {
        FILE *f = fopen(getenv("SHIM_PLAN"), "r"); char line[700];
        while (f && fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (line[0] == 'O') { int k, v; if (sscanf(line + 1, "%d %d", &k, &v) == 2 && k < 256) ordv[k] = v; }
            else if (np < 64) { int off = 0; if (sscanf(line + 1, " %d %n", &plan[np].v, &off) >= 1) { plan[np].op = line[0]; snprintf(plan[np].path, 512, "%s", line + 1 + off); np++; } }
        }
        if (f) fclose(f);
    }
}
// path below root, normalised; NULL when outside
static int rel(const char *p, char *o) {
    char t[2048]; if (!root) return 0;
    if (p[0] == '/') snprintf(t, sizeof t, "%s", p); else { char c[1024]; if (!getcwd(c, sizeof c)) return 0; snprintf(t, sizeof t, "%s/%s", c, p); }
    char *seg[128]; int n = 0; char *sv = 0;
    for (char *s = strtok_r(t, "/", &sv); s; s = strtok_r(0, "/", &sv)) { if (!strcmp(s, ".")) continue; if (!strcmp(s, "..")) { if (n) n--; continue; } if (n < 128) seg[n++] = s; }
    char full[2048] = ""; for (int i = 0; i < n; i++) { strcat(full, "/"); strcat(full, seg[i]); }
    if (strncmp(full, root, rl) || (full[rl] && full[rl] != '/')) return 0;
    snprintf(o, 512, "%s", full[rl] ? full + rl + 1 : ""); return 1;
}
static int fault(char op, const char *p) { for (int i = 0; i < np; i++) if (plan[i].op == op && !strcmp(plan[i].path, p)) return plan[i].v; return 0; }
static void lg(char c, const char *p) { if (logfd < 0) return; char b[600]; int n = snprintf(b, sizeof b, "%c %s\n", c, p); r_write(logfd, b, n); }
static int do_open(const char *p, int fl, mode_t m) {
    char q[512]; int in = rel(p, q); int acc = fl & O_ACCMODE;
    if (in) {
        struct stat s; int dir = !stat(p, &s) && S_ISDIR(s.st_mode);
        if (acc == O_RDONLY) { if (!dir && fault('o', q)) { errno = EACCES; return -1; } } else if (fault('w', q)) { errno = EACCES; return -1; }
    }
    int f = r_open(p, fl, m);
    if (in && f >= 0) { lg(acc == O_RDONLY ? 'r' : 'w', q); if (acc != O_RDONLY) lg('r', q); if (f < 1024) { pthread_mutex_lock(&mu); free(fdpath[f]); fdpath[f] = strdup(q); fdhalf[f] = 0; pthread_mutex_unlock(&mu); } }
    return f;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE if (d == AT_FDCWD) return do_open(p, fl, m); return r_openat(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE if (d == AT_FDCWD) return do_open(p, fl, m); return r_openat(d, p, fl, m); }
int close(int f) { if (f >= 0 && f < 1024) { pthread_mutex_lock(&mu); free(fdpath[f]); fdpath[f] = 0; pthread_mutex_unlock(&mu); } return r_close(f); }
static const char *fp(int f) { return f >= 0 && f < 1024 ? fdpath[f] : 0; }
ssize_t read(int f, void *b, size_t n) { const char *p = fp(f); if (p && fault('r', p)) { errno = EIO; return -1; } return r_read(f, b, n); }
ssize_t write(int f, const void *b, size_t n) {
    const char *p = fp(f);
    if (p) { int v = fault('W', p); if (v == 1 || (v == 2 && fdhalf[f])) { errno = ENOSPC; return -1; } if (v == 2) { fdhalf[f] = 1; n = (n + 1) / 2; } }
    return r_write(f, b, n);
}
int unlink(const char *p) { char q[512]; if (rel(p, q)) lg('w', q); return r_unlink(p); }
int rename(const char *a, const char *b) { char q[512]; if (rel(a, q)) lg('w', q); if (rel(b, q)) lg('w', q); return r_rename(a, b); }
static int cmp(const void *a, const void *b) { return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name); }
DIR *opendir(const char *p) {
    char q[512]; int in = rel(p, q);
    if (in && fault('l', q)) { errno = EACCES; return 0; }
    DIR *d = r_opendir(p);
    if (d && in) {
        lg('r', q);
        struct dh *h = calloc(1, sizeof *h); h->d = d; snprintf(h->path, 512, "%s", q);
        struct dirent *e; while ((e = r_readdir(d)) && h->n < 256) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; h->ents[h->n++] = *e; }
        qsort(h->ents, h->n, sizeof *h->ents, cmp);
        pthread_mutex_lock(&mu);
        if (h->n > 1 && ordk < 256) { int v = ordv[ordk++]; if (v == 1) { for (int i = 0; i < h->n / 2; i++) { struct dirent t = h->ents[i]; h->ents[i] = h->ents[h->n - 1 - i]; h->ents[h->n - 1 - i] = t; } } else if (v > 1 && v - 1 < h->n) { struct dirent t = h->ents[v - 1]; memmove(h->ents + 1, h->ents, (v - 1) * sizeof t); h->ents[0] = t; } }
        h->next = dirs; dirs = h; pthread_mutex_unlock(&mu);
    }
    return d;
}
static struct dh *find(DIR *d) { pthread_mutex_lock(&mu); struct dh *h = dirs; while (h && h->d != d) h = h->next; pthread_mutex_unlock(&mu); return h; }
struct dirent64 *readdir64(DIR *d) { struct dh *h = find(d); if (!h) return (struct dirent64 *)r_readdir(d); int v = fault('e', h->path); if (v == 1 || (v == 2 && h->pos > 0)) { errno = EIO; return 0; } return h->pos < h->n ? (struct dirent64 *)&h->ents[h->pos++] : 0; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { pthread_mutex_lock(&mu); struct dh **h = &dirs; while (*h && (*h)->d != d) h = &(*h)->next; if (*h) { struct dh *x = *h; *h = x->next; free(x); } pthread_mutex_unlock(&mu); return r_closedir(d); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!r) r = dlsym(RTLD_NEXT, "pthread_create");
    lg('t', ""); return r(t, a, f, x);
}
