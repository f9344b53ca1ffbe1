/*
 * Runs the real detox code (compiled from /repo's current sources with the address sanitizer) on inputs given one per
 * line on stdin, one answer per line on fd 3.  The file system is a stand-in held in memory: rename, lstat, stat,
 * opendir, readdir, closedir and fopen of the code under test never reach the real one.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <locale.h>
#include <libgen.h>

#include "detox_struct.h"
#include "builtin_table.h"
#include "clean_string.h"
#include "clean_utf_8.h"
#include "config_file.h"
#include "config_file_spoof.h"
#include "file.h"
#include "filelist.h"
#include "filter.h"
#include "parse_options.h"
#include "parse_table.h"
#include "sequence.h"
#include "table.h"
#include "wrapped.h"

int detox_main(int argc, char **argv);

static FILE *ans;

/* ------------------------------------------------------------------ text helpers */
static char *unhex(const char *s, size_t *len)          /* "-" NULL, "=hex" */
{
    size_t n, i;
    char *r;
    if (s == NULL || *s != '=') { if (len) *len = 0; return NULL; }
    s++;
    n = strcspn(s, " ,;:\n\t|") / 2;
    r = malloc(n + 1);
    for (i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); r[i] = (char) x; }
    r[n] = 0;
    if (len) *len = n;
    return r;
}

static void hexn(FILE *f, const char *s, size_t n)
{
    size_t i;
    fputc('=', f);
    for (i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char) s[i]);
}

static void hex(FILE *f, const char *s)
{
    if (s == NULL) fputc('-', f);
    else hexn(f, s, strlen(s));
}

/* ------------------------------------------------------------------ process stand-ins */
static jmp_buf bail;
static int can_bail, in_child, exit_code;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c)
{
    if (in_child || !can_bail) { __real_exit(c); }
    exit_code = c;
    longjmp(bail, 1);
}

static long fail_at = -1, alloc_count;
static int watching;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
static int fails(void)
{
    if (!watching) return 0;
    alloc_count++;
    return fail_at >= 0 && alloc_count == fail_at % 1000;
}
void *__wrap_malloc(size_t n) { return fails() ? (errno = fail_at >= 2000 ? 0 : fail_at >= 1000 ? EAGAIN : ENOMEM, NULL) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fails() ? (errno = fail_at >= 2000 ? 0 : fail_at >= 1000 ? EAGAIN : ENOMEM, NULL) : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? (errno = fail_at >= 2000 ? 0 : fail_at >= 1000 ? EAGAIN : ENOMEM, NULL) : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return fails() ? (errno = fail_at >= 2000 ? 0 : fail_at >= 1000 ? EAGAIN : ENOMEM, NULL) : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return fails() ? (errno = fail_at >= 2000 ? 0 : fail_at >= 1000 ? EAGAIN : ENOMEM, NULL) : __real_strndup(s, n); }

/* ------------------------------------------------------------------ file system stand-in */
typedef struct { char *path; char type; long ino, dev, nlink; char *data; size_t len; int live; } node;
static node *fs;
static int nfs;
static FILE *evt;
static long rename_calls, fail_rename = -1;
static int fake_on;

static void event(const char *op, const char *a, const char *b, long r)
{
    if (!evt) return;
    int w = watching;
    watching = 0;
    fprintf(evt, "%s:", op);
    hex(evt, a);
    fputc(':', evt);
    hex(evt, b);
    fprintf(evt, ":%ld|", r);
    fflush(evt);
    watching = w;
}

/* canonical spelling: drops "." components and doubled separators; keeps ".." as a component */
static char *canon(const char *p)
{
    char *o = __real_malloc(strlen(p) + 3), *w = o;
    const char *q = p;
    if (*q == '/') *w++ = '/';
    while (*q) {
        size_t n;
        while (*q == '/') q++;
        n = strcspn(q, "/");
        if (n == 0) break;
        if (!(n == 1 && q[0] == '.')) {
            if (w > o && w[-1] != '/') *w++ = '/';
            memcpy(w, q, n);
            w += n;
        }
        q += n;
    }
    if (w == o) *w++ = '.';
    *w = 0;
    return o;
}

static node *lookup_canon(const char *c)
{
    int i;
    for (i = 0; i < nfs; i++) if (fs[i].live && strcmp(fs[i].path, c) == 0) return &fs[i];
    return NULL;
}

/* follow links in all but (if !last) the final component */
static node *resolve(const char *p, int last, int depth)
{
    char *c = canon(p);
    char *s;
    node *n = NULL;
    if (*p == 0) { free(c); errno = ENOENT; return NULL; }
    /* directory prefixes must be directories */
    for (s = c + 1; *c && (s = strchr(s, '/')); s++) {
        *s = 0;
        n = lookup_canon(c);
        if (n == NULL) { free(c); errno = ENOENT; return NULL; }
        if (n->type == 'l') {
            char *j;
            if (depth > 8) { free(c); errno = ELOOP; return NULL; }
            j = __real_malloc(strlen(n->data) + strlen(s + 1) + 2);
            sprintf(j, "%s/%s", n->data, s + 1);
            n = resolve(j, last, depth + 1);
            free(j);
            free(c);
            return n;
        }
        if (n->type != 'd') { free(c); errno = ENOTDIR; return NULL; }
        *s = '/';
    }
    n = lookup_canon(c);
    if (n == NULL) { free(c); errno = ENOENT; return NULL; }
    if ((last || p[strlen(p) - 1] == '/') && n->type == 'l') {
        if (depth > 8) { free(c); errno = ELOOP; return NULL; }
        n = resolve(n->data, 1, depth + 1);
    } else if (p[strlen(p) - 1] == '/' && n->type != 'd') {
        n = NULL;
        errno = ENOTDIR;
    }
    free(c);
    return n;
}

static void fill(struct stat *st, node *n)
{
    memset(st, 0, sizeof(*st));
    st->st_dev = n->dev;
    st->st_ino = n->ino;
    st->st_nlink = n->nlink;
    st->st_size = n->len;
    st->st_blocks = (n->len + 511) / 512;
    st->st_mode = (n->type == 'd' ? S_IFDIR : n->type == 'l' ? S_IFLNK : n->type == 'p' ? S_IFIFO : n->type == 's' ? S_IFSOCK : n->type == 'c' ? S_IFCHR : S_IFREG) | 0644;
}

int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *st)
{
    node *n = resolve(p, 0, 0);
    event("lstat", p, NULL, n ? n->ino : -1);
    if (n == NULL) return -1;
    fill(st, n);
    return 0;
}
int __wrap_stat(const char *p, struct stat *st)
{
    node *n = resolve(p, 1, 0);
    event("stat", p, NULL, n ? n->ino : -1);
    if (n == NULL) return -1;
    fill(st, n);
    return 0;
}
int __wrap_access(const char *p, int m)
{
    node *n = resolve(p, 1, 0);
    event("access", p, NULL, n ? n->ino : -1);
    return n ? 0 : -1;
}

static int do_rename(const char *a, const char *b)
{
    node *n = resolve(a, 0, 0), *m;
    char *ca, *cb, *s;
    size_t l;
    int i;
    if (n == NULL) return -1;
    if (*b == 0) { errno = ENOENT; return -1; }
    m = resolve(b, 0, 0);
    ca = n->path;
    cb = canon(b);
    if (m == NULL) {
        /* the parent has to exist and be a directory */
        s = strrchr(cb, '/');
        if (s != NULL && s != cb) {
            node *d;
            *s = 0;
            d = resolve(cb, 1, 0);
            if (d == NULL || d->type != 'd') { free(cb); errno = ENOENT; return -1; }
            l = strlen(d->path);
            char *j = __real_malloc(l + strlen(s + 1) + 2);
            sprintf(j, "%s/%s", d->path, s + 1);
            free(cb);
            cb = j;
        }
        if (b[strlen(b) - 1] == '/' && n->type != 'd') { free(cb); errno = ENOTDIR; return -1; }
    } else {
        if (m->ino == n->ino && m->dev == n->dev && m != n && n->nlink > 1) { free(cb); return 0; }
        free(cb);
        cb = __real_strdup(m->path);
        if (m != n && !(m->ino == n->ino && m->dev == n->dev)) {
            if (m->type == 'd') { free(cb); errno = EISDIR; return -1; }
        }
        if (m != n) m->live = 0;
    }
    ca = __real_strdup(ca);
    l = strlen(ca);
    for (i = 0; i < nfs; i++) {
        if (!fs[i].live) continue;
        if (strcmp(fs[i].path, ca) == 0 || (strncmp(fs[i].path, ca, l) == 0 && fs[i].path[l] == '/')) {
            char *j = __real_malloc(strlen(cb) + strlen(fs[i].path + l) + 1);
            sprintf(j, "%s%s", cb, fs[i].path + l);
            fs[i].path = j;
        }
    }
    return 0;
}

int __wrap_rename(const char *a, const char *b)
{
    node *n, *m;
    int r;
    long k = 0;
    rename_calls++;
    n = resolve(a, 0, 0);
    m = *b ? resolve(b, 0, 0) : NULL;
    if (m != NULL && n != NULL && m != n && (m->ino != n->ino || m->dev != n->dev)) k = 1;      /* replaces another file */
    else if (m != NULL && n != NULL && m != n) k = 2;                                           /* another name of the same file */
    if (fail_rename >= 0 && rename_calls == fail_rename) { errno = EACCES; r = -1; }
    else r = do_rename(a, b);
    event(k == 1 ? "rename!" : k == 2 ? "rename2" : "rename", a, b, r);
    return r;
}
int __wrap_renameat(int d, const char *a, int e, const char *b) { return __wrap_rename(a, b); }
int __wrap_unlink(const char *a) { event("unlink", a, NULL, 0); return 0; }
int __wrap_remove(const char *a) { event("unlink", a, NULL, 0); return 0; }
int __wrap_rmdir(const char *a) { event("unlink", a, NULL, 0); return 0; }
int __wrap_link(const char *a, const char *b) { event("link", a, b, 0); return 0; }
int __wrap_mkdir(const char *a, mode_t m) { event("mkdir", a, NULL, 0); return 0; }

typedef struct { int n, i; char **names; char *types; struct dirent ent; } fdir;
static int nodir_errno;
static char *nodir;
DIR *__wrap_opendir(const char *p)
{
    node *d = resolve(p, 1, 0);
    fdir *f;
    int i;
    size_t l;
    if (d != NULL && nodir != NULL && strcmp(d->path, nodir) == 0) { event("opendir", p, NULL, -1); errno = nodir_errno; return NULL; }
    event("opendir", p, NULL, d && d->type == 'd' ? d->ino : -1);
    if (d == NULL) return NULL;
    if (d->type != 'd') { errno = ENOTDIR; return NULL; }
    f = __real_calloc(1, sizeof(*f));
    f->names = __real_malloc(sizeof(char *) * (nfs + 2));
    f->names[f->n++] = ".";
    f->names[f->n++] = "..";
    l = strcmp(d->path, ".") == 0 ? 0 : strlen(d->path);
    for (i = 0; i < nfs; i++) {
        const char *q = fs[i].path;
        if (!fs[i].live) continue;
        if (l == 0) { if (strcmp(q, ".") && !strchr(q, '/')) f->names[f->n++] = __real_strdup(q); }
        else if (strncmp(q, d->path, l) == 0 && q[l] == '/' && q[l + 1] && !strchr(q + l + 1, '/')) f->names[f->n++] = __real_strdup(q + l + 1);
    }
    return (DIR *) f;
}
struct dirent *__wrap_readdir(DIR *d)
{
    fdir *f = (fdir *) d;
    if (f->i >= f->n) return NULL;
    memset(&f->ent, 0, sizeof(f->ent));
    strncpy(f->ent.d_name, f->names[f->i++], sizeof(f->ent.d_name) - 1);
    f->ent.d_type = DT_UNKNOWN;
    return &f->ent;
}
int __wrap_closedir(DIR *d) { event("closedir", NULL, NULL, 0); free(d); return 0; }

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
    node *n;
    if (!fake_on || strcmp(p, "/dev/null") == 0) return __real_fopen(p, m);
    if (*m != 'r') { event("create", p, NULL, 0); return __real_fopen("/dev/null", "w"); }
    n = resolve(p, 1, 0);
    event("fopen", p, NULL, n && n->type != 'd' && n->type != 'x' ? n->ino : -1);
    if (n == NULL) return NULL;
    if (n->type == 'x') { errno = EACCES; return NULL; }
    if (n->len == 0) return __real_fopen("/dev/null", "r");
    FILE *t = tmpfile();
    fwrite(n->data, 1, n->len, t);
    rewind(t);
    return t;
}
static char *fake_locale;
char *__real_setlocale(int, const char *);
char *__wrap_setlocale(int c, const char *l)
{
    if (fake_locale != NULL && l != NULL && *l == 0) return strcmp(fake_locale, "NULL") == 0 ? NULL : fake_locale;
    return __real_setlocale(c, l);
}
static struct { char *k, *v; } envs[16];
static int nenv, fake_env;
char *__real_getenv(const char *);
char *__wrap_getenv(const char *k)
{
    int i;
    if (!fake_env) return __real_getenv(k);
    event("getenv", k, NULL, 0);
    for (i = 0; i < nenv; i++) if (strcmp(envs[i].k, k) == 0) return envs[i].v;
    return NULL;
}

static void fs_add(char *spec)                  /* type,ino,dev,nlink,=path,=data */
{
    node n;
    char t;
    int off = 0;
    char *p, *d;
    memset(&n, 0, sizeof n);
    sscanf(spec, "%c,%ld,%ld,%ld,%n", &t, &n.ino, &n.dev, &n.nlink, &off);
    p = unhex(spec + off, NULL);
    d = strchr(spec + off, ',');
    n.type = t;
    n.path = canon(p);
    n.data = unhex(d + 1, &n.len);
    n.live = 1;
    fs = realloc(fs, sizeof(node) * (nfs + 1));
    fs[nfs++] = n;
}

/* ------------------------------------------------------------------ tables */
static table_t *mktable(const char *s)          /* rows,hash,default,k:=v,k:=v  ; "-" none */
{
    table_t *t;
    int rows, hash, off;
    const char *q;
    if (*s == '-') return NULL;
    if (*s == '@') {                            /* built in */
        if (!strncmp(s, "@safe", 5)) return load_builtin_safe_table();
        if (!strncmp(s, "@unicode", 8)) return load_builtin_unicode_table();
        if (!strncmp(s, "@iso", 4)) return load_builtin_iso8859_1_table();
        return load_builtin_cp1252_table();
    }
    sscanf(s, "%d,%d,%n", &rows, &hash, &off);
    t = table_init(rows);
    t->use_hash = hash;
    q = s + off;
    t->default_translation = unhex(q, NULL);
    while ((q = strchr(q, ',')) != NULL) {
        unsigned k;
        char *v;
        q++;
        k = strtoul(q, NULL, 10);
        v = unhex(strchr(q, ':') + 1, NULL);
        table_put(t, k, v);
        free(v);
    }
    return t;
}

static void dump_table(table_t *t)
{
    int i;
    if (t == NULL) { fprintf(ans, " none"); return; }
    fprintf(ans, " %d,%d,%d,", t->length, t->use_hash, t->max_data_length);
    hex(ans, t->default_translation);
    for (i = 0; i < t->length; i++) {
        if (t->rows[i].key == 0) continue;
        fprintf(ans, ",%u:", t->rows[i].key);
        hex(ans, t->rows[i].data);
        /* what a lookup finds */
        fputc(':', ans);
        hex(ans, table_get(t, t->rows[i].key));
    }
}

/* ------------------------------------------------------------------ operations */
static char *word[30000];
static int nword;

static char *dup_exact(const char *s)           /* exactly sized, so that the sanitizer sees overruns */
{
    char *r;
    if (s == NULL) return NULL;
    r = __real_malloc(strlen(s) + 1);
    strcpy(r, s);
    return r;
}

static char *filter_op(const char *name, char *in, const char *arg)
{
    table_t *t;
    if (!strcmp(name, "lower")) return clean_lower(in);
    if (!strcmp(name, "uncgi")) return clean_uncgi(in);
    if (!strcmp(name, "wipeup")) return clean_wipeup(in, atoi(arg));
    if (!strcmp(name, "max_length")) return clean_max_length(in, strtoul(arg, NULL, 10));
    t = mktable(arg);
    if (!strcmp(name, "safe")) return clean_safe(in, t);
    if (!strcmp(name, "iso8859_1")) return clean_iso8859_1(in, t);
    return clean_utf_8(in, t);
}

static void op_filter(void)                     /* filter name =in arg */
{
    char *in = dup_exact(unhex(word[2], NULL)), *out;
    char *keep = in ? strdup(in) : NULL;
    out = filter_op(word[1], in, nword > 3 ? word[3] : "0");
    hex(ans, out);
    fprintf(ans, " %s", (in == NULL || strcmp(in, keep) == 0) && (out == NULL || out != in) ? "kept" : "changed");
    free(out);
    free(in);
}

static void op_table(void)                      /* table rows hash op op ...; p:k:=v  g:k  d:=v  r:rows:hash  f  m */
{
    table_t *t = table_init(atoi(word[1])), *o = NULL;
    int i;
    t->use_hash = atoi(word[2]);
    for (i = 3; i < nword; i++) {
        char *w = word[i];
        char *v;
        fputc(' ', ans);
        switch (*w) {
            case 'p':
                v = dup_exact(unhex(strchr(w + 2, ':') + 1, NULL));
                fprintf(ans, "%d", table_put(t, strtoul(w + 2, NULL, 10), v) >= 0);
                memset(v, '#', strlen(v));      /* the table must have its own copy */
                free(v);
                break;
            case 'P':                           /* own data of the table as argument */
                v = table_get(t, strtoul(strchr(w + 2, ':') + 1, NULL, 10));
                fprintf(ans, "%d", v == NULL ? -1 : table_put(t, strtoul(w + 2, NULL, 10), v) >= 0);
                break;
            case 'g': hex(ans, table_get(t, strtoul(w + 2, NULL, 10))); break;
            case 'd': t->default_translation = unhex(w + 2, NULL); fputc('d', ans); break;
            case 'D': hex(ans, t->default_translation); break;
            case 'm': fprintf(ans, "%d", t->max_data_length); break;
            case 'l': fprintf(ans, "%d", t->length); break;
            case 'r':
                o = t;
                t = table_resize(t, atoi(w + 2), atoi(strchr(w + 2, ':') + 1));
                fputc('r', ans);
                break;
            case 'F': if (o) table_free(o); o = NULL; fputc('F', ans); break;
            case 'n': fprintf(ans, "%d", table_put(NULL, 1, "x")); hex(ans, table_get(NULL, 1)); break;
        }
    }
    if (o) table_free(o);
    table_free(t);
}

static void op_list(void)                       /* p:=v g r c */
{
    filelist_t *l = filelist_init();
    int i;
    for (i = 1; i < nword; i++) {
        char *w = word[i], *v;
        fputc(' ', ans);
        switch (*w) {
            case 'p':
                v = dup_exact(unhex(w + 2, NULL));
                filelist_put(l, v);
                memset(v, '#', strlen(v));
                free(v);
                fputc('p', ans);
                break;
            case 'g': hex(ans, filelist_get(l)); break;
            case 'r': filelist_reset(l); fputc('r', ans); break;
            case 'c': fprintf(ans, "%d", filelist_count(l)); break;
            case 'n': hex(ans, filelist_get(NULL)); fprintf(ans, "%d", filelist_count(NULL)); filelist_reset(NULL); filelist_free(NULL); break;
        }
    }
    filelist_free(l);
}

static int cleaner_no(const char *n)
{
    const char *names[] = { "iso8859_1", "lower", "max_length", "safe", "uncgi", "utf_8", "wipeup" };
    int c[] = { FILTER_ISO8859_1, FILTER_LOWER, FILTER_MAX_LENGTH, FILTER_SAFE, FILTER_UNCGI, FILTER_UTF_8, FILTER_WIPEUP };
    int i;
    for (i = 0; i < 7; i++) if (!strncmp(n, names[i], strlen(names[i]))) return c[i];
    return 99;
}

static const char *cleaner_name(int c)
{
    switch (c) {
        case FILTER_ISO8859_1: return "iso8859_1";
        case FILTER_LOWER: return "lower";
        case FILTER_MAX_LENGTH: return "max_length";
        case FILTER_SAFE: return "safe";
        case FILTER_UNCGI: return "uncgi";
        case FILTER_UTF_8: return "utf_8";
        case FILTER_WIPEUP: return "wipeup";
    }
    return "?";
}

static filter_t *mkfilters(int from)            /* name/len/trail/table ... */
{
    filter_t *first = NULL, **p = &first;
    int i;
    for (i = from; i < nword; i++) {
        char *w = word[i];
        filter_t *f = filter_init(cleaner_no(w));
        char *q = strchr(w, '/') + 1;
        f->max_length = strtoul(q, &q, 10);
        q++;
        f->remove_trailing = atoi(q);
        q = strchr(q, '/') + 1;
        f->table = mktable(q);
        *p = f;
        p = &f->next;
    }
    return first;
}

static void op_run(void)                        /* run =in filter... */
{
    char *in = dup_exact(unhex(word[1], NULL)), *out;
    char *keep = in ? strdup(in) : NULL;
    sequence_t *s = sequence_init("x");
    s->filters = mkfilters(2);
    out = sequence_run_filters(s, in);
    hex(ans, out);
    fprintf(ans, " %s", (in == NULL || strcmp(in, keep) == 0) && (out == NULL || out != in) ? "kept" : "changed");
}

static void op_choose(void)                     /* choose name n1 n2 ... -> index */
{
    sequence_t *first = NULL, **p = &first, *s;
    int i;
    char *want = unhex(word[1], NULL);
    for (i = 2; i < nword; i++) { *p = sequence_init(unhex(word[i], NULL)); p = &(*p)->next; }
    s = sequence_choose_default(first, want);
    if (s == NULL) { fprintf(ans, "-1"); return; }
    for (i = 0; first != NULL && first != s; first = first->next) i++;
    fprintf(ans, "%d", first ? i : -2);
}

static void dump_config(config_file_t *c)
{
    sequence_t *s;
    filter_t *f;
    char *v;
    int n = 0;
    if (c == NULL) { fprintf(ans, "none"); return; }
    for (s = c->sequences; s != NULL && n < 10000; s = s->next, n++) {
        fprintf(ans, "S:");
        hex(ans, s->name);
        fputc(':', ans);
        hex(ans, s->source_filename);
        for (f = s->filters; f != NULL && n < 10000; f = f->next, n++) {
            fprintf(ans, " F:%s:", cleaner_name(f->cleaner));
            hex(ans, f->builtin);
            fputc(':', ans);
            hex(ans, f->filename);
            fprintf(ans, ":%lu:%d", (unsigned long) f->max_length, f->remove_trailing);
        }
        fputc(' ', ans);
    }
    if (c->files_to_ignore == NULL) fprintf(ans, "I:none");
    else {
        filelist_reset(c->files_to_ignore);
        while ((v = filelist_get(c->files_to_ignore)) != NULL) { fprintf(ans, "I:"); hex(ans, v); fputc(' ', ans); }
    }
}

static void setup(int from)                     /* fs=... env=K,=v locale= rename_fail= stdin= arg= nodir= */
{
    int i;
    fake_on = 1;
    fake_env = 1;
    for (i = from; i < nword; i++) {
        char *w = word[i];
        if (!strncmp(w, "fs:", 3)) fs_add(w + 3);
        else if (!strncmp(w, "env:", 4)) {
            char *q = strchr(w + 4, ',');
            *q = 0;
            envs[nenv].k = w + 4;
            envs[nenv++].v = unhex(q + 1, NULL);
        } else if (!strncmp(w, "locale:", 7)) fake_locale = unhex(w + 7, NULL);
        else if (!strncmp(w, "failrename:", 11)) fail_rename = atol(w + 11);
        else if (!strncmp(w, "nodir:", 6)) { char *q = strchr(w + 6, ','); nodir_errno = atoi(w + 6); nodir = unhex(q + 1, NULL); }
        else if (!strncmp(w, "failalloc:", 10)) fail_at = atol(w + 10);
    }
}

static void op_config(void)                     /* config =path[,=path...] setup...: parse files on top of each other */
{
    config_file_t *c = NULL;
    char *q = word[1];
    options_t *o = options_init();
    setup(2);
    while (q != NULL) {
        c = parse_config_file(unhex(q, NULL), c, o);
        q = strchr(q, ',');
        if (q) q++;
    }
    dump_config(c);
}

static void op_load(void)                       /* load =explicit|- setup... */
{
    options_t *o = options_init();
    setup(2);
    o->check_config_file = unhex(word[1], NULL);
    dump_config(config_file_load(o));
}

static void op_ptable(void)                     /* ptable =path k,k,k setup... */
{
    table_t *t;
    char *q;
    setup(3);
    t = parse_table(unhex(word[1], NULL));
    dump_table(t);
    fputc(' ', ans);
    for (q = word[2]; t != NULL && q != NULL && *q != '-'; q = strchr(q, ','), q = q ? q + 1 : NULL) { fprintf(ans, "%lu:", strtoul(q, NULL, 10)); hex(ans, table_get(t, strtoul(q, NULL, 10))); fputc(',', ans); }
}

static void op_ftable(void)                     /* which table a filter of this description gets */
{
    filter_t *f = filter_init(cleaner_no(word[1]));
    setup(4);
    f->builtin = unhex(word[2], NULL);
    f->filename = unhex(word[3], NULL);
    dump_table(filter_load_table(f));
}

static void op_review(void)                     /* review seq|one cleaner,=builtin,=file... :: setup: digests of the tables of a sequence */
{
    sequence_t *s = sequence_init("s");
    filter_t *f, *l = NULL;
    FILE *keep = ans;
    int i;
    for (i = 2; i < nword && strcmp(word[i], "::"); i++) {
        char *b = strchr(word[i], ','), *q = strchr(b + 1, ',');
        *b = *q = 0;
        f = filter_init(cleaner_no(word[i]));
        f->builtin = unhex(b + 1, NULL);
        f->filename = unhex(q + 1, NULL);
        if (l == NULL) s->filters = f;
        else l->next = f;
        l = f;
    }
    setup(i);
    if (!strcmp(word[1], "seq")) sequence_review(s);
    for (f = s->filters; f != NULL; f = f->next) {
        char *t = NULL, *p;
        size_t n = 0;
        unsigned long d = 1469598103934665603UL;
        table_t *tb = strcmp(word[1], "seq") ? filter_load_table(f) : f->table;
        ans = open_memstream(&t, &n);
        dump_table(tb);
        fclose(ans);
        ans = keep;
        for (p = t; *p; p++) d = (d ^ (unsigned char) *p) * 1099511628211UL;
        if (tb == NULL) fprintf(ans, " none");
        else fprintf(ans, " %lx", d);
    }
}

static void op_builtin(void)
{
    dump_table(mktable(word[1]));
}

static void op_options(void)                    /* options =arg0 =arg.. setup words after "::" */
{
    char **argv = calloc(nword + 1, sizeof(char *));
    int argc = 0, i;
    options_t *o;
    char *v;
    for (i = 1; i < nword && strcmp(word[i], "::"); i++) argv[argc++] = unhex(word[i], NULL);
    setup(i);
    o = parse_options_getopt(argc, argv);
    fprintf(ans, "%d %d %d %d %d %d %d ", o->dry_run, o->is_inline_bin, o->is_inline_mode, o->list_sequences, o->recurse, o->special, o->verbose);
    hex(ans, o->sequence_name);
    fputc(' ', ans);
    hex(ans, o->check_config_file);
    if (o->files == NULL) fprintf(ans, " nofiles");
    else { fprintf(ans, " files"); while ((v = filelist_get(o->files)) != NULL) { fputc(' ', ans); hex(ans, v); } }
}

static void op_main(void)
{
    char **argv = calloc(nword + 1, sizeof(char *));
    int argc = 0, i;
    for (i = 1; i < nword && strcmp(word[i], "::"); i++) argv[argc++] = unhex(word[i], NULL);
    setup(i);
    watching = 1;
    exit(detox_main(argc, argv));
}

static void op_oomfilter(void)                  /* oomfilter n name =in arg: fail allocation n of the step */
{
    char *in = dup_exact(unhex(word[3], NULL)), *out;
    table_t *t = nword > 4 ? (isdigit((unsigned char) word[4][0]) && !strchr(word[4], ',') ? NULL : mktable(word[4])) : NULL;
    const char *name = word[2];
    fail_at = atol(word[1]);
    alloc_count = 0;
    watching = 1;
    if (!strcmp(name, "lower")) out = clean_lower(in);
    else if (!strcmp(name, "uncgi")) out = clean_uncgi(in);
    else if (!strcmp(name, "wipeup")) out = clean_wipeup(in, 1);
    else if (!strcmp(name, "max_length")) out = clean_max_length(in, strtoul(word[4], NULL, 10));
    else if (!strcmp(name, "safe")) out = clean_safe(in, t);
    else if (!strcmp(name, "iso8859_1")) out = clean_iso8859_1(in, t);
    else if (!strcmp(name, "utf_8")) out = clean_utf_8(in, t);
    else if (!strcmp(name, "malloc")) { size_t n = strtoul(word[4], NULL, 10); out = wrapped_malloc(n); if (out && n && n < 1000000) memset(out, 'x', n), out[n - 1] = 0; }
    else out = wrapped_strdup(in);
    watching = 0;
    fprintf(ans, "%ld ", alloc_count);
    hex(ans, out);
}

static void op_oomstruct(void)                  /* oomstruct n what */
{
    fail_at = atol(word[1]);
    alloc_count = 0;
    watching = 1;
    if (!strcmp(word[2], "table")) { table_t *t = table_init(3); table_put(t, 5, "abc"); t = table_resize(t, 9, 1); }
    else if (!strcmp(word[2], "list")) { filelist_t *l = filelist_init(); int i; for (i = 0; i < 20; i++) filelist_put(l, "abc"); }
    else if (!strcmp(word[2], "spoof")) spoof_config_file();
    else if (!strcmp(word[2], "options")) options_init();
    else if (!strcmp(word[2], "run")) { sequence_t *s; watching = 0; s = sequence_init("q"); s->filters = filter_init(FILTER_LOWER); watching = 1; sequence_run_filters(s, "ABC"); }
    watching = 0;
    fprintf(ans, "%ld", alloc_count);
}

static struct { const char *n; void (*f)(void); int fork; } ops[] = {
    { "filter", op_filter, 0 }, { "table", op_table, 0 }, { "list", op_list, 0 }, { "run", op_run, 0 }, { "choose", op_choose, 0 },
    { "config", op_config, 1 }, { "load", op_load, 1 }, { "ptable", op_ptable, 1 }, { "ftable", op_ftable, 1 }, { "review", op_review, 1 }, { "builtin", op_builtin, 1 },
    { "options", op_options, 1 }, { "main", op_main, 1 }, { "oomfilter", op_oomfilter, 1 }, { "oomstruct", op_oomstruct, 1 },
};

static void spool(const char *tag, int fd)
{
    static char buf[1 << 16];
    ssize_t n;
    fprintf(ans, " %s=", tag);
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, buf, sizeof buf)) > 0) { ssize_t i; for (i = 0; i < n; i++) fprintf(ans, "%02x", (unsigned char) buf[i]); }
}

static void forked(void (*f)(void))
{
    int o = memfd_create("o", 0), e = memfd_create("e", 0), v = memfd_create("v", 0), a = memfd_create("a", 0), s = memfd_create("s", 0);
    int st, i, sig = 0, code = 0;
    pid_t p;
    for (i = 1; i < nword; i++) if (!strncmp(word[i], "stdin:", 6)) { size_t n; char *d = unhex(word[i] + 6, &n); if (n && write(s, d, n) < 0) abort(); }
    lseek(s, 0, SEEK_SET);
    fflush(ans);
    p = fork();
    if (p == 0) {
        in_child = 1;
        alarm(20);
        dup2(s, 0);
        dup2(o, 1);
        dup2(e, 2);
        stdin = fdopen(0, "r");
        evt = fdopen(v, "w");
        ans = fdopen(a, "w");
        f();
        fflush(ans);
        exit(0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    if (WIFSIGNALED(st)) sig = WTERMSIG(st);
    else code = WEXITSTATUS(st);
    fprintf(ans, "code=%d sig=%d", code, sig);
    spool("out", o);
    spool("err", e);
    spool("evt", v);
    spool("ans", a);
    close(o); close(e); close(v); close(a); close(s);
}

int main(int argc, char **argv)
{
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    unsigned i;
    ans = fdopen(atoi(getenv("DRV_FD")), "w");
    __real_setlocale(LC_ALL, "C.UTF-8");
    while ((n = getline(&line, &cap, stdin)) > 0) {
        char *p = strtok(line, " \n");
        nword = 0;
        while (p && nword < 29999) { word[nword++] = p; p = strtok(NULL, " \n"); }
        if (nword == 0) continue;
        for (i = 0; i < sizeof ops / sizeof *ops; i++) {
            if (strcmp(ops[i].n, word[0])) continue;
            if (ops[i].fork) forked(ops[i].f);
            else {
                alarm(10);
                can_bail = 1;
                if (setjmp(bail) == 0) ops[i].f();
                else fprintf(ans, " exit=%d", exit_code);
                can_bail = 0;
                alarm(0);
            }
        }
        fputc('\n', ans);
        fflush(ans);
    }
    return 0;
}
