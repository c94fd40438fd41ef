#include "vfs.h"
#include <errno.h>
#include <stdarg.h>
#include <dirent.h>
#include <sys/stat.h>
#define NN 1300                     /* nn: the highest one in use */
typedef struct { char path[600]; int used, dir; char* d; size_t n, cap; } node_t;
static node_t N[NN];
static int nn;
typedef struct { node_t* n; off_t pos; int r, w, app; FILE* f; char path[600]; } st_t;
static st_t* ST[64];
static struct vd { char path[600]; int next, open; struct dirent e; } D[16];
static unsigned fmask;
static int fk, fhow, fsticky, ffired, facc, rev;
static long nwrites, space = -1;
__attribute__((weak)) void vfs_hook(int kind, const char* path) { (void)kind, (void)path; }

static void norm(const char* p, char* o)
{	/* collapse //, ./ and trailing / ; "" is the working directory, which is the root */
	size_t n = 0;
	while (*p)
	{
		while (*p == '/') p++;
		if (p[0] == '.' && (p[1] == '/' || !p[1])) { p++; continue; }
		if (!*p) break;
		if (n && n < 598) o[n++] = '/';
		while (*p && *p != '/' && n < 598) o[n++] = *p++;
		while (*p && *p != '/') p++;
	}
	o[n] = 0;
}
static node_t* find(const char* path)
{
	char b[600];
	norm(path, b);
	for (int i = 0; i < nn; i++) if (N[i].used && !strcmp(N[i].path, b)) return &N[i];
	return NULL;
}
static int toolong(const char* path) { if (strlen(path) < 4096) return 0; errno = ENAMETOOLONG; return 1; }
static int isdir(const char* path) { char b[600]; norm(path, b); if (!*b) return 1; node_t* n = find(b); return n && n->dir; }
static int parent_ok(const char* path)
{
	char b[600];
	norm(path, b);
	char* s = strrchr(b, '/');
	if (!s) return 1;
	*s = 0;
	return isdir(b);
}
static node_t* mk(const char* path, int dir)
{
	for (int i = 0; i < NN; i++)
		if (!N[i].used)
		{
			nn = i >= nn ? i + 1 : nn, N[i].used = 1, N[i].dir = dir, N[i].n = 0;
			norm(path, N[i].path);
			return &N[i];
		}
	hx_die("vfs: too many files");
}
static int fault(int kind)
{	/* -1: no fault */
	if (!(fmask & (1u << kind))) return -1;
	facc++;
	if (facc == fk || (fsticky && fk > 0 && facc > fk)) { ffired++; return fhow; }
	return -1;
}
void vfs_fail(unsigned mask, int k, int how, int sticky) { fmask = mask, fk = k, fhow = how, fsticky = sticky, ffired = 0, facc = 0; }
int vfs_fired(void) { return ffired; }
int vfs_accesses(void) { return facc; }
long vfs_writes(void) { return nwrites; }
void vfs_space(long n) { space = n; }
void vfs_reverse_dirs(int on) { rev = on; }
int vfs_open_files(void) { int n = 0; for (int i = 0; i < 64; i++) n += !!ST[i]; return n; }
int vfs_open_dirs(void) { int n = 0; for (int i = 0; i < 16; i++) n += D[i].open; return n; }
int vfs_count(void) { int n = 0; for (int i = 0; i < nn; i++) n += N[i].used; return n; }
const char* vfs_name(int k, int* dir)
{
	for (int i = 0; i < nn; i++) if (N[i].used && k-- == 0) { if (dir) *dir = N[i].dir; return N[i].path; }
	return NULL;
}
int vfs_is_dir(const char* p) { return isdir(p); }
static void grow(node_t* n, size_t c)
{
	if (c <= n->cap) return;
	n->cap = c * 2 + 64;
	n->d = realloc(n->d, n->cap);
}
void vfs_put(const char* path, const void* data, size_t n)
{
	node_t* f = find(path);
	if (!f) f = mk(path, 0);
	grow(f, n + 1);
	if (n) memcpy(f->d, data, n);
	f->n = n;
}
void vfs_mkdirp(const char* path)
{
	char b[600];
	norm(path, b);
	for (char* p = b;; p++)
		if (*p == '/' || !*p)
		{
			char c = *p;
			*p = 0;
			if (*b && !find(b)) mk(b, 1);
			*p = c;
			if (!c) break;
		}
}
const char* vfs_get(const char* path, size_t* n)
{
	node_t* f = find(path);
	if (!f || f->dir) return NULL;
	grow(f, f->n + 1);
	f->d[f->n] = 0;
	if (n) *n = f->n;
	return f->d;
}
static ssize_t c_read(void* ck, char* b, size_t n)
{
	st_t* s = ck;
	if (!s->n || !s->r) { errno = EBADF; return -1; }
	vfs_hook(VFS_READ, s->path);
	int f = fault(VFS_READ);
	if (f == VFS_ERROR) { errno = EIO; return -1; }
	size_t left = s->pos < (off_t)s->n->n ? s->n->n - (size_t)s->pos : 0;
	if (n > left) n = left;
	if (f == VFS_SHORT && n > 1) n = n / 2;
	memcpy(b, s->n->d + s->pos, n);
	s->pos += (off_t)n;
	return (ssize_t)n;
}
static ssize_t c_write(void* ck, const char* b, size_t n)
{
	st_t* s = ck;
	if (!s->n || !s->w) { errno = EBADF; return 0; }
	vfs_hook(VFS_WRITE, s->path);
	int f = fault(VFS_WRITE);
	if (f == VFS_ERROR) { errno = EIO; return 0; }
	if (space >= 0 && (long)n > space)
	{
		n = (size_t)space;
		if (!n) { errno = ENOSPC; return 0; }
	}
	if (f == VFS_SHORT && n > 1) n = n / 2;
	if (space >= 0) space -= (long)n;
	if (s->app) s->pos = (off_t)s->n->n;
	size_t end = (size_t)s->pos + n;
	grow(s->n, end + 1);
	if ((size_t)s->pos > s->n->n) memset(s->n->d + s->n->n, 0, (size_t)s->pos - s->n->n);
	memcpy(s->n->d + s->pos, b, n);
	if (end > s->n->n) s->n->n = end;
	s->pos = (off_t)end;
	nwrites++;
	return (ssize_t)n;
}
static int c_seek(void* ck, off64_t* o, int wh)
{
	st_t* s = ck;
	if (!s->n) { errno = EBADF; return -1; }
	if (fault(VFS_SEEK) == VFS_ERROR) { errno = EIO; return -1; }
	off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->pos : (off64_t)s->n->n;
	if (b + *o < 0) { errno = EINVAL; return -1; }
	*o = s->pos = b + *o;
	return 0;
}
static int c_close(void* ck)
{
	st_t* s = ck;
	for (int i = 0; i < 64; i++) if (ST[i] == s) ST[i] = NULL;
	int f = s->n ? fault(VFS_CLOSE) : -1;
	free(s);
	if (f == VFS_ERROR) { errno = EIO; return -1; }
	return 0;
}
void vfs_reset(void)
{
	for (int i = 0; i < 64; i++) if (ST[i]) ST[i]->n = NULL;    /* what is left from an earlier execution goes nowhere */
	for (int i = 0; i < 64; i++) if (ST[i]) fclose(ST[i]->f);
	for (int i = 0; i < nn; i++) N[i].used = 0;
	nn = 0;
	for (int i = 0; i < 16; i++) D[i].open = 0;
	vfs_fail(0, 0, 0, 0);
	nwrites = 0, space = -1, rev = 0;
}
static FILE* mkstream(const char* path, const char* mode)
{
	vfs_hook(VFS_OPEN, path);
	if (fault(VFS_OPEN) >= 0) { errno = EACCES; return NULL; }
	if (toolong(path)) return NULL;
	int plus = strchr(mode, '+') != NULL, w = mode[0] == 'w', a = mode[0] == 'a', r = mode[0] == 'r';
	if (!w && !a && !r) { errno = EINVAL; return NULL; }
	node_t* n = find(path);
	if (isdir(path) && (w || a || plus)) { errno = EISDIR; return NULL; }
	if (!n)
	{
		if (r) { errno = ENOENT; return NULL; }
		char b[600];
		norm(path, b);
		size_t pl = strlen(path);
		if (!parent_ok(path) || !*b || (pl && path[pl - 1] == '/')) { errno = ENOENT; return NULL; }
		n = mk(path, 0);
	}
	if (n->dir) { errno = EISDIR; return NULL; }
	if (w) n->n = 0;
	st_t* s = calloc(1, sizeof *s);
	s->n = n, s->r = r || plus, s->w = w || a || plus, s->app = a;
	snprintf(s->path, sizeof s->path, "%s", n->path);
	int k = 0;
	while (k < 64 && ST[k]) k++;
	if (k == 64) hx_die("vfs: too many open streams");
	ST[k] = s;
	cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
	char m[8];
	snprintf(m, sizeof m, "%c%s", mode[0], plus ? "+" : "");
	s->f = fopencookie(s, m, io);
	if (!s->f) hx_die("vfs: fopencookie");
	return s->f;
}
FILE* vfs_fopen(const char* path, const char* mode) { return mkstream(path, mode); }
static int known(FILE* f)
{
	if (f == stdout || f == stderr || f == stdin) return 0;
	for (int i = 0; i < 64; i++) if (ST[i] && ST[i]->f == f) return 1;
	hx_fail("closed-stream", "a stream that is not open is used");
}
int vfs_fclose(FILE* f)
{
	if (!known(f)) return 0;
	vfs_hook(VFS_CLOSE, "");
	return fclose(f);
}
FILE* vfs_freopen(const char* path, const char* mode, FILE* f) { if (known(f)) fclose(f); return mkstream(path, mode); }
/* what is written to stdout through its stream */
__attribute__((weak)) void vfs_stdout(const char* s, size_t n) { (void)s, (void)n; }
int vfs_vfprintf(FILE* f, const char* fmt, va_list ap)
{
	if (f == stdout)
	{
		char* s;
		int n = vasprintf(&s, fmt, ap);
		if (n >= 0) vfs_stdout(s, (size_t)n), free(s);
		return n;
	}
	if (!known(f)) return vsnprintf(NULL, 0, fmt, ap);
	vfs_hook(VFS_WRITE, "");
	return vfprintf(f, fmt, ap);
}
int vfs_fprintf(FILE* f, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = vfs_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
size_t vfs_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (f == stdout) vfs_stdout(p, a * b); if (!known(f)) return b; vfs_hook(VFS_WRITE, ""); return fwrite(p, a, b, f); }
size_t vfs_fread(void* p, size_t a, size_t b, FILE* f) { known(f); return fread(p, a, b, f); }
char* vfs_fgets(char* p, int n, FILE* f) { known(f); return fgets(p, n, f); }
int vfs_fputs(const char* s, FILE* f) { if (f == stdout) vfs_stdout(s, strlen(s)); if (!known(f)) return 1; vfs_hook(VFS_WRITE, ""); return fputs(s, f); }
int vfs_fputc(int c, FILE* f) { if (f == stdout) { char x = (char)c; vfs_stdout(&x, 1); } if (!known(f)) return c; vfs_hook(VFS_WRITE, ""); return fputc(c, f); }
int vfs_putc(int c, FILE* f) { return vfs_fputc(c, f); }
int vfs_fflush(FILE* f) { if (f && known(f)) { vfs_hook(VFS_WRITE, ""); return fflush(f); } return 0; }
int vfs_fileno(FILE* f) { known(f); errno = EBADF; return -1; }
int vfs_mkdir(const char* path, mode_t m)
{
	(void)m;
	vfs_hook(VFS_MKDIR, path);
	if (fault(VFS_MKDIR) >= 0) { errno = EACCES; return -1; }
	if (toolong(path)) return -1;
	char b[600];
	norm(path, b);
	if (!*b || find(b)) { errno = EEXIST; return -1; }
	if (!parent_ok(b)) { errno = ENOENT; return -1; }
	mk(b, 1);
	return 0;
}
int vfs_access(const char* path, int m)
{
	(void)m;
	char b[600];
	norm(path, b);
	size_t pl = strlen(path);
	if (toolong(path)) return -1;
	if (!pl || (*b && !find(b))) { errno = ENOENT; return -1; }
	if (pl && path[pl - 1] == '/' && !isdir(b)) { errno = ENOTDIR; return -1; }
	return 0;
}
int vfs_stat(const char* path, struct stat* st)
{
	if (fault(VFS_STAT) >= 0) { errno = EACCES; return -1; }
	if (vfs_access(path, 0)) return -1;
	memset(st, 0, sizeof *st);
	node_t* n = find(path);
	st->st_mode = isdir(path) ? S_IFDIR | 0755 : S_IFREG | 0644;
	st->st_size = n && !n->dir ? (off_t)n->n : 4096;
	return 0;
}
int vfs_remove(const char* path)
{
	if (fault(VFS_REMOVE) >= 0) { errno = EACCES; return -1; }
	node_t* n = find(path);
	if (!n) { errno = ENOENT; return -1; }
	for (int i = 0; i < 64; i++) if (ST[i] && ST[i]->n == n) hx_die("vfs: an open file is removed");
	n->used = 0;
	return 0;
}
int vfs_rename(const char* a, const char* b)
{
	vfs_hook(VFS_RENAME, b);
	if (fault(VFS_RENAME) >= 0) { errno = EACCES; return -1; }
	node_t* n = find(a);
	if (!n || !parent_ok(b)) { errno = ENOENT; return -1; }
	node_t* o = find(b);
	if (o && o != n) o->used = 0;
	norm(b, n->path);
	return 0;
}
DIR* vfs_opendir(const char* path)
{
	if (fault(VFS_OPENDIR) >= 0) { errno = EACCES; return NULL; }
	if (toolong(path)) return NULL;
	if (!isdir(path)) { errno = ENOENT; return NULL; }
	for (int i = 0; i < 16; i++)
		if (!D[i].open)
		{
			norm(path, D[i].path);
			D[i].next = 0, D[i].open = 1;
			return (DIR*)&D[i];
		}
	hx_die("vfs: too many open directories");
}
struct dirent* vfs_readdir(DIR* dp)
{
	struct vd* d = (struct vd*)dp;
	if (d < D || d >= D + 16 || !d->open) hx_fail("closed-dir", "a directory that is not open is read");
	if (fault(VFS_READDIR) >= 0) { errno = EIO; return NULL; }
	memset(&d->e, 0, sizeof d->e);
	size_t pl = strlen(d->path);
	for (; d->next < nn + 2;)
	{
		int k = rev ? nn + 1 - d->next++ : d->next++;
		if (k < 2) { strcpy(d->e.d_name, k ? ".." : "."); d->e.d_type = DT_DIR; return &d->e; }
		node_t* n = &N[k - 2];
		if (!n->used || strncmp(n->path, d->path, pl) || (pl && n->path[pl] != '/')) continue;
		const char* nm = n->path + pl + (pl ? 1 : 0);
		if (strchr(nm, '/')) continue;
		if (strlen(nm) > 255) hx_die("vfs: name too long");
		strcpy(d->e.d_name, nm);
		d->e.d_type = n->dir ? DT_DIR : DT_REG;
		return &d->e;
	}
	return NULL;
}
int vfs_closedir(DIR* dp)
{
	struct vd* d = (struct vd*)dp;
	if (d < D || d >= D + 16 || !d->open) hx_fail("closed-dir", "a directory that is not open is closed");
	d->open = 0;
	return 0;
}
int vfs_unlink(const char* p) { return vfs_remove(p); }
int vfs_lstat(const char* p, struct stat* st) { return vfs_stat(p, st); }
