/* F05 file contents, F06 folders and paths, F07 directory walk. */
#include "seq.h"
#include <errno.h>
#include <ctype.h>
#include "vfs.h"
#define SCALE_ROOM
#include "scale.h"
#include "log/xlog.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
/* ---- descriptors: what read() and write() answer is the scenario's choice ---- */
static uint8_t dev[150000];
static int big;
static size_t devn, devpos, wantn;
static uint8_t* ubuf;
static int answers, over;
static ssize_t xfer(int fd, void* b, size_t n, int wr)
{
	HX_CHECK(fd == 7, "rw-fd", "descriptor %d is used", fd);
	HX_CHECK(n <= wantn - devpos, "rw-more", "after %zu of %zu bytes %zu more are asked for", devpos, wantn, n);
	HX_CHECK(++answers < 200000, "rw-endless", "too many calls");
	if (over) { errno = EIO; return over > 1 ? 0 : -1; }
	size_t left = wr ? sizeof dev : devn - devpos;
	if (n > left) n = left;
	if (!n) { over = 2; return 0; }
	int k = big ? 0 : hx_choose((int)n + 2, "transferred");
	if (big && answers < 5)
	{
		static const size_t C[] = { 1, 7, 1000, 4096, 65535 };
		int c = hx_choose(7, "transferred");
		if (c == 6) { over = 1; errno = EIO; return -1; }
		if (c && C[c - 1] < n) k = (int)(n - C[c - 1]);
	}        /* 0: all ... n-1: one byte; n: error; n+1: interrupted / end */
	if (k >= (int)n) { over = 1; if (k == (int)n + 1 && wr) { over = 2; return 0; } errno = EIO; return -1; }
	n -= (size_t)k;
	if (wr) memcpy(dev + devpos, b, n); else memcpy(b, dev + devpos, n);
	devpos += n;
	return (ssize_t)n;
}
ssize_t ff_read(int fd, void* b, size_t n) { return xfer(fd, b, n, 0); }
ssize_t ff_write(int fd, const void* b, size_t n) { return xfer(fd, (void*)b, n, 1); }
static void rwn(int wr)
{
	devpos = 0, answers = 0, over = 0;
	for (size_t i = 0; i <= wantn + devn; i++) dev[i] = wr ? 0xee : (uint8_t)(i + 1);
	ubuf = malloc(wantn ? wantn : 1);
	memset(ubuf, 0xdd, wantn);
	if (wr) for (size_t i = 0; i < wantn; i++) ubuf[i] = (uint8_t)(i + 1);
	int r = wr ? file_util_write(7, ubuf, wantn) : file_util_read(7, ubuf, wantn);
	HX_CHECK(r == (int)devpos, "rw-count", "%zu bytes were transferred, %d are reported", devpos, r);
	HX_CHECK(over || devpos == wantn, "rw-incomplete", "it stops after %zu of %zu bytes although the descriptor has neither ended nor failed", devpos, wantn);
	for (size_t i = 0; i < wantn; i++)
	{
		uint8_t a = wr ? dev[i] : ubuf[i];
		HX_CHECK(a == (i < devpos ? (uint8_t)(i + 1) : wr ? 0xee : 0xdd), "rw-data", "byte %zu is %d", i, a);
	}
	free(ubuf);
	hx_outcome(hx_mix((uint64_t)r, (uint64_t)over));
	hx_state(hx_mix(hx_mix(wantn, devn), (uint64_t)(answers * 100 + r)));
	hx_trans((uint64_t)answers);
}
static void rw(void)
{
	big = 0;
	int wr = hx_choose(2, "write");
	wantn = (size_t)hx_choose(HX_T(11, 13), "bytes asked");
	devn = (size_t)hx_choose(HX_T(11, 14), "bytes there");
	if (wr && devn) hx_prune();
	rwn(wr);
}
static void rwbig(void)
{
	static const size_t W[] = { 4095, 4096, 4097, 5000, 65536, 70000 };
	big = 1;
	int wr = hx_choose(2, "write");
	wantn = W[hx_choose(6, "bytes asked")], devn = wr ? 0 : W[hx_choose(6, "bytes there")];
	rwn(wr);
	big = 0;
}
static void fill(char* d, size_t n, int seed) { for (size_t i = 0; i < n; i++) d[i] = (char)((i * 7 + (size_t)seed) % 251); }
static const size_t SZ[] = { 0, 1, 2, 3, 7, 100, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 8193, 20000 };
static char data[20001];
static void all(void)
{
	vfs_reset();
	size_t n = SZ[hx_choose(17, "size")];
	fill(data, n, 3);
	vfs_mkdirp("d");
	vfs_put("d/f", data, n);
	int kind = hx_choose(6, "fault");           /* none, open, read, seek, allocation, short reads */
	int k = 1 + hx_choose(kind && kind != 5 ? 8 : 1, "access");
	int sticky = hx_choose(2, "lasting");
	if (kind == 1) vfs_fail(1u << VFS_OPEN, k, VFS_ERROR, sticky);
	if (kind == 2) vfs_fail(1u << VFS_READ, k, VFS_ERROR, sticky);
	if (kind == 3) vfs_fail(1u << VFS_SEEK, k, VFS_ERROR, sticky);
	if (kind == 5) vfs_fail(1u << VFS_READ, k, VFS_SHORT, sticky);
	if (kind == 4) sq_fail_alloc(k, sticky);
	int len = 12345;
	char* out = (char*)&len;
	int r = file_util_read_all("d/f", &out, &len);
	int f = kind == 4 ? sq_alloc_fired() : vfs_fired();
	sq_fail_alloc(0, false);
	if (kind && !f && k > 1) { sq_free(out); hx_prune(); }
	if (r == 0)
	{
		HX_CHECK(out && len == (int)n && !memcmp(out, data, n), "read-all", "%d of %zu bytes, or not the right ones", len, n);
		HX_CHECK(sq_block_size(out) > n && out[n] == 0, "read-all-terminator", "the content is not terminated");
		sq_free(out);
	}
	else HX_CHECK(out == NULL, "read-all-failed", "a failed read leaves a pointer");
	if ((!f || kind == 5) && n) HX_CHECK(r == 0, "read-all-result", "reading %zu bytes gives %d", n, r);
	if (f && (kind == 1 || kind == 4)) HX_CHECK(r != 0, "read-all-fault", "it succeeds although the file could not be opened or memory is missing");
	HX_CHECK(!vfs_open_files(), "stream-leak", "the file stays open");
	sq_check_leaks("leak");
	hx_outcome((uint64_t)(long)r), hx_state(hx_mix(n, (uint64_t)(kind * 100 + k)));
	hx_trans(1);
}
static void allargs(void)
{
	vfs_reset();
	int len = 1;
	char* out = data;
	vfs_put("f", "abc", 3);
	HX_CHECK(file_util_read_all(NULL, &out, &len) != 0 && !out, "read-all-null", "no path");
	HX_CHECK(file_util_read_all("", &out, &len) != 0 && !out, "read-all-null", "empty path");
	HX_CHECK(file_util_read_all("f", NULL, &len) != 0 && file_util_read_all("f", &out, NULL) != 0 && !out, "read-all-null", "no result");
	HX_CHECK(file_util_read_all("none", &out, &len) != 0 && !out, "read-all-missing", "a missing file");
	HX_CHECK(file_util_get_size_by_path("none") < 0, "size-missing", "a missing file has a size");
	HX_CHECK(file_util_get_size_by_fs(NULL) < 0, "size-null", "no stream has a size");
	HX_CHECK(file_util_access("f", 0) == 0 && file_util_access("none", 0) != 0, "access", "access is wrong");
	int d = hx_choose(9, "size");
	vfs_put("g", data, SZ[d]);
	HX_CHECK(file_util_get_size_by_path("g") == (long)SZ[d], "size-path", "%ld instead of %zu", file_util_get_size_by_path("g"), SZ[d]);
	sq_check_leaks("leak");
}
static void scaleall(void)
{	/* whole files of any size */
	vfs_reset();
	int i = hx_choose(NSCALE + 3, "size");
	size_t n = i < NSCALE ? scale_n[i] : i == NSCALE ? 1000000 : i == NSCALE + 1 ? 1048577 : 3000000;
	uint8_t* d = malloc(n);
	patfill(d, 0, n);
	vfs_put("f", d, n);
	int len = -1;
	char* out = NULL;
	if (hx_choose(2, "short reads")) vfs_fail(1u << VFS_READ, 1, VFS_SHORT, 1);
	HX_CHECK(file_util_read_all("f", &out, &len) == 0 && len == (int)n && !memcmp(out, d, n) && !out[n], "read-all", "%d of %zu bytes, or not the right ones", len, n);
	vfs_fail(0, 0, 0, 0);
	HX_CHECK(file_util_get_size_by_path("f") == (long)n, "size-path", "%ld instead of %zu", file_util_get_size_by_path("f"), n);
	sq_free(out);
	free(d);
	HX_CHECK(!vfs_open_files(), "stream-leak", "the file stays open");
	sq_check_leaks("leak");
	hx_state(n), hx_trans(1), hx_outcome(n);
}
static int sln, sbad;
static int sline(int num, char* t, void* u)
{
	char w[32];
	sprintf(w, "line %d", num);
	if (u != &sln || num != sln || strcmp(t, w)) sbad = 1;
	HX_CHECK(!sbad, "line", "line %d is delivered as %d '%.30s'", sln, num, t);
	sln++;
	return 0;
}
static void scaletxt(void)
{
	static const int NL[] = { 63, 64, 65, 255, 256, 257, 1000, 4096, 32769, 65537, 100000 };
	vfs_reset();
	int n = NL[hx_choose(11, "lines")], crlf = hx_choose(2, "crlf");
	char* t = malloc((size_t)n * 16), *p = t;
	for (int i = 0; i < n; i++) p += sprintf(p, "line %d%s", i, crlf ? "\r\n" : "\n");
	vfs_put("f", t, (size_t)(p - t));
	free(t);
	sln = 0, sbad = 0;
	int r = file_util_read_txt("f", sline, &sln);
	HX_CHECK(r == 0 && sln == n, "line-lost", "%d of %d lines are delivered, the result is %d", sln, n, r);
	HX_CHECK(!vfs_open_files(), "stream-leak", "the file stays open");
	hx_state((uint64_t)n), hx_trans((uint64_t)n), hx_outcome((uint64_t)n);
}
FILE* vfs_fopen(const char*, const char*);
static void size(void)
{
	vfs_reset();
	size_t n = SZ[hx_choose(17, "size")];
	fill(data, n, 5);
	vfs_put("f", data, n);
	FILE* f = vfs_fopen("f", "rb");
	size_t at = SZ[hx_choose(17, "position")];
	if (at > n) { fclose(f); hx_prune(); }
	char b[20001];
	if (fread(b, 1, at, f) != at) hx_die("fread");
	int k = hx_choose(4, "failing seek");
	vfs_fail(1u << VFS_SEEK, k, VFS_ERROR, hx_choose(2, "lasting"));
	long l = file_util_get_size_by_fs(f);
	int fired = vfs_fired();
	vfs_fail(0, 0, 0, 0);
	if (!fired)
	{
		HX_CHECK(l == (long)n, "size-stream", "%ld instead of %zu", l, n);
		HX_CHECK(ftell(f) == 0, "size-rewind", "the position is %ld after asking for the size", ftell(f));
		HX_CHECK(fread(b, 1, n, f) == n && !memcmp(b, data, n), "size-content", "the content cannot be read after asking for the size");
	}
	else HX_CHECK(l < 0 || l == (long)n, "size-fault", "a wrong size %ld of %zu when seeking fails", l, n);
	fclose(f);
	hx_state(hx_mix(n, at));
	hx_trans(1);
	hx_outcome((uint64_t)l);
}
/* ---- text files ---- */
static int ln, stopat, gotn, gl[64];
static char gt[64][1100];
static int line(int num, char* t, void* u)
{
	HX_CHECK(u == &ln, "line-user", "a foreign argument");
	HX_CHECK(gotn < 64, "line-calls", "too many lines");
	gl[gotn] = num;
	snprintf(gt[gotn++], 1100, "%s", t);
	return gotn == stopat ? 42 : 0;
}
static void txtcheck(const char* t, int r, int fault)
{
	int num = 0, n = 0;
	while (*t)
	{
		size_t l = strcspn(t, "\n");
		char b[1100];
		memcpy(b, t, l), b[l] = 0;
		t += l + (t[l] == '\n');
		if (l && b[l - 1] == '\r') b[l - 1] = 0;
		char* p = b;
		while (isspace((unsigned char)*p)) p++;
		if (*p)
		{
			if (n >= gotn && fault) break;
			HX_CHECK(n < gotn, "line-lost", "line %d '%.30s' is not delivered", num, p);
			HX_CHECK(gl[n] == num && !strcmp(gt[n], p), "line", "line %d is delivered as %d '%.30s' instead of '%.30s'", num, gl[n], gt[n], p);
			if (++n == stopat) break;
		}
		num++;
	}
	HX_CHECK(n == gotn, "line-extra", "%d lines are delivered instead of %d", gotn, n);
	if (stopat && gotn == stopat) HX_CHECK(r == 42, "line-stop", "the callback's answer 42 is given as %d", r);
	else if (!fault) HX_CHECK(r == 0, "line-result", "reading gives %d", r);
	hx_outcome(hx_hash((uint64_t)r, gl, sizeof(int) * (size_t)gotn));
	hx_trans((uint64_t)gotn + 1);
}
static void txt(void)
{
	static const char A[] = "a\n \rb\t";
	char t[16];
	int n = hx_choose(HX_T(8, 9), "length");
	for (int i = 0; i < n; i++) t[i] = A[hx_choose(n > 5 ? 4 : 6, "character")];
	t[n] = 0;
	vfs_reset();
	vfs_put("f", t, (size_t)n);
	gotn = 0, stopat = hx_choose(3, "stop");
	int r = file_util_read_txt("f", line, &ln);
	txtcheck(t, r, 0);
	hx_state(hx_hash(9, t, (size_t)n));
	HX_CHECK(!vfs_open_files(), "stream-leak", "the file stays open");
}
static void txtlong(void)
{
	static const int L[] = { 1, 500, 1000, 1019, 1020, 1021, 1022 };
	int l = L[hx_choose(7, "line length")], crlf = hx_choose(2, "crlf"), ind = hx_choose(4, "indent"), lines = 1 + hx_choose(5, "lines");
	static char t[8000];
	int p = 0;
	if (l == 1022 && crlf) hx_prune();
	for (int i = 0; i < lines; i++)
	{
		memset(t + p, 'a' + i, (size_t)l);
		if (ind == 1) t[p] = ' ';
		if (ind == 2 && i % 2 == 0) memset(t + p, ' ', (size_t)l);
		if (ind == 3) memset(t + p, '\t', (size_t)l - 1);
		p += l;
		if (crlf) t[p++] = '\r';
		t[p++] = '\n';
	}
	if (hx_choose(2, "no last newline")) p--;
	t[p] = 0;
	vfs_reset();
	vfs_put("f", t, (size_t)p);
	gotn = 0, stopat = 0;
	int kind = hx_choose(4, "fault"), k = 1 + hx_choose(kind ? 6 : 1, "access");
	if (kind == 1) vfs_fail(1u << VFS_READ, k, VFS_SHORT, 1);
	if (kind == 2) vfs_fail(1u << VFS_READ, k, VFS_ERROR, 1);
	if (kind == 3) vfs_fail(1u << VFS_OPEN, k, VFS_ERROR, 1);
	int r = file_util_read_txt("f", line, &ln), f = vfs_fired();
	if (kind && !f && k > 1) hx_prune();
	vfs_fail(0, 0, 0, 0);
	bool err = f && kind >= 2;
	if (err) HX_CHECK(r != 0, "line-fault", "reading reports success although the file could not be read to its end");
	txtcheck(t, r, err);
	hx_state(hx_hash((uint64_t)(kind * 10 + k), t, (size_t)p));
	HX_CHECK(!vfs_open_files(), "stream-leak", "the file stays open");
	HX_CHECK(file_util_read_txt("none", line, &ln) != 0, "line-missing", "a missing file is read");
}

/* ---- F06 ---- */
static void slash(void)
{
	static const char A[] = "a/ \\b";
	char t[8];
	int n = hx_choose(HX_T(7, 9), "length");
	for (int i = 0; i < n; i++) t[i] = A[hx_choose(5, "character")];
	t[n] = 0;
	size_t size = (size_t)hx_choose(10, "buffer size");
	if (size < (size_t)n + 1 && size != (size_t)n) hx_prune();      /* a buffer that is exactly full has no terminator */
	char* b = malloc(size ? size : 1);
	memset(b, 'z', size);
	memcpy(b, t, size < (size_t)n + 1 ? size : (size_t)n + 1);
	if (size == (size_t)n) { if (n && memchr(b, 0, size)) hx_prune(); }
	bool unterm = size == (size_t)n;
	if (unterm && n) { free(b); hx_prune(); }                         /* not a string: outside the contract */
	int r = file_util_append_slash_on_path_if_needed(b, size);
	int m = n;
	while (m && t[m - 1] == ' ') m--;
	if (r)
	{
		HX_CHECK(!memcmp(b, t, size < (size_t)n + 1 ? size : (size_t)n + 1), "slash-failed", "the path '%s' is changed although %d is returned", t, r);
		HX_CHECK(m == 0 || size < 3 || (size_t)m + 2 > size, "slash-refused", "'%s' in %zu bytes is refused with %d", t, size, r);
	}
	else
	{
		HX_CHECK(m > 0, "slash-empty", "'%s' is accepted", t);
		size_t l = strlen(b);
		HX_CHECK(l >= 1 && (b[l - 1] == '/' || b[l - 1] == '\\'), "slash-missing", "'%s' becomes '%s'", t, b);
		bool had = t[m - 1] == '/' || t[m - 1] == '\\';
		HX_CHECK(!memcmp(b, t, (size_t)m) && l == (size_t)m + !had, "slash-path", "'%s' becomes '%s'", t, b);
		if (!had) HX_CHECK(b[l - 1] == (strchr(t, '\\') ? '\\' : '/'), "slash-kind", "'%s' becomes '%s'", t, b);
		char b2[16];
		snprintf(b2, 16, "%s", b);
		HX_CHECK(file_util_append_slash_on_path_if_needed(b2, 16) == 0 && !strcmp(b, b2), "slash-twice", "doing it twice gives '%s'", b2);
	}
	free(b);
	HX_CHECK(file_util_append_slash_on_path_if_needed(NULL, 10) != 0, "slash-null", "no path is accepted");
	hx_outcome((uint64_t)(long)r), hx_state(hx_hash(size, t, (size_t)n)), hx_trans(1);
}
/* somebody else makes folders at the same time */
static int race, mkcalls;
static char racepath[600];
void vfs_hook(int kind, const char* path)
{
	if (kind != VFS_MKDIR) return;
	mkcalls++;
	if (race && mkcalls == race) { vfs_mkdirp(path); snprintf(racepath, sizeof racepath, "%s", path); }
}
static const char* PATHS[] = { "a/", "a/b/", "a/b/c/", "/a/b/", "a//b/", "./a/b/", "a/b", "a/b/f.txt", "", "/", "x/a/b/", "x/y/", "f/", "f/b/", "x/y/z/", "/x/y/../q/" };
static void mkdirs(void)
{
	vfs_reset();
	vfs_mkdirp("x/y");
	vfs_put("f", "data", 4);
	vfs_put("x/g", "data", 4);
	vfs_mkdirp("x");
	int p = hx_choose(15, "path");
	race = hx_choose(4, "raced by another process"), mkcalls = 0, racepath[0] = 0;
	int k = hx_choose(4, "failing mkdir");
	int before = vfs_count();
	vfs_fail(1u << VFS_MKDIR, k, VFS_ERROR, hx_choose(2, "lasting"));
	int r = file_util_mkdirs(PATHS[p]);
	int f = vfs_fired();
	if ((race && !*racepath) || (k && !f)) hx_prune();
	vfs_fail(0, 0, 0, 0);
	/* every folder before a slash */
	char b[64];
	bool ok = true, blocked = !strncmp(PATHS[p], "f/", 2);
	for (int i = 0; PATHS[p][i]; i++)
		if (PATHS[p][i] == '/')
		{
			memcpy(b, PATHS[p], (size_t)i), b[i] = 0;
			if (*b && !vfs_is_dir(b)) ok = false;
		}
	HX_CHECK(r != 0 || ok, "mkdirs-missing", "'%s': success is reported, not all folders exist", PATHS[p]);
	if (!blocked && !f) HX_CHECK(r == 0, "mkdirs-result", "'%s' gives %d%s", PATHS[p], r, race ? " when another process makes a folder" : "");
	if (blocked) HX_CHECK(r != 0, "mkdirs-file", "'%s' succeeds although a file is in the way", PATHS[p]);
	/* nothing else is made */
	int made = 0;
	for (int i = 0, d; i < vfs_count(); i++)
	{
		const char* n = vfs_name(i, &d);
		char w[64];
		snprintf(w, sizeof w, "%s", PATHS[p]);
		char nn[64]; int q = 0;
		for (const char* s = w; *s; s++) { if (*s == '/' && (!q || nn[q - 1] == '/')) continue; if (*s == '.' && s[1] == '/' && (s == w)) { s++; continue; } nn[q++] = *s; }
		nn[q] = 0;
		size_t l = strlen(n);
		bool part = !strncmp(nn, n, l) && nn[l] == '/';
		bool old = !strcmp(n, "x") || !strcmp(n, "x/y") || !strcmp(n, "f") || !strcmp(n, "x/g");
		HX_CHECK(old || (part && d), "mkdirs-extra", "'%s' makes '%s'", PATHS[p], n);
		made += !old;
	}
	(void)before;
	size_t n;
	const char* c = vfs_get("f", &n);
	HX_CHECK(c && n == 4, "mkdirs-damage", "a file is changed");
	race = 0;
	if (!f && !blocked) HX_CHECK(file_util_mkdirs(PATHS[p]) == 0, "mkdirs-again", "doing '%s' again fails", PATHS[p]);
	HX_CHECK(file_util_mkdirs(NULL) != 0, "mkdirs-null", "no path is accepted");
	hx_outcome((uint64_t)(r != 0) * 100 + (uint64_t)made), hx_state(hx_mix((uint64_t)p, (uint64_t)(race * 10 + k))), hx_trans((uint64_t)mkcalls + 1);
}
static void slashwide(void)
{	/* a path in a buffer that is much larger */
	char* b = room();
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k];
		for (int v = 0; v < 3; v++)
		{
			memset(b, 'z', 100);
			strcpy(b, v == 0 ? "some/path" : v == 1 ? "some/path/" : "some/path/  ");
			int r = file_util_append_slash_on_path_if_needed(b, n);
			HX_CHECK(r == 0 && !strcmp(b, "some/path/"), "slash-room", "in %zu bytes the result is %d, '%.20s'", n, r, b);
		}
		hx_eval(3), hx_trans(3), hx_state((uint64_t)k);
	}
	hx_outcome(1);
}
static void slashlong(void)
{
	int n = 1 + hx_choose(HX_T(300, 600), "length"), form = hx_choose(4, "form");
	size_t size = (size_t)n + 1 + (size_t)hx_choose(4, "room");
	char* b = malloc(size), t[700];
	for (int i = 0; i < n; i++) t[i] = (char)('a' + i % 7);
	if (form == 1 && n > 2) t[n / 2] = '/';
	if (form == 2 && n > 2) t[n / 2] = '\\';
	if (form == 3) t[n - 1] = '/';
	t[n] = 0;
	memset(b, 'z', size);
	memcpy(b, t, (size_t)n + 1);
	int r = file_util_append_slash_on_path_if_needed(b, size);
	if (size < 3 || (form != 3 && size < (size_t)n + 2)) HX_CHECK(r != 0, "slash-no-room", "%d characters in %zu bytes: accepted", n, size);
	else HX_CHECK(r == 0, "slash-refused", "%d characters in %zu bytes: refused with %d", n, size, r);
	if (r == 0 && form != 3) { t[n] = form == 2 && n > 2 ? '\\' : '/'; t[n + 1] = 0; }
	HX_CHECK(!strcmp(b, t), "slash-path", "'%s' becomes '%s'", t, b);
	free(b);
	hx_state(hx_mix((uint64_t)n, (uint64_t)(form * 10) + size)), hx_trans(1), hx_outcome((uint64_t)(long)r);
}
static void mklong(void)
{
	vfs_reset();
	race = 0, mkcalls = 0;
	int l = 1 + hx_choose(280, "length"), seg = 2 + hx_choose(HX_T(24, 120), "segment length");
	char* p = malloc((size_t)l + 1);
	for (int i = 0; i < l; i++) p[i] = (i && i % seg == 0) || i == l - 1 ? '/' : 'q';
	p[l] = 0;
	int r = file_util_mkdirs(p);
	bool ok = vfs_is_dir(p);
	HX_CHECK((r == 0) == ok, "mkdirs-long", "a path of %d characters gives %d", l, r);
	if (l < 256) HX_CHECK(ok, "mkdirs-long", "a path of %d characters is refused", l);
	free(p);
	hx_state(hx_mix((uint64_t)l, (uint64_t)seg)), hx_trans(1), hx_outcome((uint64_t)r);
}

/* ---- F07 ---- */
static struct { char n[64]; int t; long sz; } vis[64];
static int nv, vstop;
static char wdir[] = "top/dir";
static char* curdir;
static int visit(file_info_t* i, void* u)
{
	HX_CHECK(u == &nv, "walk-user", "a foreign argument");
	HX_CHECK(i->dir && !strcmp(i->dir, curdir), "walk-dir", "the folder is '%s'", i->dir);
	HX_CHECK(nv < 64, "walk-calls", "too many entries");
	snprintf(vis[nv].n, 64, "%s", i->name), vis[nv].t = i->type, vis[nv].sz = (long)i->p_stat->st_size;
	errno = EACCES; /* what the callback did before is no failure of the walk */
	return ++nv == vstop ? 5 : 0;
}
static const char* NM[] = { "a", ".b", "..c", "sub", "...", "n n" };
static void walk(void)
{
	vfs_reset();
	race = 0;
	vfs_mkdirp("top/dir");
	vfs_put("top/other", "x", 1);
	vfs_put("top/dir2", "x", 1);
	int in[6], n = 0;
	for (int i = 0; i < 6; i++)
	{
		in[i] = hx_choose(3, "entry");
		char b[64];
		snprintf(b, 64, "top/dir/%s", NM[i]);
		if (in[i] == 1) vfs_put(b, "1234567", (size_t)i + 1);
		if (in[i] == 2) { vfs_mkdirp(b); strcat(b, "/inner"); vfs_put(b, "x", 1); }
		n += in[i] != 0;
	}
	vfs_reverse_dirs(hx_choose(2, "order"));
	nv = 0, vstop = hx_choose(4, "stop");
	if (vstop > n) hx_prune();
	int kind = hx_choose(4, "fault"), k = 1 + hx_choose(kind ? 8 : 1, "access");
	if (vstop && kind) hx_prune();
	static const int K[] = { 0, 1 << VFS_STAT, 1 << VFS_OPENDIR, 1 << VFS_READDIR };
	vfs_fail((unsigned)K[kind], kind ? k : 0, VFS_ERROR, 0);
	curdir = wdir;
	int r = file_iterator_foreach(wdir, visit, &nv);
	int f = vfs_fired();
	if (kind && !f) hx_prune();
	vfs_fail(0, 0, 0, 0);
	HX_CHECK(!vfs_open_dirs(), "dir-leak", "the folder stays open");
	HX_CHECK(!strcmp(wdir, "top/dir"), "walk-path", "the path is changed");
	for (int i = 0; i < nv; i++)
	{
		int j = 0;
		while (j < 6 && strcmp(NM[j], vis[i].n)) j++;
		HX_CHECK(j < 6 && in[j], "walk-foreign", "'%s' is visited", vis[i].n);
		HX_CHECK(vis[i].t == (in[j] == 2 ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE), "walk-type", "'%s' has type %d", vis[i].n, vis[i].t);
		if (in[j] == 1) HX_CHECK(vis[i].sz == j + 1, "walk-size", "'%s' has size %ld", vis[i].n, vis[i].sz);
		for (int q = 0; q < i; q++) HX_CHECK(strcmp(vis[q].n, vis[i].n), "walk-twice", "'%s' is visited twice", vis[i].n);
	}
	if (vstop) HX_CHECK(nv == vstop, "walk-stop", "%d entries are visited after the callback stopped at %d", nv, vstop);
	else HX_CHECK(r != 0 || nv == n, "walk-lost", "success is reported, %d of %d entries are visited", nv, n);
	if (!f) HX_CHECK(r == 0, "walk-result", "the walk gives %d", r);
	hx_outcome(hx_mix((uint64_t)nv, (uint64_t)(long)r)), hx_trans((uint64_t)nv + 1);
	hx_state(hx_hash((uint64_t)(kind * 10 + k), in, sizeof in));
	char no[] = "nowhere", file[] = "top/other";
	HX_CHECK(file_iterator_foreach(no, visit, &nv) != 0 && file_iterator_foreach(file, visit, &nv) != 0, "walk-nothing", "something that is no folder is walked");
}
/* names that resemble . and .., and long ones */
static const char* ON[] = { ".", "..", "a.", ".a", "..", "x", "...", ".. ", "ab", "abc", "\xe2\x82\xac", "-", "~", "a..", "*", " ." };
static void names(void)
{
	vfs_reset();
	vfs_mkdirp("top/dir");
	int k = hx_choose(16 + 4, "name"), dir = hx_choose(2, "folder"), other = hx_choose(2, "another entry");
	static char nm[300];
	if (k < 16) strcpy(nm, ON[k]);
	else { static const int L[] = { 63, 128, 254, 255 }; memset(nm, 'L', 300), nm[L[k - 16]] = 0; }
	if (!strcmp(nm, ".") || !strcmp(nm, "..")) strcpy(nm, "plain");
	char b[400];
	snprintf(b, sizeof b, "top/dir/%s", nm);
	if (other) vfs_put("top/dir/z9", "1", 1);
	if (dir) vfs_mkdirp(b); else vfs_put(b, "123", 3);
	nv = 0, vstop = 0, curdir = wdir;
	HX_CHECK(file_iterator_foreach(wdir, visit, &nv) == 0, "walk-result", "the walk fails");
	HX_CHECK(nv == 1 + other, "walk-lost", "%d of %d entries are visited when there is '%.40s'", nv, 1 + other, nm);
	int f = -1;
	for (int i = 0; i < nv; i++) if (!strncmp(vis[i].n, nm, 63)) f = i;
	HX_CHECK(f >= 0 && vis[f].t == (dir ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE) && (dir || vis[f].sz == 3), "walk-entry", "'%.40s' is not what is visited", nm);
	hx_state(hx_mix((uint64_t)k, (uint64_t)dir)), hx_trans(1), hx_outcome((uint64_t)nv);
}
/* folders whose path is nearly as long as a path may be */
static void deep(void)
{
	vfs_reset();
	vfs_mkdirp("top/dir");
	vfs_put("top/dir/a", data, 1), vfs_mkdirp("top/dir/ab"), vfs_put("top/dir/abcd", data, 4), vfs_put("top/dir/abcdefgh", data, 8);
	size_t l = 4070 + (size_t)hx_choose(40, "length");
	vfs_reverse_dirs(hx_choose(2, "order"));
	char* p = malloc(l + 1);
	size_t k = l - 7;
	for (size_t i = 0; i < k; i++) p[i] = i + 1 == k ? '/' : i % 2 ? '/' : '.';
	if (k % 2) p[0] = '/', memmove(p + 1, "./", 2);
	for (size_t i = 0; i < k; i++) p[i] = k % 2 ? (i % 2 ? '.' : '/') : (i % 2 ? '/' : '.');
	strcpy(p + k, "top/dir");
	nv = 0, vstop = 0, curdir = p;
	int r = file_iterator_foreach(p, visit, &nv);
	int fit = 0;
	for (int i = 0; i < nv; i++)
	{
		int n = (int)strlen(vis[i].n);
		HX_CHECK(vis[i].t == (n == 2 ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE) && (n == 2 || vis[i].sz == n), "walk-deep", "in a folder of %zu characters '%s' is visited as type %d with %ld bytes", l, vis[i].n, vis[i].t, vis[i].sz);
		fit += l + 1 + (size_t)n < 4096;
	}
	int want = (l < 4094) + (l < 4093) + (l < 4091) + (l < 4087);
	HX_CHECK(fit == want, "walk-lost", "in a folder of %zu characters %d entries are visited, %d can be", l, fit, want);
	HX_CHECK((r == 0) == (nv == 4), "walk-result", "the result is %d after %d of 4 entries", r, nv);
	HX_CHECK(!vfs_open_dirs(), "dir-leak", "the folder stays open");
	free(p);
	hx_state((uint64_t)l), hx_trans((uint64_t)nv + 1), hx_outcome((uint64_t)(nv * 2 + !r));
}
static int many, mstop;
static char mseen[1200];
static int mvisit(file_info_t* i, void* u)
{
	int k = -1;
	if (i->name[0] == 'e') k = atoi(i->name + 1);
	HX_CHECK(u == &many && k >= 0 && k < many && !mseen[k], "walk-foreign", "'%s' is visited, or not for the first time", i->name);
	HX_CHECK(i->type == (k % 5 ? FILE_ITERATOR_TYPE_FILE : FILE_ITERATOR_TYPE_DIR) && (k % 5 == 0 || (long)i->p_stat->st_size == k), "walk-entry", "'%s' has type %d", i->name, i->type);
	mseen[k] = 1;
	return ++nv == mstop;
}
static void manyentries(void)
{
	static const int C[] = { 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025 };
	vfs_reset();
	vfs_mkdirp("top/dir");
	many = C[hx_choose(13, "entries")], mstop = 0;
	int st = hx_choose(3, "stop");
	if (st) mstop = st == 1 ? many - 1 : many / 2;
	vfs_reverse_dirs(hx_choose(2, "order"));
	char b[64];
	for (int i = 0; i < many; i++)
	{
		snprintf(b, 64, "top/dir/e%d", i);
		if (i % 5) vfs_put(b, data, (size_t)i); else vfs_mkdirp(b);
	}
	memset(mseen, 0, sizeof mseen);
	nv = 0;
	int r = file_iterator_foreach(wdir, mvisit, &many);
	HX_CHECK(r == 0 && nv == (mstop ? mstop : many), "walk-lost", "%d of %d entries are visited (stop at %d), the result is %d", nv, many, mstop, r);
	HX_CHECK(!vfs_open_dirs(), "dir-leak", "the folder stays open");
	hx_state((uint64_t)many), hx_trans((uint64_t)many), hx_outcome((uint64_t)nv);
}
void sq_user_begin(void) { xlog_set_min_level(LOG_LEVEL_OFF); }
const hx_scn_t hx_scenarios[] = {
#if PART == 5
	{ "arguments", allargs, 0, 0, "missing arguments and files" },
	{ "size", size, 0, 0, "size of an open stream at every position, failing seeks" },
	{ "scale", scaleall, 0, 0, "whole files up to 3 MB" },
	{ "many-lines", scaletxt, 0, 0, "texts up to 100000 lines" },
	{ "read-all", all, 0, 0, "sizes around buffer limits x every failing access" },
	{ "long-lines", txtlong, 0, 0, "line lengths around the limit x every failing access" },
	{ "descriptors", rw, 0, 0, "every sequence of short, failing and ending transfers" },
	{ "descriptors-large", rwbig, 0, 0, "large transfers in unequal pieces" },
	{ "text", txt, 0, 0, "all texts up to the bound" },
#elif PART == 6
	{ "long-paths", mklong, 0, 0, "folders for paths of every length up to 280, segments of 2 .. 25 (121) characters" },
	{ "long-slash", slashlong, 0, 0, "appending the slash to paths of every length up to 300 (600), with 0 .. 3 bytes to spare" },
	{ "mkdirs", mkdirs, 0, 0, "paths x failing mkdir x another process making the same folder" },
	{ "wide-slash", slashwide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of paths that are much shorter" },
	{ "slash", slash, 0, 0, "all paths up to the bound x every buffer size" },
#else
	{ "names", names, 0, 0, "names like . and .., long names" },
	{ "deep", deep, 0, 0, "folders whose path has 4070 to 4109 characters" },
	{ "many", manyentries, 0, 0, "folders of up to 1025 entries" },
	{ "walk", walk, 0, 0, "every set of entries x order x stop x failing access" },
#endif
};
const int hx_n_scenarios = sizeof hx_scenarios / sizeof *hx_scenarios;
