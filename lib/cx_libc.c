/* C library functions with hidden static state, as instrumented code: the
 * scheduler sees their state, so calls from several threads can disturb one
 * another as they do in reality.  Built like the code under test. */
#include <ctype.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

void* hx_raw_alloc(size_t);
void hx_raw_free(void*);
int hx_vsnprintf(char*, size_t, const char*, va_list);
size_t hx_strftime(char*, size_t, const char*, const struct tm*);

static struct tm tm_;
static char text_[64];
static char* tok_;
static unsigned rand_ = 1;
struct tm* cx_gmtime(const time_t* t)
{
	struct tm v;
	if (!gmtime_r(t, &v)) return NULL;
	tm_ = v;
	return &tm_;
}
struct tm* cx_localtime(const time_t* t)
{
	struct tm v;
	tzset();
	if (!localtime_r(t, &v)) return NULL;
	tm_ = v;
	return &tm_;
}
char* cx_asctime(const struct tm* t)
{
	char b[64];
	if (!asctime_r(t, b)) return NULL;
	strcpy(text_, b);
	return text_;
}
char* cx_ctime(const time_t* t) { return cx_asctime(cx_localtime(t)); }
static int in_set(char c, const char* set)
{
	for (; *set; set++) if (*set == c) return 1;
	return 0;
}
char* cx_strtok_r(char* s, const char* d, char** save)
{
	if (!s) s = *save;
	if (!s) return NULL;
	while (*s && in_set(*s, d)) s++;
	if (!*s) { *save = s; return NULL; }
	char* r = s;
	while (*s && !in_set(*s, d)) s++;
	if (*s) *s++ = 0;
	*save = s;
	return r;
}
char* cx_strtok(char* s, const char* d) { return cx_strtok_r(s, d, &tok_); }
int cx_rand(void) { rand_ = rand_ * 1103515245u + 12345u; return (int)(rand_ >> 1 & 0x7fffffff); }
void cx_srand(unsigned s) { rand_ = s; }
char* cx_strchr(const char* s, int c)
{
	for (;; s++)
	{
		if (*s == (char)c) return (char*)s;
		if (!*s) return NULL;
	}
}
char* cx_strrchr(const char* s, int c)
{
	const char* r = NULL;
	for (;; s++)
	{
		if (*s == (char)c) r = s;
		if (!*s) return (char*)r;
	}
}
char* cx_strstr(const char* s, const char* p)
{
	for (;; s++)
	{
		size_t i = 0;
		while (p[i] && s[i] == p[i]) i++;
		if (!p[i]) return (char*)s;
		if (!*s) return NULL;
	}
}
size_t cx_strnlen(const char* s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i]) i++;
	return i;
}
int cx_strncasecmp(const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; i++)
	{
		int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
		if (x != y || !x) return x - y;
	}
	return 0;
}
int cx_strcasecmp(const char* a, const char* b) { return cx_strncasecmp(a, b, (size_t)-1); }
/* the text is made aside; what is stored in the caller's memory is seen */
int cx_vsnprintf(char* b, size_t n, const char* f, va_list ap)
{
	if (!b || !n) return hx_vsnprintf(b, n, f, ap);
	char small[512];
	va_list cp;
	va_copy(cp, ap);
	int r = hx_vsnprintf(small, sizeof small, f, cp);
	va_end(cp);
	if (r < 0) return r;
	char* t = small;
	if ((size_t)r >= sizeof small)
	{
		t = hx_raw_alloc((size_t)r + 1);
		hx_vsnprintf(t, (size_t)r + 1, f, ap);
	}
	size_t k = (size_t)r < n ? (size_t)r : n - 1;
	memcpy(b, t, k);
	b[k] = 0;
	if (t != small) hx_raw_free(t);
	return r;
}
int cx_snprintf(char* b, size_t n, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = cx_vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
int cx_vsprintf(char* b, const char* f, va_list ap) { return cx_vsnprintf(b, (size_t)1 << 30, f, ap); }
int cx_sprintf(char* b, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = cx_vsprintf(b, f, ap);
	va_end(ap);
	return r;
}
size_t cx_strftime(char* b, size_t n, const char* f, const struct tm* t)
{
	char s[512];
	struct tm v = *t;
	size_t r = hx_strftime(s, n < sizeof s ? n : sizeof s, f, &v);
	if (r) memcpy(b, s, r + 1);
	return r;
}
int cx_vasprintf(char** p, const char* f, va_list ap)
{
	va_list cp;
	va_copy(cp, ap);
	int r = hx_vsnprintf(NULL, 0, f, cp);
	va_end(cp);
	if (r < 0 || !(*p = malloc((size_t)r + 1))) return -1;
	return cx_vsnprintf(*p, (size_t)r + 1, f, ap);
}
int cx_asprintf(char** p, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = cx_vasprintf(p, f, ap);
	va_end(ap);
	return r;
}
