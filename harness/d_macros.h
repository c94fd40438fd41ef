#include <string.h>
void mac_assert_fail(const char* expr, const char* file, unsigned line, const char* fn) __attribute__((noreturn));
void mac_abort(void) __attribute__((noreturn));
int mac_printf(const char* fmt, ...);
void mac_free(void* p);
int mac_rand(void);
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef MAC_PREFIX
#define FN(n) CAT(MAC_PREFIX, n)
#endif
