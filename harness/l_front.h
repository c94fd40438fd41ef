#include <stddef.h>
typedef struct
{
	void (*say)(int how, int level, const char* tag, const char* text, size_t n);
	void (*init)(void); void (*cleanup)(void); void (*set)(int); int (*get)(void); void (*tofile)(char*); void (*back)(void);
} front_t;
extern const char* front_func;
extern int front_line, front_else;
int front_arg(void);
extern const front_t front1, front2, front3, front4, front5, front6, front7, front8, front9, front10, front11, front12, front13;
