/* One front end of the loggers, as a program of its own sees it: FRONT chooses which.
 * Included by l_xlog.c (FRONT 0) and compiled alone for each other front end. */
#if FRONT == 1
#define LOG_TAG "own"
#include "log/xlog.h"
#elif FRONT == 2
#include "log/xlog.h"
#elif FRONT == 3
#define LOG_TAG "own"
#define LOG_TAG_PREFIX "<"
#define LOG_TAG_SUFFIX ">"
#include "log/logger.h"
#elif FRONT == 4
#define LOG_TAG "own"
#define LCU_LOGGER_SELECTOR 1
#include "log/logger.h"
#elif FRONT == 5
#define LOG_TAG "own"
#include "log/slog.h"
#define LOG_STD2FILE(p) SLOG_STD2FILE(p)
#define LOG_BACK2STD() SLOG_BACK2STD()
#define LOG_SET_MIN_LEVEL(l) SLOG_SET_MIN_LEVEL(l)
#define LOG_GET_MIN_LEVEL() SLOG_GET_MIN_LEVEL()
#elif FRONT == 6
#define LOG_TAG "own"
#define _LCU_LOGGER_DISABLE 1
#include "log/logger.h"
#elif FRONT == 7
#define LOG_TAG "own"
#define LCU_XLOG_OFF 1
#include "log/xlog.h"
#elif FRONT == 8
#define LOG_TAG "own"
#define _LCU_LOGGER_DISABLE 0
#include "log/logger.h"
#elif FRONT == 9
#define LOG_TAG "own"
#define LCU_LOGGER_SELECTOR 1
#define _LCU_LOGGER_DISABLE 1
#include "log/logger.h"
#elif FRONT == 10
#define LOG_TAG "own"
#include "log/xlog.h"
#elif FRONT == 11
#define LOG_TAG "own"
#include "log/logger.h"
#elif FRONT == 12
#define LOG_TAG "own"
#define LCU_LOGGER_SELECTOR 1
#include "log/logger.h"
#elif FRONT == 13
#define LOG_TAG "own"
#include "log/slog.h"
#define LOG_STD2FILE(p) SLOG_STD2FILE(p)
#define LOG_BACK2STD() SLOG_BACK2STD()
#define LOG_SET_MIN_LEVEL(l) SLOG_SET_MIN_LEVEL(l)
#define LOG_GET_MIN_LEVEL() SLOG_GET_MIN_LEVEL()
#endif
#ifndef LOG_GLOBAL_INIT
#if FRONT == 5 || FRONT == 13
#define LOG_GLOBAL_INIT(p) ((void)(p))
#define LOG_GLOBAL_CLEANUP(p) ((void)(p))
#else
#define LOG_GLOBAL_INIT(p) ((void)(p), (void)xlog_global_init())
#define LOG_GLOBAL_CLEANUP(p) ((void)(p), (void)xlog_global_cleanup())
#endif
#endif
#ifndef LOG_SET_MIN_LEVEL
#define LOG_SET_MIN_LEVEL(l) xlog_set_min_level((LogLevel)(l))
#define LOG_GET_MIN_LEVEL() xlog_get_min_level()
#endif
#include "l_front.h"
#define EACH(M, level, ...) \
	if (level == 1) M##V(__VA_ARGS__); else if (level == 2) M##D(__VA_ARGS__); else if (level == 3) M##I(__VA_ARGS__); else if (level == 4) M##W(__VA_ARGS__); else if (level == 5) M##E(__VA_ARGS__); else front_else++
#define EACHS(M, S, level, ...) \
	if (level == 1) M##V##S(__VA_ARGS__); else if (level == 2) M##D##S(__VA_ARGS__); else if (level == 3) M##I##S(__VA_ARGS__); else if (level == 4) M##W##S(__VA_ARGS__); else if (level == 5) M##E##S(__VA_ARGS__); else front_else++
#define P2(a, b) a##b
#define P(a, b) P2(a, b)
static void P(say, FRONT)(int how, int level, const char* tag, const char* text, size_t n)
{
	front_func = __func__;
	switch (how)
	{
	case 0: EACH(LOG, level, "%s|%d", text, front_arg()); break;
	case 1: EACH(LOG, level, "bare"); break;
	case 2: EACH(TLOG, level, tag, "%s|%d", text, front_arg()); break;
	case 3: EACH(TLOG, level, tag, "bare"); break;
	case 4: front_line = __LINE__; EACHS(LOG, _TRACE, level, "%s|%d", text, front_arg()); break;
	case 5: front_line = __LINE__; EACHS(LOG, _TRACE, level, "bare"); break;
	case 6: front_line = __LINE__; EACHS(TLOG, _TRACE, level, tag, "%s|%d", text, front_arg()); break;
	case 7: front_line = __LINE__; EACHS(TLOG, _TRACE, level, tag, "bare"); break;
	case 8: EACHS(LOG, _HEX, level, text, n); break;
	case 9: EACHS(TLOG, _HEX, level, tag, text, n); break;
	}
}
static void P(init, FRONT)(void) { LOG_GLOBAL_INIT(NULL); }
static void P(cleanup, FRONT)(void) { LOG_GLOBAL_CLEANUP(NULL); }
static void P(set, FRONT)(int l) { LOG_SET_MIN_LEVEL(l); }
static int P(get, FRONT)(void) { return (int)LOG_GET_MIN_LEVEL(); }
static void P(tofile, FRONT)(char* p) { if (p) LOG_STD2FILE(p); else LOG_STD2FILE(NULL); }
static void P(back, FRONT)(void) { if (front_else >= 0) LOG_BACK2STD(); else front_else++; }
const front_t P(front, FRONT) = { P(say, FRONT), P(init, FRONT), P(cleanup, FRONT), P(set, FRONT), P(get, FRONT), P(tofile, FRONT), P(back, FRONT) };
