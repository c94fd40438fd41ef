/* the "scale" scenarios: sizes around every power of 2 at which a narrowed
 * counter or a fixed inner buffer would give way, with position-dependent bytes */
#ifndef SCALE_H
#define SCALE_H
#include <stdint.h>
#include <stddef.h>
static inline uint8_t pat(uint64_t i) { return (uint8_t)(i * 131 + (i >> 8) * 29 + (i >> 16) * 17 + 3); }
static inline void patfill(void* d, uint64_t from, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)d)[i] = pat(from + i); }
static inline int patcmp(const void* d, uint64_t from, size_t n) { for (size_t i = 0; i < n; i++) if (((const uint8_t*)d)[i] != pat(from + i)) return 1; return 0; }
static const uint32_t scale_n[] = { 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131071, 131072, 131073 };
#define NSCALE 20
/* stated sizes of a destination that is much larger than what goes into it, at every
 * width a narrowed size could have; the destination is reserved address space */
static const uint64_t room_n[] = { 65535, 65536, 65537, 65543, 131072, 131073, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x100000002, 0x100000007, 0x100010000 };
#define NROOM ((int)(sizeof room_n / sizeof *room_n))
#ifdef SCALE_ROOM
#include <sys/mman.h>
#include <sys/syscall.h>
extern long syscall(long, ...);
static char* room(void)
{
	static char* m;
	if (!m) m = (char*)syscall(SYS_mmap, NULL, 0x100020000ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
	if (m == MAP_FAILED) hx_die("no address space");
	return m;
}
#endif
#endif
