/* D04: the array is a growing sequence of fixed-size elements. */
#include "seq.h"
#include "data/array.h"
#include "log/xlog.h"
#include "scale.h"
static uint8_t ref[4096][32];
static size_t es;
static int n;
static uint64_t obs;
static void look(array_t* a)
{
	HX_CHECK((int)array_length(a) == n, "length", "length is %zu instead of %d", array_length(a), n);
	for (int i = 0; i < n; i++) HX_CHECK(!memcmp(array_at(a, (size_t)i), ref[i], es), "element", "element %d of %d has changed", i, n);
	if (n)
	{
		HX_CHECK(array_ptr(a) == array_at(a, 0), "contiguous", "array_ptr is not the first element");
		HX_CHECK((char*)array_at(a, (size_t)n - 1) == (char*)array_ptr(a) + es * (size_t)(n - 1), "contiguous", "the elements are not contiguous");
		/* an element is the caller's to change */
		((uint8_t*)array_at(a, (size_t)n / 2))[es - 1] ^= 0x55;
		ref[n / 2][es - 1] ^= 0x55;
	}
	hx_trans(1);
	hx_state(hx_mix((uint64_t)n, es));
	obs = hx_mix(obs, hx_hash(es, ref, 32 * (size_t)n));
}
static void app(array_t* a, bool byval, int oom)
{
	uint8_t e[32];
	for (size_t i = 0; i < es; i++) e[i] = (uint8_t)(n * 7 + (int)i * 31 + 1);
	uint32_t v = 0;
	memcpy(&v, e, es < 4 ? es : 4);
	if (es < 4) v |= 0xABCDEF01u << (8 * es);  /* higher bytes are not stored */
	uint8_t* heap = malloc(es);
	memcpy(heap, e, es);
	if (oom) sq_fail_alloc(1, true);
	bool r = byval ? array_append_value(a, v) : array_append_ptr(a, heap);
	int fired = oom ? sq_alloc_fired() : 0;
	sq_fail_alloc(0, false);
	free(heap);
	HX_CHECK(r == !fired, "append-result", "append returns %d, allocation failure %d", r, fired);
	if (r) { memcpy(ref[n], e, es); n++; }
}
static void grow(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	es = 1 + (size_t)hx_choose(HX_T(12, 24), "element size");
	int how = hx_choose(HX_T(22, 40), "capacity");     /* 0: array_new */
	array_t* a = how ? array_new_with_init_capacity(es, (size_t)how - 1) : array_new(es);
	HX_CHECK(a, "create", "creation failed");
	n = 0, obs = 0;
	int total = HX_T(64, 200);
	int oom_at = hx_choose(total / 2 + 1, "first refused growth");
	for (int i = 0; i < total; i++)
	{
		app(a, es <= 4 && (i & 1), oom_at && i >= oom_at && i < oom_at + 20);
		if (i % 5 == 0 || i > total - 4 || (i >= oom_at && i < oom_at + 3)) look(a);
	}
	array_free(a);
	array_free(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void oom(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	es = hx_choose(2, "size") ? 3 : 8;
	array_t* a = array_new_with_init_capacity(es, 4);
	n = 0, obs = 0;
	for (int i = 0; i < HX_T(16, 20); i++) { app(a, false, i >= 4 && hx_choose(2, "oom")); look(a); }
	array_free(a);
	sq_check_leaks("leak");
	hx_outcome(obs);
	sq_fail_alloc(1, true);
	HX_CHECK(!array_new(es), "create-oom", "array created without memory");
	sq_check_leaks("leak");
}
static void scale(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	int k = hx_choose(NSCALE, "size"), many = hx_choose(2, "many or large");
	size_t e = many ? (size_t[]){ 1, 4, 24 }[hx_choose(3, "element size")] : scale_n[k], cnt = many ? scale_n[k] : 20;
	int how = hx_choose(4, "capacity");
	array_t* a = how ? array_new_with_init_capacity(e, (size_t[]){ 0, 1, 7, 300 }[how]) : array_new(e);
	HX_CHECK(a, "create", "creation failed");
	uint8_t* b = sq_malloc(e);
	for (size_t i = 0; i < cnt; i++)
	{
		patfill(b, 131 * i, e);
		uint32_t v = 0;
		if (e <= 4) memcpy(&v, b, e);
		HX_CHECK(e <= 4 && i % 3 == 0 ? array_append_value(a, v) : array_append_ptr(a, b), "append-result", "append %zu fails", i);
		HX_CHECK(array_length(a) == i + 1, "length", "length is %zu instead of %zu", array_length(a), i + 1);
		if (i) HX_CHECK(!patcmp(array_at(a, i / 2), 131 * (i / 2), e), "element", "element %zu of %zu has changed", i / 2, i + 1);
	}
	for (size_t i = 0; i < cnt; i++)
		HX_CHECK(!patcmp(array_at(a, i), 131 * i, e) && (char*)array_at(a, i) == (char*)array_ptr(a) + e * i, "element", "element %zu of %zu has changed", i, cnt);
	hx_state(hx_mix(e, cnt)); hx_outcome(hx_mix(e, cnt)); hx_trans(cnt);
	sq_free(b);
	array_free(a);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "20 element sizes from 255 to 131073 bytes; 20 counts from 255 to 131073 of three element sizes" },
	{ "oom", oom, 0, 0, "every subset of appends hit by an allocation failure" },
	{ "growth", grow, 0, 0, "every element size x initial capacity x point at which growth is refused for a while; by value and by pointer" },
};
const int hx_n_scenarios = 3;
