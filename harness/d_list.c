/* D03: the linked list is a sequence. */
#include "seq.h"
#include "data/list.h"
#include "scale.h"

#define ND 3
static char data[ND];
static int q[64], n, freed[ND], expfreed[ND];
static bool owns;
static uint64_t obs;
static list_t* L;
static void freef(void* p) { int i = (int)((char*)p - data); HX_CHECK(i >= 0 && i < ND, "free-foreign", "the free callback gets a pointer that was never stored"); freed[i]++; }
static int id(const void* p) { return p ? (int)((const char*)p - data) : -1; }
static void mk(void)
{
	owns = hx_choose(2, "owns");
	memset(freed, 0, sizeof freed), memset(expfreed, 0, sizeof expfreed);
	n = 0, obs = 0;
	L = list_new(owns ? freef : NULL);
	HX_CHECK(L, "create", "list_new failed");
}
static void ins(int at, int d) { memmove(q + at + 1, q + at, sizeof(int) * (size_t)(n - at)); q[at] = d; n++; }
static void del(int at) { if (owns) expfreed[q[at]]++; memmove(q + at, q + at + 1, sizeof(int) * (size_t)(n - at - 1)); n--; }
static void look(void)
{
	HX_CHECK((int)list_length(L) == n, "length", "length is %zu, should be %d", list_length(L), n);
	HX_CHECK(list_is_empty(L) == (n == 0), "is-empty", "is_empty wrong with %d elements", n);
	HX_CHECK(id(list_front(L)) == (n ? q[0] : -1), "front", "front is element %d instead of %d", id(list_front(L)), n ? q[0] : -1);
	HX_CHECK(id(list_back(L)) == (n ? q[n - 1] : -1), "back", "back is element %d instead of %d", id(list_back(L)), n ? q[n - 1] : -1);
	list_node_t* bn = list_back_node(L);
	HX_CHECK(n ? bn && id(list_node(bn)) == q[n - 1] && list_next(bn) == list_end(L) : !bn, "back-node", "back node is not the last node");
	int i = 0;
	for (list_node_t* k = list_begin(L); k != list_end(L); k = list_next(k), i++)
	{
		HX_CHECK(i < n, "order", "iteration passes more than %d elements", n);
		HX_CHECK(id(list_node(k)) == q[i], "order", "element %d is %d instead of %d", i, id(list_node(k)), q[i]);
	}
	HX_CHECK(i == n, "order", "iteration passes %d of %d elements", i, n);
	for (int d = 0; d < ND; d++)
	{
		bool in = false;
		for (i = 0; i < n; i++) in |= q[i] == d;
		HX_CHECK(list_contains(L, data + d) == in, "contains", "contains(%d) is wrong", d);
		HX_CHECK(freed[d] == expfreed[d], "free-callback", "element %d was freed %d times instead of %d", d, freed[d], expfreed[d]);
	}
	hx_trans(1);
	uint64_t h = hx_hash((uint64_t)n, q, sizeof(int) * (size_t)n);
	hx_state(h);
	obs = hx_mix(obs, h);
}
static void fin(void)
{
	list_free(L);
	while (n) del(0);
	for (int d = 0; d < ND; d++) HX_CHECK(freed[d] == expfreed[d], "free-callback", "element %d was freed %d times instead of %d", d, freed[d], expfreed[d]);
	list_free(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static int want_ok;
static void add(int how, int d, int at)
{
	bool r;
	const char* nm[] = { "append", "prepend", "insert_after" };
	if (how == 0) r = list_append(L, data + d);
	else if (how == 1) r = list_prepend(L, data + d);
	else
	{
		list_node_t* k = list_begin(L);
		for (int i = 0; i < at; i++) k = list_next(k);
		r = list_insert_after(L, k, data + d);
	}
	int fired = sq_alloc_fired();
	hx_log("%s(%d)%s = %d", nm[how], d, fired ? " out of memory" : "", r);
	HX_CHECK(r == !fired, "add-result", "%s returns %d, %s", nm[how], r, fired ? "but there was no memory" : "although there is memory");
	if (r) ins(how == 0 ? n : how == 1 ? 0 : at + 1, d);
}
static void rem(int d)
{
	int at = 0;
	while (at < n && q[at] != d) at++;
	bool r = list_remove(L, data + d);
	hx_log("remove(%d) = %d", d, r);
	HX_CHECK(r == (at < n), "remove-result", "remove(%d) returns %d", d, r);
	if (at < n) del(at);
}
static void sequences(void)
{
	mk();
	int depth = HX_T(6, 7);
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(3 + (n ? n : 0) + ND + 1, "op");
		bool oom = k < 3 + n && k != 2 && d >= depth - 2 && hx_choose(2, "oom");
		if (oom) sq_fail_alloc(1, true);
		if (k == 0) add(0, hx_choose(2, "d"), 0);
		else if (k == 1) add(1, hx_choose(2, "d") * 2, 0);
		else if (k == 2) { list_clear(L); while (n) del(0); hx_log("clear"); }
		else if (k < 3 + n) add(2, 1 + d % 2, k - 3);
		else if (k < 3 + n + ND) rem(k - 3 - n);
		sq_fail_alloc(0, false);
		look();
	}
	fin();
}
/* iteration with a callback that stops or changes the list */
static int calls, stop_at, act, act_at, seen[64];
static bool cb(void* p, void* c)
{
	HX_CHECK(c == (void*)&stop_at, "foreach-context", "foreach passes another context");
	seen[calls++] = id(p);
	HX_CHECK(calls < 40, "foreach-order", "foreach does not end");
	if (calls == act_at)
	{
		int pos = calls - 1;
		if (act == 1) add(0, 2, 0);
		else if (act == 2) add(1, 2, 0);
		else if (act == 3) { HX_CHECK(list_remove(L, p), "remove-result", "the visited element cannot be removed"); int at = 0; while (q[at] != id(p)) at++; del(at); }
		else if (act == 4 && pos > 0) { rem(seen[0]); }
		else if (act == 5 && pos + 1 < n) { rem(q[pos + 1]); }
	}
	return calls != stop_at;
}
static void iteration(void)
{
	mk();
	int len = hx_choose(4, "length");
	/* distinct elements: 0 1 2 */
	for (int i = 0; i < len; i++) add(0, i, 0);
	act = hx_choose(6, "action");
	if ((act == 1 || act == 2) && len == 3) rem(2), len = 2;
	act_at = 1 + hx_choose(len ? len : 1, "at");
	stop_at = hx_choose(len + 2, "stop");
	calls = 0;
	int before[8], nb = n;
	memcpy(before, q, sizeof before);
	if (act == 5) sq_defer_frees(true);
	list_node_t* r = list_foreach(L, cb, &stop_at);
	/* the elements that were in the list throughout are visited once, in order */
	int j = 0;
	bool stopped = stop_at && calls >= stop_at;
	for (int i = 0; i < nb; i++)
	{
		if (stopped && j >= calls) break;
		if (act == 5 && act_at <= calls && i == act_at && i < nb)
		{ /* the removed successor */
			HX_CHECK(j >= calls || seen[j] != before[i], "foreach-visits-removed", "foreach visits an element the callback removed: it keeps a pointer to the released node");
			continue;
		}
		HX_CHECK(j < calls && seen[j] == before[i], "foreach-order", "foreach visits %d as number %d instead of %d", j < calls ? seen[j] : -1, j, before[i]);
		j++;
	}
	/* only the element appended in the callback may come in addition */
	if (act == 1 && j < calls && !(stopped && j >= stop_at)) { HX_CHECK(seen[j] == 2, "foreach-order", "foreach visits an unknown element"); j++; }
	HX_CHECK(j == calls, "foreach-order", "foreach makes %d calls instead of %d", calls, j);
	HX_CHECK((r != NULL) == stopped, "foreach-result", "foreach returns %s", r ? "a node although no call asked to stop" : "NULL although a call asked to stop");
	if (r && !(act == 3 && act_at == calls)) HX_CHECK(id(list_node(r)) == seen[calls - 1], "foreach-result", "foreach returns another node than the last one processed");
	look();
	fin();
}
static void misuse(void)
{
	mk();
	for (int i = hx_choose(3, "n"); i > 0; i--) add(0, i, 0);
	list_node_t* b = list_begin(L);
	HX_CHECK(!list_append(L, NULL) && !list_prepend(L, NULL) && !list_append(NULL, data) && !list_prepend(NULL, data), "null", "NULL is inserted");
	HX_CHECK(!list_insert_after(L, NULL, data) && (!b || !list_insert_after(L, b, NULL)) && !list_insert_after(NULL, b, data), "null", "NULL is inserted");
	HX_CHECK(!list_remove(L, NULL) && !list_remove(NULL, data) && !list_contains(L, NULL) && !list_contains(NULL, data), "null", "NULL is found");
	HX_CHECK(!list_foreach(L, NULL, NULL) && !list_foreach(NULL, cb, NULL) && list_length(NULL) == 0, "null", "NULL is iterated");
	list_clear(NULL);
	look();
	fin();
	sq_fail_alloc(1, true);
	HX_CHECK(!list_new(NULL), "create-oom", "list created without memory");
	sq_check_leaks("leak");
}
static char many[140000];
static uint8_t gone_[140000];
static size_t at_, stop_;
static size_t nth[140000];
static void freem(void* p) { size_t i = (size_t)((char*)p - many); HX_CHECK(i < sizeof many && !gone_[i], "free-callback", "an element is freed twice"); gone_[i] = 1; }
static bool cbm(void* p, void* c)
{
	(void)c;
	HX_CHECK((char*)p == many + nth[at_], "foreach-order", "foreach visits another element as number %zu", at_);
	return ++at_ != stop_;
}
static void scale(void)
{ /* many elements: half appended, a quarter prepended, a quarter inserted behind the first */
	size_t n = scale_n[hx_choose(NSCALE, "length")], c = 0;
	L = list_new(freem);
	memset(gone_, 0, sizeof gone_);
	size_t a = n / 2, b = n / 4, i;
	for (i = 0; i < a; i++, c++) HX_CHECK(list_append(L, many + c), "add-result", "append fails");
	for (i = 0; i < b; i++, c++) HX_CHECK(list_prepend(L, many + c), "add-result", "prepend fails");
	for (; c < n; c++) HX_CHECK(list_insert_after(L, list_begin(L), many + c), "add-result", "insert_after fails");
	size_t k = 0;
	nth[k++] = a + b - 1;
	for (i = n; i-- > a + b; ) nth[k++] = i;
	for (i = a + b - 1; i-- > a; ) nth[k++] = i;
	for (i = 0; i < a; i++) nth[k++] = i;
	for (int r = 0; r < 6; r++)
	{
		HX_CHECK(list_length(L) == n, "length", "length is %zu instead of %zu", list_length(L), n);
		HX_CHECK((char*)list_front(L) == many + nth[0] && (char*)list_back(L) == many + nth[n - 1], "front", "front or back is wrong");
		at_ = 0, stop_ = r ? 0 : n - 1;
		list_node_t* z = list_foreach(L, cbm, NULL);
		HX_CHECK(at_ == (r ? n : n - 1) && !z == !!r, "foreach-order", "foreach makes %zu calls for %zu elements", at_, n);
		size_t x = (size_t[]){ n - 1, n / 2, 0, n / 3, n / 5, n - 6 }[r];
		HX_CHECK(list_contains(L, many + nth[x]) && list_remove(L, many + nth[x]), "remove-result", "element %zu cannot be removed", x);
		HX_CHECK(gone_[nth[x]] == 1 && !list_contains(L, many + nth[x]), "free-callback", "a removed element was not freed");
		memmove(nth + x, nth + x + 1, (n - x - 1) * sizeof nth[0]);
		n--;
	}
	if (hx_choose(2, "clear")) { list_clear(L); HX_CHECK(list_is_empty(L) && list_append(L, many), "clear", "an emptied list is not empty"); gone_[0] = 0; }
	list_free(L);
	for (i = 0; i < c; i++) HX_CHECK(gone_[i] == 1, "free-callback", "element %zu was not freed", i);
	hx_state(c); hx_outcome(c); hx_trans(c);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "20 lengths from 255 to 131073" },
	{ "misuse", misuse, 0, 0, "NULL arguments, out of memory" },
	{ "iteration", iteration, 0, 0, "foreach over every list up to 3 elements with every stop point and a callback that adds, or removes the visited, an earlier or the next element" },
	{ "sequences", sequences, 0, 0, "all sequences of append/prepend/insert-after-any-node/remove/clear with duplicates, with and without ownership and allocation failures" },
};
const int hx_n_scenarios = 4;
