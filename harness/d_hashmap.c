/* D01: the hash map is a dictionary, whatever the hash function and history. */
#include "seq.h"
#include <errno.h>
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "scale.h"

#define NK 6
typedef struct { int id; int state; char txt[8]; } obj_t;   /* state: 1 alive 2 freed by the map */
static obj_t pool[4096];
static int np;
static int hmode;               /* 0 all collide, 1 identity, 2 two classes, 3 string hash, 4 integer hash */
static bool owns;
static obj_t* kcur[NK + 400];   /* key object the map holds, per key id */
static obj_t* vcur[NK + 400];
static bool in[NK + 400];
static int cnt;
static uint64_t obs;
static int lockd;
static bool uselock;
static hashmap_t* gmap;         /* the callback of an iteration looks things up in this map (only without a lock) */

static obj_t* fresh(int id)
{
	obj_t* o = &pool[np++];
	if (np > 4000) hx_die("too many objects");
	o->id = id, o->state = 1;
	snprintf(o->txt, sizeof o->txt, "k%d", id);
	return o;
}
static int hashf(const void* k)
{
	const obj_t* o = k;
	HX_CHECK(o->state == 1, "freed-key-used", "the hash function is given a freed key");
	switch (hmode)
	{
	case 0: return 7;
	case 1: return o->id;
	case 2: return o->id & 1 ? 0x40000000 : -5;
	case 3: return hash_function_string(o->txt);
	default: return hash_function_integer((void*)(intptr_t)o->id);
	}
}
static bool eqf(const void* a, const void* b)
{
	HX_CHECK(((obj_t*)a)->state == 1 && ((obj_t*)b)->state == 1, "freed-key-used", "the equality function is given a freed key");
	return ((obj_t*)a)->id == ((obj_t*)b)->id;
}
static void freef(void* p)
{
	obj_t* o = p;
	HX_CHECK(o >= pool && o < pool + np, "free-foreign", "the free function is given a pointer that was never stored");
	HX_CHECK(o->state == 1, "free-twice", "an object is freed twice");
	o->state = 2;
}
static int lk(void* a) { (void)a; HX_CHECK(lockd == 0, "lock", "the lock is taken twice"); lockd++; return 0; }
static int ul(void* a) { (void)a; HX_CHECK(lockd == 1, "lock", "the lock is released without being held"); lockd--; return 0; }

static hashmap_t* mk(size_t capa, bool lock)
{
	hashmap_lock_t l = { NULL, lk, ul };
	np = cnt = lockd = 0, obs = 0, uselock = lock, gmap = NULL;
	memset(in, 0, sizeof in);
	hashmap_t* m = hashmap_create(capa, hashf, owns ? freef : NULL, owns ? freef : NULL, eqf, lock ? &l : NULL);
	memset(&l, 0, sizeof l);
	return m;
}
static void gone(int id, const char* how)
{
	if (owns)
	{
		HX_CHECK(kcur[id]->state == 2, "key-not-freed", "%s did not free the key", how);
		HX_CHECK(!vcur[id] || vcur[id]->state == 2, "value-not-freed", "%s did not free the value", how);
	}
	in[id] = false;
	cnt--;
}
static void put(hashmap_t* m, int id, bool nullv, int oom)
{
	obj_t* k = fresh(id);
	obj_t* v = nullv ? NULL : fresh(1000 + id);
	if (oom) sq_fail_alloc(oom, true);
	errno = 0;
	void* r = hashmap_put(m, k, v);
	int e = errno, fired = oom ? sq_alloc_fired() : 0;
	sq_fail_alloc(0, false);
	hx_log("put(%d%s)%s = %s  [%d entries]", id, nullv ? ", NULL" : "", fired ? " out of memory" : "", r ? "old value" : "NULL", cnt);
	if (in[id])
	{
		HX_CHECK(r == vcur[id], "put-old", "put of an existing key does not return the old value");
		if (owns && vcur[id]) HX_CHECK(vcur[id]->state == 2, "value-not-freed", "the replaced value was not freed");
		HX_CHECK(k->state == 1, "put-freed", "put freed the new key");
		vcur[id] = v;
	}
	else if (fired && (int)hashmap_size(m) == cnt)
	{
		HX_CHECK(!r && k->state == 1 && (!v || v->state == 1), "put-oom", "a put that failed touched its arguments");
		HX_CHECK(e == ENOMEM, "put-oom-errno", "a put that failed for lack of memory does not set errno to ENOMEM");
	}
	else
	{
		HX_CHECK(r == NULL, "put-new", "put of a new key returns a value");
		HX_CHECK(e != ENOMEM, "errno", "a put that stored the entry reports ENOMEM");
		kcur[id] = k, vcur[id] = v, in[id] = true;
		cnt++;
	}
}
static obj_t probe[2];
static obj_t* pk(int id) { probe[0] = (obj_t){ id, 1, "" }; snprintf(probe[0].txt, 8, "k%d", id); return probe; }
static void get(hashmap_t* m, int id)
{
	void* r = hashmap_get(m, pk(id));
	HX_CHECK(r == (in[id] ? vcur[id] : NULL), "get", "get(%d) returns %s", id, r ? "another value" : "NULL");
}
static void rem(hashmap_t* m, int id)
{
	void* r = hashmap_remove(m, pk(id));
	hx_log("remove(%d) = %s  [%d entries]", id, r ? "value" : "NULL", cnt);
	HX_CHECK(r == (in[id] ? vcur[id] : NULL), "remove", "remove(%d) returns the wrong value", id);
	if (in[id]) gone(id, "remove");
}
static int seen[NK + 400], nseen, stop_at;
static int glook;
static bool itcb(void* k, void* v, void* c)
{
	obj_t* o = k;
	HX_CHECK(c == (void*)seen, "foreach-context", "foreach passes another context");
	HX_CHECK(o->state == 1 && in[o->id] && kcur[o->id] == o && vcur[o->id] == v, "foreach-entry", "foreach passes an entry that is not in the map");
	HX_CHECK(!seen[o->id], "foreach-twice", "foreach passes an entry twice");
	seen[o->id] = 1;
	if (gmap)
	{
		get(gmap, o->id);
		for (int i = 0; i < glook; i++) get(gmap, i);
		HX_CHECK((int)hashmap_size(gmap) == cnt, "size", "size is %zu during an iteration, %d entries are stored", hashmap_size(gmap), cnt);
	}
	return ++nseen != stop_at;
}
static void each(hashmap_t* m, int stop)
{
	memset(seen, 0, sizeof seen);
	nseen = 0, stop_at = stop;
	hashmap_foreach(m, itcb, seen);
	int want = stop && stop < cnt ? stop : cnt;
	HX_CHECK(nseen == want, stop ? "foreach-stop" : "foreach-count", "foreach over %d entries, stopped by the callback after %d, made %d calls", cnt, stop, nseen);
}
/* the callback removes the entry it is called for: the walk must not use it any more */
static hashmap_t* emap;
static bool rmcb(void* k, void* v, void* c)
{
	obj_t* o = k;
	int id = o->id;
	HX_CHECK(o->state == 1 && in[id] && kcur[id] == o && vcur[id] == v, "foreach-entry", "foreach passes an entry that is not in the map");
	seen[id]++;
	if (!c || id & 1) rem(emap, id);
	return ++nseen != stop_at;
}
static void each_removing(hashmap_t* m, int stop, bool odd)
{
	memset(seen, 0, sizeof seen);
	int had = cnt;
	nseen = 0, stop_at = stop, emap = m;
	hashmap_foreach(m, rmcb, odd ? seen : NULL);
	HX_CHECK(nseen == (stop && stop < had ? stop : had), "foreach-remove", "foreach over %d entries, whose callback removes entries, made %d calls", had, nseen);
}
static void look(hashmap_t* m, int n)
{
	HX_CHECK((int)hashmap_size(m) == cnt, "size", "size is %zu, %d entries are stored", hashmap_size(m), cnt);
	for (int i = 0; i < n; i++) get(m, i);
	HX_CHECK(lockd == 0, "lock", "an operation returned with the lock held");
	uint64_t h = 0;
	for (int i = 0; i < n; i++) h = hx_mix(h, in[i] ? 1 + (vcur[i] != NULL) : 0);
	hx_state(hx_mix(h, (uint64_t)hmode * 2 + owns));
	hx_trans(1);
	obs = hx_mix(obs, h);
}
static void clear(hashmap_t* m, int n)
{
	hashmap_clear(m);
	for (int i = 0; i < n; i++) if (in[i]) gone(i, "clear");
}
static void fin(hashmap_t* m, int n)
{
	each(m, 0);
	if (!uselock) { gmap = m, glook = n < 40 ? n : 40; each(m, 0); gmap = NULL; }
	hashmap_free(m);
	for (int i = 0; i < n; i++) if (in[i]) gone(i, "free");
	HX_CHECK(lockd == 0, "lock", "free returned with the lock held");
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void sequences(void)
{
	hmode = hx_choose(5, "hash");
	owns = hx_choose(2, "owns");
	static const size_t caps[] = { 0, 1, 4 };
	hashmap_t* m = mk(caps[hx_choose(3, "capacity")], hmode == 2);
	HX_CHECK(m, "create", "creation failed");
	int depth = HX_T(5, 6);
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(hmode == 2 ? 10 : 11, "op");
		if (k < 4) put(m, k, false, false);
		else if (k == 4) put(m, 1, true, false);
		else if (k < 8) rem(m, k - 5);
		else if (k == 8) clear(m, NK);
		else if (k == 9) each(m, 1 + hx_choose(2, "stop"));
		else { int s = hx_choose(3, "removing"); each_removing(m, s == 2, s == 1); }
		look(m, NK);
	}
	fin(m, NK);
}
static void oom(void)
{
	hmode = hx_choose(2, "hash");
	owns = true;
	hashmap_t* m = mk(0, true);
	int fails = 0;
	for (int d = 0; d < HX_T(7, 8); d++)
	{
		int f = hx_choose(4, "op");
		if (f == 3) rem(m, d / 2);
		else put(m, d, false, f);
		fails += f == 1;
		look(m, 8);
	}
	each(m, 1);
	fin(m, 8);
	for (int k = 1; k < 4; k++)
	{
		np = 0;
		sq_fail_alloc(k, true);
		m = hashmap_create(4, hashf, NULL, NULL, eqf, NULL);
		if (!sq_alloc_fired()) { sq_fail_alloc(0, false); hashmap_free(m); break; }
		HX_CHECK(!m, "create-oom", "a map is created without memory");
		sq_check_leaks("leak");
	}
	sq_check_leaks("leak");
}
static void growth(void)
{
	int n = 1 + hx_choose(HX_T(150, 400), "entries");
	hmode = hx_choose(5, "hash");
	owns = true;
	static const size_t caps[] = { 0, 1, 3, 16, 100 };
	hashmap_t* m = mk(caps[hx_choose(5, "capacity")], false);
	for (int i = 0; i < n; i++) put(m, i, false, false);
	look(m, n + 3);
	for (int s = 1; s < n && s < 40; s += 3) each(m, s);
	for (int i = 0; i < n; i += 3) put(m, i, false, false);
	for (int i = 0; i < n; i += 2) rem(m, i);
	look(m, n + 3);
	each(m, 0);
	if (n % 3 == 0) each_removing(m, n / 5, true);
	if (n & 1) clear(m, n), look(m, n);
	for (int i = 0; i < n; i += 4) put(m, i, false, false);
	look(m, n + 3);
	fin(m, n);
}
static void misuse(void)
{
	hx_choose(2, "n");
	HX_CHECK(!hashmap_put(NULL, probe, probe) && !hashmap_get(NULL, probe) && !hashmap_remove(NULL, probe), "null", "a NULL map holds a value");
	hashmap_clear(NULL);
	hashmap_free(NULL);
	hashmap_foreach(NULL, itcb, NULL);
	/* the stock hash functions are functions of the key's content */
	char a[8] = "abc", b[8] = "abc";
	HX_CHECK(hash_function_string(a) == hash_function_string(b) && hashmap_hash(a, 3) == hashmap_hash(b, 3), "hash", "equal strings have different hashes");
	HX_CHECK(hash_function_integer(a) == hash_function_integer(a) && hash_function_naive(a) == hash_function_naive(a), "hash", "hash changes");
}
static struct { uint32_t id; char txt[12]; } big[131100];
static uint8_t bseen[131100];
static uint32_t nbig;
static int bhash(const void* k) { return hmode == 1 ? (int)((uint32_t*)k)[0] * 64 : hmode == 3 ? hash_function_string((void*)big[((uint32_t*)k)[0]].txt) : hash_function_integer((void*)(intptr_t)((uint32_t*)k)[0]); }
static bool beq(const void* a, const void* b) { return *(uint32_t*)a == *(uint32_t*)b; }
static bool beach(void* k, void* v, void* c) { (void)c; uint32_t i = *(uint32_t*)k; HX_CHECK(v == (void*)(intptr_t)(i + 1) && !bseen[i], "foreach-entry", "foreach passes a wrong or doubled entry"); bseen[i] = 1; nbig++; return true; }
static void scale(void)
{
	uint32_t n = scale_n[hx_choose(NSCALE, "entries")];
	hmode = (int[]){ 1, 3, 4 }[hx_choose(3, "hash")];
	hashmap_t* m = hashmap_create((size_t[]){ 0, 4096 }[hx_choose(2, "capacity")], bhash, NULL, NULL, beq, NULL);
	HX_CHECK(m, "create", "creation failed");
	for (uint32_t i = 0; i < n; i++)
	{
		if (big[i].id != i || !big[i].txt[0]) big[i].id = i, snprintf(big[i].txt, 12, "key%u", i);
		HX_CHECK(!hashmap_put(m, &big[i], (void*)(intptr_t)(i + 1)), "put-new", "put of new key %u returns a value", i);
	}
	HX_CHECK(hashmap_size(m) == n, "size", "size is %zu, %u entries are stored", hashmap_size(m), n);
	for (uint32_t i = 0; i < n; i++) HX_CHECK(hashmap_get(m, &big[i]) == (void*)(intptr_t)(i + 1), "get", "get(%u) of %u returns another value", i, n);
	memset(bseen, 0, n), nbig = 0;
	hashmap_foreach(m, beach, NULL);
	HX_CHECK(nbig == n, "foreach-count", "foreach over %u entries made %u calls", n, nbig);
	for (uint32_t i = 0; i < n; i += 2) HX_CHECK(hashmap_remove(m, &big[i]) == (void*)(intptr_t)(i + 1), "remove", "remove(%u) returns the wrong value", i);
	for (uint32_t i = 0; i < n; i++) HX_CHECK(hashmap_get(m, &big[i]) == (i & 1 ? (void*)(intptr_t)(i + 1) : NULL), "get", "get(%u) is wrong after removals", i);
	HX_CHECK(hashmap_size(m) == n / 2, "size", "size is %zu, %u entries are stored", hashmap_size(m), n / 2);
	hashmap_free(m);
	hx_state(hx_mix(n, (uint64_t)hmode)); hx_outcome(hx_mix(n, (uint64_t)hmode)); hx_trans(n);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "20 numbers of entries from 255 to 131073 x hash functions" },
	{ "misuse", misuse, 0, 0, "NULL maps; stock hash functions" },
	{ "oom", oom, 0, 0, "every subset of insertions hit by an allocation failure, incl. the table growth" },
	{ "growth", growth, 0, 0, "every number of entries x hash function x initial capacity: insert, replace, remove, iterate" },
	{ "sequences", sequences, 0, 0, "all sequences of put/replace/remove/clear/stopped iteration over colliding and distinct keys, with and without ownership" },
};
const int hx_n_scenarios = 5;
