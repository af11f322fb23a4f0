#include "model.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cerrno>
#include "sim.h"
#include <sys/mman.h>
#define POISON(p, n) vt_poison(p, n)
#define UNPOISON(p, n) vt_unpoison(p, n)

Ctx cx;
static const uint32_t MAGIC = 0x0B1EC7;
static const size_t ARENA = 6u << 20; // objects
static Obj *arena;
static size_t g_nobj; // all contexts share the arena
void (*cx_hook)();

void cx_reset()
{
	size_t n = g_nobj;
	if (!arena) {
		arena = (Obj *)mmap(nullptr, ARENA * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (arena == MAP_FAILED)
			harness_error("mmap");
	} else if (n) {
		if (n * sizeof(Obj) > 1u << 20)
			madvise(arena, n * sizeof(Obj), MADV_DONTNEED);
		else
			memset((void *)arena, 0, n * sizeof(Obj));
	}
	cx = Ctx();
	g_nobj = 0;
	cx_hook = nullptr;
}

Obj *obj_new(int32_t val)
{
	if (!arena)
		cx_reset();
	if (g_nobj >= ARENA)
		harness_error("too many objects");
	Obj *o = &arena[g_nobj];
	o->magic = MAGIC;
	o->val = val;
	o->frees = 0;
	o->serial = (uint32_t)g_nobj++;
	return o;
}

bool is_obj(const void *p)
{
	if (!arena || p < (void *)arena || p >= (void *)(arena + g_nobj))
		return false;
	size_t r = ((const char *)p - (char *)arena) % sizeof(Obj);
	return r == 0 || r == offsetof(Obj, str);
}

Obj *elem_obj(const void *e)
{
	if (!is_obj(e))
		return nullptr;
	size_t r = ((const char *)e - (char *)arena) % sizeof(Obj);
	return (Obj *)((char *)e - r);
}

void *elem_new(int32_t val)
{
	if (cx.kind == INT)
		return (void *)(uintptr_t)(1 + cx.wa * (uint32_t)val); // the order is that of the values
	if (cx.kind == WILD) {
		uint64_t p = cx.wa * (uint32_t)val + cx.wb;
		return (void *)(p ? p : (cx.wa << 32) + cx.wb);
	}
	Obj *o = obj_new(val);
	if (cx.kind == OBJ)
		return o;
	// the text form sorts like the value
	snprintf(o->str, sizeof o->str, "%s%010u", cx.prefix ? "prefix/long/k" : "k", (uint32_t)val ^ 0x80000000u);
	return o->str;
}

void *value_new(int32_t val)
{
	return cx.kind == WILD ? elem_new(cx.wild_next++) : (void *)obj_new(val);
}

void cx_wild(Src &s)
{
	cx.kind = WILD;
	cx.native = false;
	// the ends of the address space, sign bits, and patterns that are used as marks
	static const uint64_t B[] = {(uint64_t)-12, 1, (uint64_t)-40, 0x7ffffffffffffffaull, 0x7fffffffull - 6, 0xffffffffull - 6,
	                             0xdeadbeefull - 6, 0xdeadbeefdeadbeefull - 6, 0x5555555555555555ull - 6, 0xaaaaaaaaaaaaaaaaull - 6,
	                             0xcdcdcdcdcdcdcdcdull - 6, 0xccccccccccccccccull - 6, 0xfeeefeeefeeefeeeull - 6, 0xbaadf00dull - 6};
	static const uint64_t A[] = {1, 3, ((uint64_t)1 << 32) + 1, ((uint64_t)1 << 56) + 1, ((uint64_t)1 << 63) + 1, 0x9E3779B97F4A7C15ull};
	size_t b = s.u(20), a = s.w({6, 1, 1, 1, 1, 2});
	if (b < sizeof B / sizeof *B)
		cx.wb = B[b];
	else
		switch (s.w({3, 2, 1, 2})) {
		case 0: cx.wb = s.u64(); break;
		case 1: cx.wb = s.u(4096); break;                                        // small numbers
		case 2: cx.wb = (uint64_t)-(int64_t)s.u(70000); break;                   // negative ones
		default: cx.wb = ((uint64_t)(s.chance(1, 2) ? -1 : 1) << s.u(63)) - s.u(12); // powers of two
		}
	cx.wa = A[a];
	cx.wild_next = (int32_t)s.u(8);
}

int32_t elem_val(const void *e)
{
	if (!e)
		return INT32_MIN;
	if (cx.kind == WILD) {
		uint64_t p = (uint64_t)e, inv = cx.wa;
		if (p == (cx.wa << 32) + cx.wb)
			p = 0;
		for (int i = 0; i < 6; ++i)
			inv *= 2 - cx.wa * inv;
		uint64_t v = (p - cx.wb) * inv;
		if (v >> 32)
			fail("an element that was never stored came back (pointer %p)", e);
		return (int32_t)v;
	}
	if (cx.kind == INT)
		return (int32_t)(((uintptr_t)e - 1) / cx.wa);
	if (!is_obj(e))
		fail("an element that was never stored came back (pointer %s)", "outside the elements");
	Obj *o = elem_obj(e);
	return o->val;
}

std::string elem_str(const void *e)
{
	char b[64];
	if (!e)
		return "NULL";
	if (cx.kind == WILD)
		snprintf(b, sizeof b, "0x%llx", (unsigned long long)e);
	else if (is_obj(e))
		snprintf(b, sizeof b, "%d#%u", elem_obj(e)->val, elem_obj(e)->serial);
	else if (cx.kind == INT)
		snprintf(b, sizeof b, "int:%lu", (unsigned long)(uintptr_t)e);
	else
		snprintf(b, sizeof b, "?");
	return b;
}

void cx_draw(Src &s, bool kinds)
{
	cx.kind = kinds ? (Kind)s.w({6, 2, 2}) : OBJ;
	cx.order = (int)s.w({3, 1});
	static const int C[] = {1, 1, 1, 2, 5, 1000000000};
	cx.coarse = C[s.w({6, 0, 0, 1, 1, 0})];
	cx.magnitude = (int)s.w({2, 2, 2, 2, 2, 1});
	cx.nullmode = (int)s.w({3, 1, 1});
	if (cx.nullmode == 2)
		cx.nullval = (int32_t)s.u(9);
	if (cx.kind == INT) {
		static const uint64_t W[] = {1, 3, 1 << 12, 1 << 16, (1 << 20) + 1, 0x7fffffff};
		cx.wa = W[s.w({8, 1, 1, 1, 1, 1})];
	}
	cx_native(s);
}

void cx_native(Src &s)
{
	cx.prefix = cx.kind == STR && s.chance(1, 3);
	cx.native = cx.kind != OBJ && s.chance(1, 3);
	if (cx.native) {
		cx.order = 0;
		cx.coarse = 1;
		s.label("the library's own comparison");
	}
}

CmpFn cx_cmp() { return !cx.native ? elem_cmp : cx.kind == STR ? shim_str_compare_fn : shim_direct_compare_fn; }
EqFn cx_eq() { return !cx.native ? elem_eq : cx.kind == STR ? shim_str_equal_fn : shim_direct_equal_fn; }
HashFn cx_hash() { return !cx.native || (cx.kind != STR && cx.wa > 1 && cx.hashmode != 2) ? elem_hash : cx.kind == STR ? shim_str_hash_fn : shim_direct_hash_fn; }

int64_t rank_of(const void *a)
{
	int64_t v;
	if (cx.native && cx.kind == WILD) // by address
		return (int64_t)((uint64_t)a ^ (uint64_t)1 << 63);
	if (!a && cx.nullmode == 2)
		v = cx.nullval;
	else if (!a)
		v = cx.nullmode ? 8000000000ll : -4000000000ll;
	else if (cx.kind == INT)
		v = (int64_t)(uint32_t)(((uintptr_t)a - 1) / cx.wa);
	else
		v = elem_val(a);
	if ((a || cx.nullmode == 2) && cx.coarse > 1)
		v = v >= 0 ? v / cx.coarse : -1 - (-1 - v) / cx.coarse;
	return cx.order ? -v : v;
}

int mcmp(const void *a, const void *b)
{
	int64_t x = rank_of(a), y = rank_of(b);
	return x < y ? -1 : x > y;
}

static void watch(const void *a)
{
	if (!a || cx.kind == INT || cx.kind == WILD)
		return;
	if (!is_obj(a))
		fail("a callback was given a pointer that is not an element");
	if (cx.watch_freed && elem_obj(a)->frees)
		fail("element %s was used after it had been freed", elem_str(a).c_str());
}

static void count_call()
{
	if (++cx.calls > cx.budget)
		fail("the operation does not terminate (%llu calls of the comparison function)", (unsigned long long)cx.calls);
}

extern "C" int32_t elem_cmp(const void *a, const void *b)
{
	count_call();
	watch(a);
	watch(b);
	if (cx_hook)
		cx_hook();
	int64_t x = rank_of(a), y = rank_of(b);
	int sg = x < y ? -1 : x > y;
	if (!sg)
		return 0;
	switch (cx.magnitude) {
	case 1: { // the difference, limited to the type
		int64_t d = x - y;
		return d > INT32_MAX ? INT32_MAX : d < INT32_MIN ? INT32_MIN : (int32_t)d;
	}
	case 2:
		return sg < 0 ? INT32_MIN : INT32_MAX;
	case 3: { // any magnitude, depending on the pair
		uint64_t h = mix64((uint64_t)x * 31 + (uint64_t)y);
		return sg * (int32_t)(1 + h % INT32_MAX);
	}
	case 4:
		return sg * 65536;
	case 5:
		return sg * 256;
	default:
		return sg;
	}
}

extern "C" bool elem_eq(const void *a, const void *b)
{
	count_call();
	watch(a);
	watch(b);
	if (cx_hook)
		cx_hook();
	return mcmp(a, b) == 0;
}

extern "C" uint32_t elem_hash(const void *a)
{
	watch(a);
	if (cx_hook)
		cx_hook();
	int64_t r = rank_of(a); // equal elements hash alike
	uint32_t v = (uint32_t)r;
	switch (cx.hashmode) {
	case 0: return v;
	case 1: return (uint32_t)mix64((uint64_t)r);
	case 2: return 7;
	case 3: return v % cx.hashmod;
	case 4: return v << 20;              // only high bits differ
	case 5: { // extreme values
		static const uint32_t X[] = {UINT32_MAX, 0, 0x80000000u, 0x7fffffffu, UINT32_MAX - 1, 0x80000001u, 0x10000u, 0xffffu};
		return X[v % 8];
	}
	case 6: return v * cx.hashmod;       // collides modulo a fixed table size
	default: return 0;
	}
}

static void note_free(void *p, std::vector<void *> &log)
{
	log.push_back(p);
	if (cx.kind != WILD && is_obj(p)) {
		Obj *o = elem_obj(p);
		if (cx.watch_freed && o->frees)
			fail("element %s was freed twice", elem_str(p).c_str());
		++o->frees;
		if (cx.watch_freed && cx.kind == STR) // as free() may do
			memset(o->str, 'z', sizeof o->str - 1);
	}
	if (cx_hook)
		cx_hook();
}
extern "C" void elem_free(void *p) { note_free(p, cx.freed); }
extern "C" void elem_free2(void *p) { note_free(p, cx.freed2); }

// ------------------------------------------------------------------ pools

static const size_t CANARY = 16;

static void *track_alloc(ShimPool *ip)
{
	TrackPool *p = (TrackPool *)ip;
	if (p->magic != 0x7A3C)
		fail("the pool's alloc function was called with a wrong pool pointer");
	uint32_t i;
	if (!p->free_list->empty()) {
		size_t at = p->lifo ? p->free_list->size() - 1 : 0;
		i = (*p->free_list)[at];
		p->free_list->erase(p->free_list->begin() + at);
		char *c = (*p->chunks)[i];
		UNPOISON(c, p->item);
		for (size_t k = 0; k < p->item; ++k)
			if ((uint8_t)c[k] != 0xDD)
				fail("a node was written after it had been given back to the pool");
	} else {
		char *raw = (char *)malloc(p->item + 2 * CANARY);
		sim::fresh(raw, p->item + 2 * CANARY);
		if (!raw)
			harness_error("out of memory");
		memset(raw, 0xA7, p->item + 2 * CANARY);
		POISON(raw, CANARY);
		POISON(raw + CANARY + p->item, CANARY);
		i = (uint32_t)p->chunks->size();
		p->chunks->push_back(raw + CANARY);
		p->state->push_back(0);
	}
	char *c = (*p->chunks)[i];
	memset(c, p->fill, p->item);
	(*p->state)[i] = 1;
	++p->live;
	++p->allocs;
	return c;
}

static void track_free(ShimPool *ip, void *item)
{
	TrackPool *p = (TrackPool *)ip;
	if (p->magic != 0x7A3C)
		fail("the pool's free function was called with a wrong pool pointer");
	// chunks are found from the most recent one, which is the common case
	for (size_t i = p->chunks->size(); i-- > 0;)
		if ((*p->chunks)[i] == item) {
			if (!(*p->state)[i])
				fail("a node was given back to the pool twice");
			(*p->state)[i] = 0;
			memset(item, 0xDD, p->item);
			POISON(item, p->item);
			p->free_list->push_back((uint32_t)i);
			--p->live;
			++p->frees;
			return;
		}
	fail("memory was given to the pool that it never handed out");
}

TrackPool *track_new(size_t item, Src &s)
{
	TrackPool *p = (TrackPool *)calloc(1, sizeof(TrackPool));
	sim::fresh(p, sizeof *p);
	p->iface.alloc = track_alloc;
	p->iface.free = track_free;
	p->magic = 0x7A3C;
	p->item = item;
	static const int F[] = {0, 0xCD, 0xFF, 1};
	p->fill = F[s.u(3)];
	p->lifo = s.chance(1, 2);
	p->chunks = new std::vector<char *>();
	p->state = new std::vector<uint8_t>();
	p->free_list = new std::vector<uint32_t>();
	return p;
}

void track_check(TrackPool *p)
{
	for (size_t i = 0; i < p->chunks->size(); ++i) {
		char *c = (*p->chunks)[i];
		if (vt_poisons)
			continue;
		for (size_t k = 1; k <= CANARY; ++k)
			if ((uint8_t)c[-(long)k] != 0xA7)
				fail("memory in front of a node from the pool was overwritten");
		for (size_t k = 0; k < CANARY; ++k)
			if ((uint8_t)c[p->item + k] != 0xA7)
				fail("memory behind a node from the pool was overwritten");
		if (!(*p->state)[i])
			for (size_t k = 0; k < p->item; ++k)
				if ((uint8_t)c[k] != 0xDD)
					fail("a node was written after it had been given back to the pool");
	}
}

void track_destroy(TrackPool *p)
{
	track_check(p);
	for (char *c : *p->chunks) {
		UNPOISON(c - CANARY, p->item + 2 * CANARY);
		free(c - CANARY);
	}
	delete p->chunks;
	delete p->state;
	delete p->free_list;
	free(p);
}

void PoolBox::draw(Src &s, size_t item, std::initializer_list<uint32_t> ws)
{
	type = (Type)s.w(ws);
	pool = nullptr;
	if (type == LIB)
		pool = shim_pool_new(item + (s.chance(1, 4) ? 8 * s.u(3) : 0), s.w({1, 1}) ? 2 + s.u(6) : 2 + s.size(100));
	else if (type == TRACK)
		pool = track_new(item, s);
}

void PoolBox::destroy()
{
	if (type == LIB)
		shim_pool_destroy(pool);
	else if (type == TRACK)
		track_destroy((TrackPool *)pool);
	pool = nullptr;
	type = NONE;
}

// ------------------------------------------------------------------ caller storage

void fill_garbage(char *p, size_t n, Src &s)
{
	switch (s.w({1, 2, 2, 3})) {
	case 0: memset(p, 0, n); break;
	case 1: memset(p, 0xFF, n); break;
	case 2: memset(p, 0x01, n); break;
	default: {
		uint64_t h = s.u(255);
		for (size_t i = 0; i < n; ++i)
			p[i] = (char)(mix64(h + i) | 1);
	}
	}
}

void Storage::create(size_t n, Src &s)
{
	size = n;
	raw = (char *)malloc(n + 64);
	sim::fresh(raw, n + 64);
	memset(raw, 0x5A, n + 64);
	mem = raw + 32;
	POISON(raw, 32);
	POISON(mem + n, 32);
	fill_garbage(mem, n, s);
}

// New garbage, or whatever the previous use left behind.
void Storage::refill(Src &s)
{
	if (!s.chance(1, 4))
		fill_garbage(mem, size, s);
}

void Storage::check(const char *what)
{
	for (size_t i = 0; i < 32 && !vt_poisons; ++i) {
		CHECK((uint8_t)raw[i] == 0x5A, "%s: memory before the caller's storage was overwritten", what);
		CHECK((uint8_t)mem[size + i] == 0x5A, "%s: memory behind the caller's storage was overwritten", what);
	}
}

void Storage::destroy()
{
	if (!raw)
		return;
	check("end");
	UNPOISON(raw, size + 64);
	free(raw);
	raw = mem = nullptr;
}

Wide::Wide(size_t len)
{
	const size_t part = (size_t)32 << 20;
	int fd = memfd_create("wide", 0);
	if (fd < 0 || ftruncate(fd, (off_t)part))
		harness_error("memfd_create: %s", strerror(errno));
	full = (len + part) / part * part;
	p = (char *)mmap(nullptr, full, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		harness_error("mmap: %s", strerror(errno));
	for (size_t i = 0; i < full; i += part)
		if (mmap(p + i, part, PROT_READ | PROT_WRITE, (i + part == full ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) == MAP_FAILED)
			harness_error("mmap: %s", strerror(errno));
	close(fd);
	for (size_t i = 0; i < part; i += 8) {
		uint64_t r = (mix64(i) & 0x7f7f7f7f7f7f7f7full) | 0x2020202020202020ull;
		memcpy(p + i, &r, 8);
	}
}
Wide::~Wide() { munmap(p, full); }
