#include "vt.h"
#include "engine.h"
#include <cerrno>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/types.h>

// Table of live blocks: open addressing, backward-shift deletion.
struct Ent { void *p; size_t n; };
static Ent *tab;
static size_t cap, used, bytes, peak;
static uint64_t requests, fail_at, traffic;
static bool refused, soft;
static size_t max_request = (size_t)2 << 30;
static bool huge_pages;
static uint8_t garbage = 0xCD;
jmp_buf *vt_abort_env;
const char *const vt_variant = VT_VARIANT;
uint64_t vt_handlers;

#if defined(VT_ASAN)
#include <sanitizer/asan_interface.h>
const bool vt_poisons = true;
void vt_poison(const void *p, size_t n) { __asan_poison_memory_region(p, n); }
void vt_unpoison(const void *p, size_t n) { __asan_unpoison_memory_region(p, n); }
static const size_t GUARD = 0;
#else
const bool vt_poisons = false;
void vt_poison(const void *, size_t) {}
void vt_unpoison(const void *, size_t) {}
static const size_t GUARD = 16;
static const size_t QN = 512;
static struct { char *raw; size_t n; } quarantine[QN];
static size_t qpos;
#endif

static size_t slot_of(const void *p) { return (size_t)(mix64((uint64_t)p) & (cap - 1)); }

extern void (*vt_alloc_hook)(void *, size_t);
extern void (*vt_free_hook)(void *, size_t);

static void insert(void *p, size_t n)
{
	if (vt_alloc_hook)
		vt_alloc_hook(p, n);
	if (!tab || used * 2 >= cap) {
		size_t oc = cap;
		Ent *ot = tab;
		cap = cap ? cap * 2 : 1024;
		tab = (Ent *)calloc(cap, sizeof(Ent));
		if (!tab)
			harness_error("out of memory");
		for (size_t i = 0; i < oc; ++i)
			if (ot[i].p) {
				size_t s = slot_of(ot[i].p);
				while (tab[s].p)
					s = (s + 1) & (cap - 1);
				tab[s] = ot[i];
			}
		free(ot);
	}
	size_t s = slot_of(p);
	while (tab[s].p)
		s = (s + 1) & (cap - 1);
	tab[s] = Ent{p, n};
	++used;
	bytes += n;
	if (bytes > peak)
		peak = bytes;
}

static Ent *find(const void *p)
{
	if (!tab)
		return nullptr;
	size_t s = slot_of(p);
	while (tab[s].p) {
		if (tab[s].p == p)
			return &tab[s];
		s = (s + 1) & (cap - 1);
	}
	return nullptr;
}

static void erase(Ent *e)
{
	bytes -= e->n;
	--used;
	size_t i = e - tab, j = i;
	for (;;) {
		j = (j + 1) & (cap - 1);
		if (!tab[j].p)
			break;
		size_t k = slot_of(tab[j].p);
		if (i <= j ? (i < k && k <= j) : (i < k || k <= j))
			continue;
		tab[i] = tab[j];
		i = j;
	}
	tab[i].p = nullptr;
}

// more than any case needs: a runaway allocation, which would take the machine down
static void limit(size_t n)
{
	if (bytes + n > ((size_t)1 << 30) + max_request && n < (size_t)1 << 30)
		fail("the library holds more than %zu GiB (%zu blocks)", (max_request >> 30) + 1, used);
}

static void *raw_alloc(size_t n)
{
	limit(n);
#if defined(VT_ASAN)
	return malloc(n ? n : 1);
#else
	char *r = (char *)malloc(n + 2 * GUARD);
	if (!r)
		return nullptr;
	if (huge_pages && n >> 30)
		madvise((void *)(((uintptr_t)r + 4095) & ~(uintptr_t)4095), n - 4096, MADV_HUGEPAGE);
	memset(r, 0xA7, GUARD);
	memset(r + GUARD + n, 0xA7, GUARD);
	return r + GUARD;
#endif
}

static void check_guards(const Ent &e)
{
#if !defined(VT_ASAN)
	const unsigned char *p = (const unsigned char *)e.p;
	for (size_t i = 0; i < GUARD; ++i) {
		CHECK(p[-1 - (long)i] == 0xA7, "memory before a block of %zu bytes was overwritten", e.n);
		CHECK(p[e.n + i] == 0xA7, "memory behind a block of %zu bytes was overwritten", e.n);
	}
#else
	(void)e;
#endif
}

static void raw_free(void *p, size_t n)
{
	if (vt_free_hook)
		vt_free_hook(p, n);
#if defined(VT_ASAN)
	(void)n;
	free(p);
#else
	char *r = (char *)p - GUARD;
	size_t m = n < 65536 ? n : 65536;
	memset(p, 0xDD, m);
	size_t i = qpos++ % QN;
	if (quarantine[i].raw) {
		unsigned char *q = (unsigned char *)quarantine[i].raw + GUARD;
		for (size_t k = 0; k < quarantine[i].n; ++k)
			CHECK(q[k] == 0xDD, "memory was written after it had been freed");
		free(quarantine[i].raw);
		quarantine[i].raw = nullptr;
	}
	if (n <= 4096) {
		quarantine[i].raw = r;
		quarantine[i].n = m;
	} else {
		free(r);
	}
#endif
}

static bool refuse()
{
	++requests;
	if (fail_at && requests == fail_at) {
		refused = true;
		errno = ENOMEM;
		return true;
	}
	return false;
}

extern "C" {

void *vt_malloc(size_t n)
{
	if (refuse())
		return nullptr;
	if (n > max_request) {
		errno = ENOMEM;
		return nullptr;
	}
	traffic += n;
	void *p = raw_alloc(n);
	if (!p)
		return nullptr;
	memset(p, garbage, n < (1u << 22) ? n : (1u << 22));
	insert(p, n);
	return p;
}

void *vt_calloc(size_t n, size_t m)
{
	if (refuse())
		return nullptr;
	size_t total;
	if (__builtin_mul_overflow(n, m, &total) || total > max_request) {
		errno = ENOMEM;
		return nullptr;
	}
	traffic += total;
	void *p = raw_alloc(total);
	if (!p)
		return nullptr;
	if (total < (size_t)1 << 30) // fresh pages, as they come from the system
		memset(p, 0, total);
	insert(p, total);
	return p;
}

void vt_free(void *p)
{
	if (!p)
		return;
	Ent *e = find(p);
	CHECK(e, "the library freed memory it does not hold (double or invalid free)");
	check_guards(*e);
	size_t n = e->n;
	erase(e);
	raw_free(p, n);
}

void *vt_realloc(void *p, size_t n)
{
	if (!p)
		return vt_malloc(n);
	Ent *e = find(p);
	CHECK(e, "the library reallocated memory it does not hold");
	check_guards(*e);
	if (refuse()) {
		if (n && n <= e->n) { // it may do with what it has
			refused = false;
			soft = true;
		}
		return nullptr;
	}
	if (n > max_request) {
		errno = ENOMEM;
		return nullptr;
	}
	size_t old = e->n;
	if (n == 0) {
		erase(e);
		raw_free(p, old);
		return nullptr;
	}
	traffic += n + old;
	void *q = raw_alloc(n);
	if (!q)
		return nullptr;
	size_t keep = old < n ? old : n;
	memcpy(q, p, keep);
	if (n > keep)
		memset((char *)q + keep, garbage, n - keep < (1u << 22) ? n - keep : (1u << 22));
	erase(e);
	raw_free(p, old);
	insert(q, n);
	return q;
}

void *vt_reallocarray(void *p, size_t n, size_t m)
{
	size_t total;
	if (__builtin_mul_overflow(n, m, &total)) {
		errno = ENOMEM;
		return nullptr;
	}
	return vt_realloc(p, total);
}

void *vt_aligned_alloc(size_t, size_t n) { return vt_malloc(n); }
int vt_posix_memalign(void **out, size_t, size_t n)
{
	*out = vt_malloc(n);
	return *out ? 0 : ENOMEM;
}
char *vt_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)vt_malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}
char *vt_strndup(const char *s, size_t n)
{
	n = strnlen(s, n);
	char *p = (char *)vt_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}

void vt_abort(void)
{
	if (vt_abort_env)
		longjmp(*vt_abort_env, 1);
	fail("the library called abort()");
}
#define LATER(name) int vt_x_##name() { ++vt_handlers; return 0; }
LATER(atexit) LATER(on_exit) LATER(at_quick_exit) LATER(pthread_atfork)
void vt_x_assert(const char *what, const char *file, unsigned, const char *fn)
{
	const char *slash = strrchr(file, '/');
	fail("assertion \"%s\" of %s() in %s failed", what, fn, slash ? slash + 1 : file);
}
#define EXIT(name) void vt_x_##name(int rc) { fail("the library ended the process through " #name "(%d)", rc); }
EXIT(exit) EXIT(_exit) EXIT(_Exit) EXIT(quick_exit) EXIT(err) EXIT(errx) EXIT(verr) EXIT(verrx)

} // extern "C"

void vt_reset()
{
	if (tab && used)
		for (size_t i = 0; i < cap; ++i)
			if (tab[i].p) {
				char *r = (char *)tab[i].p - GUARD;
				free(r);
				tab[i].p = nullptr;
			}
	if (cap > 1u << 14) {
		free(tab);
		tab = nullptr;
		cap = 0;
	} else if (tab && used) {
		memset(tab, 0, cap * sizeof(Ent));
	}
#if !defined(VT_ASAN)
	for (size_t i = 0; i < QN; ++i)
		if (quarantine[i].raw) {
			const unsigned char *q = (unsigned char *)quarantine[i].raw + GUARD;
			for (size_t k = 0; k < quarantine[i].n; ++k)
				CHECK(q[k] == 0xDD, "memory was written after it had been freed");
			free(quarantine[i].raw);
			quarantine[i].raw = nullptr;
		}
	qpos = 0;
#endif
	used = bytes = peak = 0;
	requests = fail_at = traffic = 0;
	refused = soft = false;
	garbage = 0xCD;
	max_request = (size_t)2 << 30;
	huge_pages = false;
	vt_abort_env = nullptr;
}

size_t vt_live_blocks() { return used; }
size_t vt_live_bytes() { return bytes; }
size_t vt_peak_bytes() { return peak; }
void vt_reset_peak() { peak = bytes; }
size_t vt_size(const void *p)
{
	Ent *e = find(p);
	return e ? e->n : (size_t)-1;
}
void vt_check_all()
{
	for (size_t i = 0; i < cap; ++i)
		if (tab[i].p)
			check_guards(tab[i]);
}
void vt_allow(size_t n) { max_request = n; }
void vt_huge_pages() { huge_pages = true; }
void vt_garbage(uint8_t b) { garbage = b; }
uint64_t vt_requests() { return requests; }
uint64_t vt_traffic() { return traffic; }
void vt_fail_at(uint64_t r) { fail_at = r; }
bool vt_refused() { return refused; }
bool vt_refused_soft() { return soft; }
