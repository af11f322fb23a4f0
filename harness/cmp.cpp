// C23-C24: the library's comparison, equality and hash functions.
#include "mapm.h"
#include <map>
#include <sys/mman.h>

static int sign(int64_t x) { return (x > 0) - (x < 0); }

// ------------------------------------------------------------------ strings

static std::string draw_str(Src &s)
{
	size_t n;
	switch (s.w({6, 3, 2, 1})) {
	case 0: n = s.u(8); break;
	case 1: n = s.u(40); break;
	case 2: n = ((size_t)8 << s.u(6)) + s.u(2) - 1; break;
	default: n = s.u(s.chance(1, g_thorough ? 20 : 200) ? 300000 : 5000); break;
	}
	std::string d(n, 'a');
	int mode = (int)s.w({3, 3, 2, 1, 1});
	if (mode == 4)
		return d;
	uint64_t r = s.u64();
	for (char &c : d) {
		r = mix64(r);
		switch (mode) {
		case 0: c = (char)('a' + r % 3); break;
		case 1: c = (char)(1 + r % 255); break;
		case 2: c = (char)(0x7e + r % 4); break;
		default: c = (r & 1) ? (char)0xff : (char)1; break;
		}
	}
	return d;
}

static std::string derive(Src &s, const std::string &a)
{
	std::string b = a;
	switch (s.w({3, 3, 2, 2, 2, 2, 1})) {
	case 0: break;                                                        // equal
	case 1: b = b.substr(0, s.u((uint32_t)b.size())); break;              // prefix
	case 2: b += (char)(1 + s.u(254)); break;
	case 3:                                                               // one byte differs
		if (!b.empty())
			b[s.u((uint32_t)b.size() - 1)] = (char)(1 + s.u(254));
		break;
	case 4:                                                               // last byte differs
		if (!b.empty())
			b.back() = (char)(1 + s.u(254));
		break;
	case 5:                                                               // one bit differs
		if (!b.empty()) {
			size_t i = s.u((uint32_t)b.size() - 1);
			char c = (char)(b[i] ^ (1 << s.u(7)));
			if (c)
				b[i] = c;
		}
		break;
	default: b = draw_str(s); break;
	}
	return b;
}

// a copy in front of an unreadable page, at a drawn alignment, or in a block of its own
struct Place {
	char *p = nullptr;
	char *own = nullptr;
	static const size_t PAGES = 128 * 4096;
	static char *region(int k)
	{
		static char *r[2];
		if (!r[k]) {
			r[k] = (char *)mmap(nullptr, PAGES + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (r[k] == MAP_FAILED || mprotect(r[k] + PAGES, 4096, PROT_NONE))
				harness_error("mmap");
		}
		return r[k];
	}
	Place(Src &s, const std::string &d, int k)
	{
		size_t n = d.size() + 1;
		int how = (int)s.w({2, 1, 1});
		if (how == 0) {
			p = region(k) + PAGES - n;
		} else if (how == 1) {
			size_t pad = s.u(15), tail = 24;
			own = (char *)malloc(pad + n + tail);
			for (size_t i = 0; i < pad + n + tail; ++i)
				own[i] = (char)(s.u(1) ? 0x5a + k : 0xff); // what surrounds the string differs
			p = own + pad;
		} else {
			p = own = (char *)malloc(n);
		}
		memcpy(p, d.c_str(), n);
	}
	~Place() { free(own); }
};

static void check_pair(Src &s, const std::string &a, const std::string &b)
{
	Place pa(s, a, 0), pb(s, b, 1);
	int want = sign(a.compare(0, std::string::npos, b)); // char_traits<char> compares as unsigned bytes
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i])
		++i;
	int byhand = i < a.size() && i < b.size() ? ((unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1) : i < a.size() ? 1 : i < b.size() ? -1 : 0;
	if (want != byhand)
		harness_error("reference");
	int got = sign(shim_str_compare(pa.p, pb.p)), rev = sign(shim_str_compare(pb.p, pa.p));
	CHECK(got == want, "str_compare has sign %d, expected %d (lengths %zu and %zu, first difference at %zu)", got, want, a.size(), b.size(), i);
	CHECK(rev == -want, "str_compare is not antisymmetric (lengths %zu and %zu, first difference at %zu)", a.size(), b.size(), i);
	CHECK(shim_str_equal(pa.p, pb.p) == (want == 0), "str_equal is %d (lengths %zu and %zu, first difference at %zu)", want != 0, a.size(), b.size(), i);
	CHECK(shim_str_equal(pb.p, pa.p) == (want == 0), "str_equal is not symmetric (lengths %zu and %zu, first difference at %zu)", a.size(), b.size(), i);
	uint32_t ha = shim_str_hash(pa.p), hb = shim_str_hash(pb.p);
	CHECK(ha == shim_str_hash(pa.p) && hb == shim_str_hash(pb.p), "str_hash gives different results for one string");
	if (want == 0)
		CHECK(ha == hb, "equal strings of %zu bytes hash differently (%08x and %08x)", a.size(), ha, hb);
	CHECK(!memcmp(pa.p, a.c_str(), a.size() + 1) && !memcmp(pb.p, b.c_str(), b.size() + 1), "a string was modified");
	CHECK(shim_str_equal(pa.p, pa.p) && shim_str_compare(pa.p, pa.p) == 0, "a string differs from itself");
}

template <class Key, class Make>
static void as_keys(Src &s, const std::vector<Key> &universe, CmpFn cmp, EqFn eq, HashFn hash, Make make)
{
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	const MapOps *ops = K[s.u(2)];
	MapCfg cfg;
	memset(&cfg, 0, sizeof cfg);
	cfg.cmp = cmp;
	cfg.eq = eq;
	cfg.hash = hash;
	cfg.size = s.chance(1, 2) ? 0 : 1 + s.u(20);
	void *map = ops->make(&cfg);
	std::map<Key, uintptr_t> m;
	s.note("keys of a %s", ops->name);
	uint32_t n = 4 + s.u(60);
	for (uint32_t i = 0; i < n; ++i) {
		const Key &k = universe[s.u((uint32_t)universe.size() - 1)];
		auto it = m.find(k);
		if (s.chance(1, 4)) {
			int got = ops->remove(map, make(k));
			CHECK(got < 0 || got == (it != m.end()), "%s: remove reports %d for a key that is %s", ops->name, got, it != m.end() ? "stored" : "not stored");
			if (it != m.end())
				m.erase(it);
		} else {
			int got = ops->set(map, make(k), (void *)(uintptr_t)(i + 1), s.chance(1, 2));
			CHECK(got == (it == m.end() ? SHIM_NEW : SHIM_REPLACED), "%s: set reports %d for a key that was %s", ops->name, got, it != m.end() ? "stored" : "not stored");
			m[k] = i + 1;
		}
		CHECK(ops->count(map) == m.size(), "%s: %zu entries, expected %zu", ops->name, ops->count(map), m.size());
	}
	for (const Key &k : universe) {
		auto it = m.find(k);
		void *pair = ops->lookup(map, make(k));
		CHECK((pair != nullptr) == (it != m.end()), "%s: a key that is %s was %s", ops->name, it != m.end() ? "stored" : "not stored", pair ? "found" : "not found");
		if (pair)
			CHECK((uintptr_t)ops->pair_value(pair) == it->second, "%s: a key has another key's value", ops->name);
		CHECK(ops->exists(map, make(k)) == (it != m.end()), "%s: exists is wrong", ops->name);
	}
	ops->destroy(map);
}

// Strings of gigabytes.
static void str_giant(Src &s)
{
	size_t n = ((size_t)1 << 32) + 1 + s.u(1000), h = ((size_t)1 << 31) - 1;
	s.note("two strings of %zu bytes", n);
	if (n >> 32 && memory_available() < (size_t)2 << 30)
		return;
	Wide a(n), b(n);
	a.p[n] = b.p[n] = 0;
	CHECK(shim_str_equal(a.p, b.p), "two equal strings of %zu bytes are not equal", n);
	CHECK(shim_str_hash(a.p + h) == shim_str_hash(b.p + h), "two equal strings of %zu bytes hash differently", n - h);
	b.p[n - 1] ^= 1;
	CHECK(!shim_str_equal(a.p, b.p), "two strings that differ in the last of %zu bytes are equal", n);
	int c = shim_str_compare(a.p, b.p);
	CHECK(c && (c < 0) == ((unsigned char)a.p[n - 1] < (unsigned char)b.p[n - 1]), "the order of two strings of %zu bytes is wrong", n);
	b.p[n - 1] = 0;
	CHECK(!shim_str_equal(b.p, a.p), "a string of %zu bytes equals one of %zu", n - 1, n);
	s.label("gigabytes");
	s.nontrivial();
}

static void c23(Src &s)
{
	cx_reset();
	if (!vt_poisons && s.at_case(1)) {
		in_child(60, [&] { str_giant(s); });
		s.label("gigabytes");
		return;
	}
	std::vector<std::string> v;
	v.push_back(draw_str(s));
	s.note("string of %zu bytes", v[0].size());
	bool eq = false, pre = false;
	size_t maxlen = v[0].size();
	while (s.more(6)) {
		const std::string &base = v[s.u((uint32_t)v.size() - 1)];
		std::string b = derive(s, base);
		s.note("derived string of %zu bytes", b.size());
		check_pair(s, base, b);
		eq = eq || base == b;
		pre = pre || (base.size() != b.size() && !base.compare(0, std::min(base.size(), b.size()), b, 0, std::min(base.size(), b.size())));
		maxlen = std::max(maxlen, b.size());
		v.push_back(b);
	}
	for (size_t i = 0; i < v.size(); ++i)
		for (size_t j = 0; j < v.size() && j < 6; ++j)
			if (v[i].size() + v[j].size() < 3000)
				check_pair(s, v[i], v[j]);
	if (s.chance(1, 6)) {
		std::vector<std::string> u;
		uint32_t n = 2 + s.u(12);
		for (uint32_t i = 0; i < n; ++i)
			u.push_back(i < v.size() && v[i].size() < 2000 ? v[i] : draw_str(s));
		std::vector<char *> made;
		as_keys(s, u, shim_str_compare_fn, shim_str_equal_fn, shim_str_hash_fn, [&](const std::string &k) {
			char *p = (char *)malloc(k.size() + 1);
			memcpy(p, k.c_str(), k.size() + 1);
			made.push_back(p);
			return (void *)p;
		});
		for (char *p : made)
			free(p);
		s.label("as keys of a map");
	}
	if (eq)
		s.label("equal strings at different addresses");
	if (pre)
		s.label("proper prefix");
	if (maxlen > 255)
		s.label("longer than 255 bytes");
	for (const std::string &x : v)
		for (char c : x)
			if (c & 0x80) {
				s.label("bytes above 127");
				goto out;
			}
out:
	if (v.size() >= 3 && maxlen >= 2)
		s.nontrivial();
}

// ------------------------------------------------------------------ pointers

static uintptr_t draw_ptr(Src &s, const std::vector<uintptr_t> &have)
{
	uintptr_t p;
	switch (s.w({3, 3, 3, 1, 1})) {
	case 0: p = 1 + s.u(40); break;
	case 1: { // at a power of two
		p = (uintptr_t)1 << s.u(63);
		p += s.u(4);
		p -= s.u(4);
		break;
	}
	case 2: { // at a power-of-two distance from another one
		p = have.empty() ? s.u64() : have[s.u((uint32_t)have.size() - 1)];
		uintptr_t d = ((uintptr_t)1 << s.u(63)) + s.u(2) - 1;
		p = s.chance(1, 2) ? p - d : p + d;
		break;
	}
	case 3: p = UINTPTR_MAX - s.u(40); break;
	default: p = s.u64(); break;
	}
	return p ? p : 1;
}

static void c24(Src &s)
{
	cx_reset();
	std::vector<uintptr_t> v;
	v.push_back(draw_ptr(s, v));
	bool far31 = false, far63 = false;
	while (s.more(8)) {
		uintptr_t x = s.chance(1, 8) ? v[s.u((uint32_t)v.size() - 1)] : draw_ptr(s, v);
		s.note("pointer %#zx", (size_t)x);
		v.push_back(x);
	}
	auto P = [](uintptr_t x) { return (void *)x; };
	for (uintptr_t a : v) {
		uint32_t h = shim_direct_hash(P(a));
		CHECK(h == shim_direct_hash(P(a)), "direct_hash gives different results for one pointer");
		for (uintptr_t b : v) {
			int want = (a > b) - (a < b);
			int got = sign(shim_direct_compare(P(a), P(b)));
			CHECK(got == want, "direct_compare(%#zx, %#zx) has sign %d, expected %d", (size_t)a, (size_t)b, got, want);
			CHECK(shim_direct_equal(P(a), P(b)) == (a == b), "direct_equal(%#zx, %#zx) is %d", (size_t)a, (size_t)b, a != b);
			if (a == b)
				CHECK(h == shim_direct_hash(P(b)), "one pointer hashes differently");
			uintptr_t d = a > b ? a - b : b - a;
			far31 = far31 || (d > INT32_MAX && d <= UINT32_MAX);
			far63 = far63 || d > (uintptr_t)INT64_MAX;
		}
	}
	if (s.chance(1, 3)) {
		std::vector<uintptr_t> u = v;
		while (u.size() < 4)
			u.push_back(draw_ptr(s, u));
		as_keys(s, u, shim_direct_compare_fn, shim_direct_equal_fn, shim_direct_hash_fn, [&](uintptr_t k) { return (void *)k; });
		s.label("as keys of a map");
	}
	if (far31)
		s.label("distance between 2^31 and 2^32");
	if (far63)
		s.label("distance over 2^63");
	if (v.size() >= 3)
		s.nontrivial();
}

PROPERTY(C23, c23, "a set of strings derived from each other, compared in pairs at drawn placements; non-trivial: at least 3 strings, one longer than 1 byte", 500000, 12000000, 100000, 3500000);
PROPERTY(C24, c24, "a set of pointers at drawn distances, compared in pairs; non-trivial: at least 3 pointers", 800000, 12000000, 300000, 6000000);
