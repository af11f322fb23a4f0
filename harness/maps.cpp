// C09-C16: hash table, red-black tree, associative array.
#include "mapm.h"
#include <cmath>

static size_t draw_table(Src &s, const MapOps *ops)
{
	if (!ops->uses_hash)
		return 0;
	cx.hashmode = (int)s.w({4, 4, 2, 2, 1, 1, 1});
	static const size_t SZ[] = {0, 1, 2, 3, 7, 16, 100, 257, 1000};
	static const size_t LARGE[] = {65535, 65536, 65537, 70000, 131072, 1 << 20};
	size_t size = s.chance(1, 2) ? 0 : SZ[s.u(8)];
	if (s.chance(1, 1500))
		size = LARGE[s.u(5)];
	cx.hashmod = cx.hashmode == 6 ? (uint32_t)(size ? size : 257) : 1 + s.u(9);
	return size;
}

// A hash table with more than 2^31 buckets, few of which are used.
static void ht_giant(Src &s, int oracles)
{
	cx_reset();
	cx.kind = OBJ;
	cx.hashmode = (int)s.u(1);
	static const size_t SZ[] = {0xa0000000, 0x90000007, 0xb8000001, 0x80000001};
	size_t size = SZ[s.w({2, 2, 2, 1})];
	vt_allow((size_t)40 << 30);
	void *probe = memory_available() < (size_t)2 << 30 ? nullptr : calloc(size, 8);
	if (!probe)
		return;
	free(probe);
	MapMachine a;
	a.create(s, &shim_hashtable, oracles, (oracles & M_FREE) != 0, (oracles & M_FREE) != 0, nullptr, 2, size);
	uint32_t n = 4 + s.u(60), at = s.u(3000);
	s.note("%u entries with hash values all over 32 bits", n);
	// ranks from both ends of 32 bits, or a hash function that spreads them
	auto key = [&](uint32_t i) { return elem_new((int32_t)(cx.hashmode == 1 ? i * 77 + at : i & 1 ? (uint32_t)size - 1 - i * at : i * 40000000u + at)); };
	for (uint32_t i = 0; i < n; ++i)
		a.set(key(i), obj_new((int32_t)i), false);
	for (uint32_t i = 0; i < n; i += 5)
		a.set(key(i), obj_new((int32_t)i), (i & 2) != 0);
	for (uint32_t i = 0; i < n; i += 3)
		a.remove(key(i));
	for (uint32_t i = 0; i < n; ++i) {
		void *k = key(i);
		a.lookup(k, i & 1);
		a.exists(k);
	}
	a.check_light(s);
	a.audit();
	a.destroy(s);
	vt_check_all();
}
static bool giant_table(Src &s, int oracles)
{
	if (vt_poisons || !s.at_case(1))
		return false;
	s.label("2^31 buckets");
	s.nontrivial();
	in_child(60, [&] { ht_giant(s, oracles); });
	return true;
}

static void run_map(Src &s, const MapOps *ops, int oracles, uint32_t mean)
{
	cx_reset();
	cx_draw(s, true);
	if (oracles & M_FREE) {
		cx.watch_freed = true;
		cx.kind = s.chance(1, 4) ? STR : OBJ;
		cx_native(s);
	}
	size_t size = draw_table(s, ops);
	Shared sh;
	if (ops->has_pool)
		sh.box.draw(s, ops->node_size, {3, 1, 1});
	MapMachine a;
	bool fk = s.chance(1, 2) && cx.kind != INT, fv = s.chance(1, 2);
	if (oracles & M_FREE) {
		fk = !s.chance(1, 5);
		fv = !s.chance(1, 5);
	}
	a.create(s, ops, oracles, fk, fv, &sh, 2, size);
	static const uint32_t U[] = {12, 5, 40, 300, 100000};
	a.universe = U[s.w({3, 1, 3, 2, 1})];
	bool good_hash = !ops->uses_hash || cx.hashmode <= 1;
	uint32_t big = !good_hash ? (s.chance(1, 4) ? 400 : 120) : s.w({6, 2, 1}) == 2 ? (g_thorough && s.chance(1, 10) ? 5000 : 1400) : 100;
	if (big > 100)
		big = s.range(100, big);
	uint32_t bulks = 0;
	unsigned n = 0;
	while (s.more(mean)) {
		if (bulks < 4 && s.chance(1, 14)) {
			a.bulk(s, big);
			++bulks;
			a.audit();
		} else {
			a.step(s);
		}
		++n;
		if (a.m.size() <= 16 && s.chance(1, 3))
			a.audit();
	}
	if (s.chance(1, 15000)) {
		a.keep = true;
		a.universe = std::min(a.universe, 40u);
		while (a.m.size() > 40)
			a.remove(elem_new(elem_val(a.m[a.keys[0]].key)));
		prolong(s, [&](Src &t) { a.step(t); });
	}
	a.audit();
	if (a.peak > 16)
		s.label("more than 16 entries");
	if (a.peak > 257)
		s.label("more than 257 entries");
	if (a.peak > 1031)
		s.label("more than 1031 entries");
	if (a.n_overwritten)
		s.label("key overwritten");
	if (sh.box.type != PoolBox::NONE)
		s.label("with pool");
	if (cx.hashmode == 2)
		s.label("constant hash");
	if (oracles & M_FREE) {
		if (fk && fv)
			s.label("keys and values owned");
	}
	bool ok = a.n_new >= 3 && a.n_removed >= 1 && a.n_replaced >= 1;
	a.destroy(s);
	if (oracles & M_FREE ? ok && a.n_freed >= 3 && (fk || fv) : ok)
		s.nontrivial();
	sh.box.destroy();
	vt_check_all();
}

// A table with so many entries that it grows several times.
static void hash_scale(Src &s)
{
	cx_reset();
	cx.hashmode = (int)s.u(1);
	cx.kind = s.chance(1, 2) ? OBJ : INT;
	MapMachine a;
	bool owned = cx.kind == OBJ && s.chance(1, 2);
	a.create(s, &shim_hashtable, M_MAP, owned, owned, nullptr, 2, 0);
	static const uint32_t N[] = {1100, 4300, 17000, 67000, 270000, 1060000};
	uint32_t n = N[s.w({16, 16, 8, 4, g_thorough ? 4u : 1u, g_thorough ? 4u : 0u})];
	s.note("%u entries", n);
	uint32_t stride = s.chance(1, 2) ? 1 : 1 + 2 * s.u(500);
	for (uint32_t i = 0; i < n; ++i)
		a.set(elem_new((int32_t)(i * stride & 0x7fffffff)), s.noting() ? nullptr : obj_new((int32_t)i), false);
	a.check_light(s);
	a.audit();
	uint32_t k = s.range(1, 6);
	for (uint32_t i = 0; i < n; i += k)
		a.remove(elem_new((int32_t)(i * stride & 0x7fffffff)));
	a.audit();
	for (uint32_t i = 0; i < n; i += 2)
		a.set(elem_new((int32_t)(i * stride & 0x7fffffff)), obj_new((int32_t)i), s.noting() ? false : (i & 4) != 0);
	a.audit();
	s.label("grown several times");
	s.nontrivial();
	a.destroy(s);
}

static void c09(Src &s)
{
	if (giant_table(s, M_MAP))
		return;
	if (s.chance(1, 400))
		hash_scale(s);
	else
		run_map(s, &shim_hashtable, M_MAP, 40);
}
// Beyond 16 bits: more than 65536 entries, inserted in order (a deep tree), then partly removed.
static void map_scale(Src &s, const MapOps *ops, int oracles)
{
	cx_reset();
	cx.kind = s.chance(1, 2) ? OBJ : INT;
	cx.order = (int)s.u(1);
	Shared sh;
	if (ops->has_pool)
		sh.box.draw(s, ops->node_size, {2, 1, 0});
	MapMachine a;
	bool owned = cx.kind == OBJ && s.chance(1, 2);
	a.create(s, ops, oracles, owned, owned, &sh, 2, 0);
	bool tree = ops == &shim_rbtree;
	uint32_t n = tree && s.chance(1, 2) ? 200000 + s.u(g_thorough ? 800000 : 100000) : s.chance(1, 3) ? 65534 + s.u(5) : 65500 + s.u(4000);
	// an array is filled and emptied at its end (elsewhere every step would move all of it)
	bool up = tree ? s.chance(1, 2) : cx.order == 0;
	s.note("%u entries, %s", n, up ? "ascending" : "descending");
	auto key = [&](uint32_t i) { return elem_new((int32_t)(up ? i : n - i)); };
	for (uint32_t i = 0; i < n; ++i)
		a.set(key(i), obj_new((int32_t)i), false);
	a.check_light(s);
	a.audit();
	uint32_t k = tree ? s.u(n) : s.u(3000);
	s.note("remove %u", k);
	for (uint32_t i = 0; i < k; ++i)
		a.remove(key(tree && (i & 1) ? i : n - 1 - i));
	while (s.more(6))
		a.step(s);
	a.check_light(s);
	a.audit();
	s.label("more than 65500 entries");
	s.nontrivial();
	a.destroy(s);
	sh.box.destroy();
}

static void c10(Src &s)
{
	if (deep_tree(s, 0))
		return;
	if (s.chance(1, 15000))
		map_scale(s, &shim_rbtree, M_MAP);
	else
		run_map(s, &shim_rbtree, M_MAP, 50);
}
static void c11(Src &s)
{
	if (s.chance(1, 15000))
		map_scale(s, &shim_assoc, M_MAP);
	else
		run_map(s, &shim_assoc, M_MAP, 40);
}
static void c12(Src &s)
{
	if (giant_table(s, M_FREE) || deep_tree(s, 1))
		return;
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	size_t k = s.u(2);
	s.label(K[k]->name);
	if (k && s.chance(1, 20000))
		map_scale(s, K[k], M_FREE);
	else
		run_map(s, K[k], M_FREE, 40);
}

// ------------------------------------------------------------------ C13

struct It {
	std::vector<char> mem;
	MapMachine *on = nullptr;
	bool live = false, done = false;
	int64_t last = 0;
	std::unordered_map<int64_t, int> seen;
	size_t n = 0;
};

// One big map, iterated completely by interleaved iterators.
static void iter_scale(Src &s)
{
	cx_reset();
	cx.kind = INT;
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	const MapOps *ops = K[s.u(2)];
	MapMachine a;
	cx.hashmode = (int)s.u(1);
	a.create(s, ops, 0, false, false, nullptr, 2, 0);
	uint32_t n = ops == &shim_rbtree ? s.range(65500, 300000) : s.range(65500, 70000);
	if (s.chance(1, 2))
		n = s.range(65530, 65550);
	int how = ops == &shim_assoc ? 0 : (int)s.u(2);
	s.note("%u entries, %s", n, how == 0 ? "ascending" : how == 1 ? "descending" : "random");
	uint64_t salt = s.u(65535);
	for (uint32_t i = 0; i < n; ++i)
		a.set(elem_new((int32_t)(how == 0 ? i : how == 1 ? n - i : mix64(salt + i) & 0x3fffffff)), (void *)(uintptr_t)(i + 1), false);
	struct { std::vector<char> mem; std::vector<bool> seen; size_t n = 0; } it[2];
	std::vector<std::pair<int64_t, size_t>> index;
	for (size_t i = 0; i < a.keys.size(); ++i)
		index.push_back({a.keys[i], i});
	std::sort(index.begin(), index.end());
	for (auto &x : it) {
		x.mem.resize(ops->iter_size + 16);
		fill_garbage(x.mem.data(), x.mem.size(), s);
		x.seen.assign(index.size(), false);
		ops->iter_init(a.map, x.mem.data());
	}
	auto step = [&](size_t k) {
		auto &x = it[k];
		if (!ops->iter_next(x.mem.data())) {
			CHECK(x.n == index.size(), "iteration yielded %zu of %zu entries", x.n, index.size());
			return false;
		}
		void *key = ops->iter_key(x.mem.data());
		int64_t r = rank_of(key);
		auto p = std::lower_bound(index.begin(), index.end(), std::make_pair(r, (size_t)0));
		CHECK(key && p != index.end() && p->first == r, "iteration yields a key that is not stored: %s", elem_str(key).c_str());
		size_t at = (size_t)(p - index.begin());
		CHECK(!x.seen[at], "iteration yields %s twice", elem_str(key).c_str());
		CHECK(ops->iter_value(x.mem.data()) == a.m[r].value, "iteration yields a wrong value for %s", elem_str(key).c_str());
		x.seen[at] = true;
		++x.n;
		return true;
	};
	uint32_t stop = s.u(n);
	for (uint32_t i = 0; i < stop; ++i)
		if (!step(1))
			break;
	while (step(0))
		;
	while (step(1))
		;
	CHECK(!ops->iter_next(it[0].mem.data()) && !ops->iter_next(it[1].mem.data()), "an iterator yields an entry after it reported the end");
	for (auto &x : it)
		ops->iter_free(x.mem.data());
	s.label("more than 65500 entries");
	s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

// One map, iterated completely at every size up to a limit and down again.
static void iter_sizes(Src &s)
{
	cx_reset();
	cx_draw(s, true);
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	const MapOps *ops = K[s.u(2)];
	cx.hashmode = (int)s.u(1);
	MapMachine a;
	a.create(s, ops, 0, false, false, nullptr, 2, s.chance(1, 2) ? 0 : 1 + s.u(2000));
	uint32_t n = s.range(20, s.chance(1, 10) ? 2200 : 1100);
	uint32_t add = s.chance(1, 2) ? 100 : 40 + s.u(60); // in percent
	bool again = s.chance(1, 2);
	s.note("%s: up to %u entries and down, a complete iteration at each size", ops->name, n);
	std::string *trace = s.trace;
	s.trace = nullptr;
	std::vector<char> mem(ops->iter_size + 16);
	fill_garbage(mem.data(), mem.size(), s);
	std::unordered_map<int64_t, uint32_t> seen;
	seen.reserve(2 * n);
	uint32_t round = 0;
	auto iterate = [&] {
		++round;
		if (again && round > 1) {
			ops->iter_reuse(a.map, mem.data());
		} else {
			if (round > 1)
				ops->iter_free(mem.data());
			ops->iter_init(a.map, mem.data());
		}
		size_t k = 0, mid = a.m.empty() ? 0 : a.m.size() * (round % 7) / 7;
		while (ops->iter_next(mem.data())) {
			void *key = ops->iter_key(mem.data());
			if (k == mid) { // searches in between
				void *other = a.m[a.keys[round % a.keys.size()]].key;
				CHECK(ops->exists(a.map, other), "of %zu entries: %s is not found", a.m.size(), elem_str(other).c_str());
				void *pair = ops->lookup(a.map, other);
				CHECK(pair && ops->pair_key(pair) == other, "of %zu entries: the lookup of %s finds something else", a.m.size(), elem_str(other).c_str());
			}
			CHECK(key, "of %zu entries: iteration yields no key", a.m.size());
			int64_t r = rank_of(key);
			auto e = a.m.find(r);
			CHECK(e != a.m.end(), "of %zu entries: iteration yields a key that is not stored: %s", a.m.size(), elem_str(key).c_str());
			CHECK(ops->iter_value(mem.data()) == e->second.value, "of %zu entries: iteration yields a wrong value for %s", a.m.size(), elem_str(key).c_str());
			uint32_t &at = seen[r];
			CHECK(at != round, "of %zu entries: iteration yields %s twice", a.m.size(), elem_str(key).c_str());
			at = round;
			++k;
		}
		CHECK(k == a.m.size(), "iteration yields %zu of %zu entries", k, a.m.size());
	};
	int how = (int)s.u(2);
	iterate();
	for (uint32_t i = 0; i < 3 * n && a.m.size() < n; ++i) {
		if (add == 100 || a.keys.empty() || s.u(99) < add) {
			int32_t v = how == 0 ? (int32_t)i : how == 1 ? (int32_t)(n * 3 - i) : (int32_t)s.u(1 << 20);
			a.set(elem_new(v), a.new_value(s), false);
		} else {
			a.remove(a.m[a.keys[s.u((uint32_t)a.keys.size() - 1)]].key);
		}
		iterate();
	}
	while (a.m.size() > n / 2 && !a.keys.empty()) {
		a.remove(a.m[a.keys[s.u((uint32_t)a.keys.size() - 1)]].key);
		iterate();
	}
	ops->iter_free(mem.data());
	s.trace = trace;
	s.label("iterated at every size");
	s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

// Very many iterators on one map at the same time.
static void iter_crowd(Src &s)
{
	cx_reset();
	cx_draw(s, true);
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	const MapOps *ops = K[s.u(2)];
	cx.hashmode = (int)s.u(1);
	MapMachine a;
	a.create(s, ops, 0, false, false, nullptr, 2, s.chance(1, 2) ? 0 : 1 + s.u(20));
	uint32_t n = s.chance(1, 20) ? 65500 + s.u(300) : s.chance(1, 2) ? 2 + s.u(70) : 2 + s.u(1100), e = n > 60000 ? s.u(4) : 1 + s.u(59);
	for (uint32_t i = 0; i < e; ++i)
		a.set(elem_new((int32_t)i), obj_new((int32_t)i), false);
	s.note("%s of %u entries, %u iterators", ops->name, e, n);
	size_t sz = (ops->iter_size + 15) & ~(size_t)15;
	std::vector<char> mem(n * sz);
	fill_garbage(mem.data(), mem.size(), s);
	std::vector<uint64_t> seen(n, 0);
	auto it = [&](uint32_t i) { return mem.data() + i * sz; };
	for (uint32_t i = 0; i < n; ++i)
		ops->iter_init(a.map, it(i));
	auto advance = [&](uint32_t i) {
		bool more = ops->iter_next(it(i));
		uint32_t have = (uint32_t)__builtin_popcountll(seen[i]);
		CHECK(more == (have < a.m.size()), "iterator %u of %u %s after %u of %zu entries", i, n, more ? "goes on" : "ends", have, a.m.size());
		if (!more)
			return false;
		void *key = ops->iter_key(it(i));
		CHECK(key, "iteration yields a NULL key");
		auto x = a.m.find(rank_of(key));
		CHECK(x != a.m.end() && x->second.key == key, "iterator %u of %u yields the key %s, which is not stored", i, n, elem_str(key).c_str());
		CHECK(ops->iter_value(it(i)) == x->second.value, "iterator %u of %u yields a wrong value for %s", i, n, elem_str(key).c_str());
		uint64_t bit = (uint64_t)1 << a.key_at[x->first];
		CHECK(!(seen[i] & bit), "iterator %u of %u yields %s twice", i, n, elem_str(key).c_str());
		seen[i] |= bit;
		return true;
	};
	size_t how = s.u(3);
	uint64_t r = s.u(65535);
	if (how == 1) // some are far ahead, some are given up
		for (uint32_t k = 0; k < 2 * n; ++k) {
			r = mix64(r);
			uint32_t i = (uint32_t)(r >> 8) % n;
			for (uint32_t q = (uint32_t)(r & 7); q && advance(i); --q)
				;
			if (!(r >> 60)) {
				if (r >> 59 & 1) {
					ops->iter_free(it(i));
					ops->iter_init(a.map, it(i));
				} else {
					ops->iter_reuse(a.map, it(i));
				}
				seen[i] = 0;
			}
		}
	if (how <= 1) { // in turn
		for (uint32_t q = 0; q <= e; ++q)
			for (uint32_t i = 0; i < n; ++i)
				advance(i);
	} else { // one after the other
		for (uint32_t i = 0; i < n; ++i)
			while (advance(how == 2 ? i : n - 1 - i))
				;
	}
	for (uint32_t i = 0; i < n; ++i)
		ops->iter_free(it(how == 3 ? n - 1 - i : i));
	a.oracles = M_MAP;
	a.audit();
	a.destroy(s);
	s.label("hundreds of iterators");
	s.nontrivial();
	vt_check_all();
}

static void c13(Src &s)
{
	if (giant_table(s, M_MAP) || deep_tree(s, 0))
		return;
	if (s.chance(1, 1500)) {
		iter_crowd(s);
		return;
	}
	if (s.chance(1, 4000)) {
		iter_sizes(s);
		return;
	}
	if (s.chance(1, 12000)) {
		iter_scale(s);
		return;
	}
	cx_reset();
	cx_draw(s, true);
	static const MapOps *const K[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
	const MapOps *ops = K[s.u(2)];
	s.label(ops->name);
	size_t size = draw_table(s, ops);
	bool good_hash = !ops->uses_hash || cx.hashmode <= 1;
	MapMachine a[3];
	size_t k = 1 + s.u(2);
	for (size_t i = 0; i < k; ++i) {
		a[i].create(s, ops, 0, false, false, nullptr, 2, size);
		a[i].universe = 30;
	}
	It its[4];
	for (auto &it : its) {
		it.mem.resize(ops->iter_size + 16);
		fill_garbage(it.mem.data(), it.mem.size(), s);
	}
	unsigned completed = 0, visited = 0, reused = 0;
	while (s.more(60)) {
		size_t mi = s.u((uint32_t)k - 1), ii = s.u(3);
		MapMachine &m = a[mi];
		It &it = its[ii];
		// iterators on a map that is about to change are given up first
		auto drop_iters = [&](MapMachine *on) {
			for (auto &x : its)
				if (x.live && x.on == on) {
					// a tree iterator may still be reused or freed; it must only not advance
					x.on = nullptr;
				}
		};
		switch (s.w({3, 2, 4, 16, 2, 2, 2, 1})) {
		case 0: // change the map
			drop_iters(&m);
			if (good_hash && ops->uses_hash && m.m.size() < 255 && s.chance(1, 12)) {
				// about to grow, or just grown
				size_t goal = s.chance(1, 2) ? 258 : 255 + s.u(5);
				for (int32_t v = (int32_t)s.u(1000); m.m.size() < goal; ++v)
					m.set(elem_new(v), m.new_value(s), false);
				s.note("[%zu] filled up to %zu entries", mi, goal);
			} else if (s.chance(1, 2))
				m.bulk(s, s.chance(1, 8) && good_hash ? 700 : 40);
			else
				m.step(s);
			break;
		case 1: { // empty it
			if (!s.chance(1, 3))
				break;
			drop_iters(&m);
			s.note("[%zu] clear", mi);
			m.clear();
			break;
		}
		case 2: // start or reuse an iterator
			if (it.live && (it.on == nullptr || s.chance(1, 2))) {
				s.note("iterator %zu: reuse on map %zu (%zu entries)", ii, mi, m.m.size());
				ops->iter_reuse(m.map, it.mem.data());
				++reused;
			} else {
				if (it.live)
					ops->iter_free(it.mem.data());
				if (s.chance(1, 2))
					fill_garbage(it.mem.data(), it.mem.size(), s);
				s.note("iterator %zu: init on map %zu (%zu entries)", ii, mi, m.m.size());
				ops->iter_init(m.map, it.mem.data());
			}
			it.live = true;
			it.on = &m;
			it.done = false;
			it.n = 0;
			it.seen.clear();
			break;
		case 3: { // advance
			if (!it.live || !it.on)
				break;
			MapMachine &o = *it.on;
			uint32_t steps = s.chance(1, 4) ? UINT32_MAX : 1 + s.u(4);
			s.note("iterator %zu: advance %s", ii, steps == UINT32_MAX ? "to the end" : "a little");
			for (uint32_t q = 0; q < steps; ++q) {
				bool more = ops->iter_next(it.mem.data());
				if (it.done) {
					CHECK(!more, "the iterator yields an entry after it reported the end");
					break;
				}
				if (!more) {
					CHECK(it.n == o.m.size(), "iteration yielded %zu of %zu entries", it.n, o.m.size());
					it.done = true;
					++completed;
					if (steps == UINT32_MAX)
						break;
					continue;
				}
				bool mac = s.noting() ? false : (q & 1);
				void *key = mac ? ops->iter_key_m(it.mem.data()) : ops->iter_key(it.mem.data());
				void *val = mac ? ops->iter_value_m(it.mem.data()) : ops->iter_value(it.mem.data());
				CHECK(key, "iteration yields a NULL key");
				int64_t r = rank_of(key);
				auto e = o.m.find(r);
				CHECK(e != o.m.end() && e->second.key == key, "iteration yields the key %s, which is not stored", elem_str(key).c_str());
				CHECK(e->second.value == val, "iteration yields a wrong value for %s", elem_str(key).c_str());
				CHECK(ops->iter_key(it.mem.data()) == key && ops->iter_key_m(it.mem.data()) == key && ops->iter_value(it.mem.data()) == val
				      && ops->iter_value_m(it.mem.data()) == val, "the iterator's accessors disagree");
				CHECK(it.seen[r]++ == 0, "iteration yields %s twice", elem_str(key).c_str());
				++it.n;
				++visited;
			}
			break;
		}
		case 4: // a search in between
			m.oracles = M_MAP;
			m.lookup(m.any_key(s), false);
			m.exists(m.any_key(s));
			m.oracles = 0;
			break;
		case 5: // give up an iterator
			if (it.live) {
				s.note("iterator %zu: free", ii);
				ops->iter_free(it.mem.data());
				it.live = false;
			}
			break;
		case 6: // a value update leaves iterators alone
			if (!m.keys.empty()) {
				void *key = m.any_key(s);
				s.note("update %s in map %zu", elem_str(key).c_str(), mi);
				m.update(key, m.new_value(s), false);
			}
			break;
		default: // nothing was changed by all that
			m.oracles = M_MAP;
			m.audit();
			m.check_light(s);
			m.oracles = 0;
		}
	}
	if (s.chance(1, 15000)) { // one iterator used again and again
		It &it = its[0];
		if (!it.live)
			ops->iter_init(a[0].map, it.mem.data());
		it.live = true;
		while (a[0].m.size() > 40)
			a[0].remove(elem_new(elem_val(a[0].m[a[0].keys[0]].key)));
		uint32_t n = s.u(150000);
		s.note("iterator 0: reused on map 0 (%zu entries) %u times", a[0].m.size(), n);
		for (uint32_t r = 0; r < n; ++r) {
			ops->iter_reuse(a[0].map, it.mem.data());
			size_t seen = 0, full = r & 1 ? a[0].m.size() + 1 : r % 5;
			while (seen < full && ops->iter_next(it.mem.data()))
				++seen;
			CHECK(seen == std::min(full, a[0].m.size()), "iteration yielded %zu of %zu entries", seen, a[0].m.size());
		}
		s.label("iterator reused 100000 times");
	}
	for (auto &it : its)
		if (it.live)
			ops->iter_free(it.mem.data());
	for (size_t i = 0; i < k; ++i) {
		a[i].oracles = M_MAP;
		a[i].audit();
		a[i].check_light(s);
		a[i].destroy(s);
	}
	if (reused)
		s.label("iterator reused");
	if (completed >= 2)
		s.label("two or more complete iterations");
	if (completed >= 1 && visited >= 3)
		s.nontrivial();
	vt_check_all();
}

// ------------------------------------------------------------------ C14, C15

static void run_cost(Src &s, const MapOps *ops, int oracles)
{
	cx_reset();
	cx_draw(s, true);
	cx.native = false; // calls are counted
	cx.coarse = 1;
	Shared sh;
	if (ops->has_pool)
		sh.box.draw(s, ops->node_size, {4, 1, 0});
	MapMachine a;
	a.create(s, ops, oracles, false, false, &sh, 2, 0);
	a.universe = 1000;
	uint32_t big;
	switch (s.w({20, 10, 4, 1})) {
	case 0: big = 40; break;
	case 1: big = 200; break;
	case 2: big = 1500; break;
	default: big = g_thorough ? 30000 : 6000;
	}
	unsigned bulks = 0;
	bool removed = false;
	while (s.more(12)) {
		size_t op = s.w({6, 3, 2});
		if (op == 0) {
			bool can = !a.keys.empty();
			unsigned r = a.n_removed;
			a.bulk(s, big);
			++bulks;
			removed = removed || (can && a.n_removed > r);
			a.audit();
		} else if (op == 1) {
			for (int i = 0; i < 10; ++i)
				a.step(s);
		} else { // churn: a window moving over the keys
			uint32_t n = s.range(1, big), from = s.u(100000);
			bool down = s.chance(1, 2);
			s.note("churn: window of %zu moves by %u %s", a.m.size(), n, down ? "down" : "up");
			std::vector<int64_t> v = a.keys;
			std::sort(v.begin(), v.end());
			size_t lo = 0;
			for (uint32_t i = 0; i < n; ++i) {
				a.set(elem_new((int32_t)(down ? 300000 - from - i : 300000 + from + i)), nullptr, false);
				if (lo < v.size() && a.m.count(v[lo]))
					a.remove(elem_new(elem_val(a.m[v[lo]].key)));
				++lo;
			}
			removed = true;
			a.audit();
		}
		a.check_light(s);
	}
	// every key at the end
	a.audit();
	for (int i = 0; i < 20; ++i)
		a.exists(elem_new((int32_t)(i * 53)));
	if (a.peak >= 16 && (removed || !ops->has_pool))
		s.nontrivial();
	if (a.peak >= 1000)
		s.label("1000 or more entries");
	if (removed)
		s.label("with removals");
	a.destroy(s);
	sh.box.destroy();
}

static void c14(Src &s)
{
	if (deep_tree(s, 3))
		return;
	if (s.chance(1, 2000))
		map_scale(s, &shim_rbtree, M_COST);
	else
		run_cost(s, &shim_rbtree, M_COST);
}
static void c15(Src &s)
{
	if (s.chance(1, 1500))
		map_scale(s, &shim_assoc, M_COST | M_SORTED);
	else
		run_cost(s, &shim_assoc, M_COST | M_SORTED);
}

// ------------------------------------------------------------------ C16

static void c16_key(int family, uint64_t salt, uint64_t i, char *buf, size_t cap, void **key)
{
	static const char *const W[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu"};
	switch (family) {
	case 0: *key = (void *)(uintptr_t)(1 + salt + i); return;                                          // consecutive integers
	case 1: *key = (void *)(uintptr_t)(1 + salt + i * 8); return;                                      // strided by 8
	case 2: *key = (void *)(uintptr_t)(1 + (mix64(salt * 0x100000000ull + i) & 0x7fffffff)); return;   // random
	case 3: snprintf(buf, cap, "key%llu", (unsigned long long)(salt + i)); break;
	case 4: snprintf(buf, cap, "%016llx", (unsigned long long)mix64(salt * 0x100000000ull + i)); break;
	case 5: snprintf(buf, cap, "%s-%s-%llu", W[i % 12], W[i / 12 % 12], (unsigned long long)(i / 144)); break;
	case 6: snprintf(buf, cap, "/usr/share/some/rather/long/common/prefix/%llu.txt", (unsigned long long)(salt + i)); break;
	default: snprintf(buf, cap, "%llu/with/a/rather/long/common/suffix/that/never/changes", (unsigned long long)(salt + i)); break;
	}
	*key = buf;
}

static uint64_t g_eq_calls;
static bool count_direct(const void *a, const void *b)
{
	++g_eq_calls;
	return shim_direct_equal_fn(a, b);
}
static bool count_str(const void *a, const void *b)
{
	++g_eq_calls;
	return shim_str_equal_fn(a, b);
}
static uint32_t good_hash(const void *a) { return (uint32_t)mix64((uintptr_t)a); }

static void c16(Src &s)
{
	cx_reset();
	int family = (int)s.u(7);
	bool str = family >= 3;
	bool own_hash = !str && s.chance(1, 3); // a good hash of the user's
	uint64_t salt = s.u(20000);
	if (family < 2) { // integers from the whole range
		static const uint64_t BASE[] = {0, 0x7ffff000u, 0xf0000000u};
		salt += BASE[s.w({3, 1, 1})];
	}
	MapCfg c;
	memset(&c, 0, sizeof c);
	c.eq = str ? count_str : count_direct;
	c.hash = str ? shim_str_hash_fn : own_hash ? good_hash : shim_direct_hash_fn;
	const MapOps &h = shim_hashtable;
	static const uint32_t FIXED[] = {101, 257, 499, 1009, 4001, 9973};
	c.size = s.chance(1, 5) ? FIXED[s.u(5)] : 0; // 0: automatic
	void *t = h.make(&c);
	std::vector<std::string> store;
	const size_t LEN = 96;
	static const uint32_t MAX[] = {1500, 5200, 17500, 67000};
	bool huge = s.chance(1, g_thorough ? 60 : 300);
	if (c.size)
		huge = false;
	uint32_t cap = huge ? (str ? 270000 : 1100000) : MAX[s.w({8, 6, 4, 1})];
	if (c.size)
		cap = std::min(cap, 30 * (uint32_t)c.size);
	char *keys = str ? (char *)malloc((size_t)cap * LEN) : nullptr;
	std::vector<char> in(cap, 0); // is key i stored?
	auto key = [&](uint32_t i) -> void * {
		void *k;
		c16_key(family, salt, i, keys ? keys + (size_t)i * LEN : nullptr, LEN, &k);
		return k;
	};
	size_t count = 0, next = 0, biggest = 0;
	unsigned measured = 0;
	auto measure = [&]() {
		if (count < 200)
			return;
		++measured;
		if (count > biggest)
			biggest = count;
		double bound = c.size ? 3.0 + 2.0 * (double)count / c.size : 3.0;
		size_t stepw = next / 4000 + 1, hits = 0, misses = 0;
		g_eq_calls = 0;
		for (size_t i = 0; i < next; i += stepw)
			if (in[i]) {
				CHECK(h.lookup(t, key((uint32_t)i)), "a stored key was not found");
				++hits;
			}
		double avg = hits ? (double)g_eq_calls / hits : 0;
		CHECK(hits < 100 || avg <= bound, "looking up stored keys among %zu compares with %.2f keys on average", count, avg);
		g_eq_calls = 0;
		char buf[LEN];
		for (size_t i = 0; i < 2000; ++i) {
			void *k;
			// not stored: numbers beyond those used (random ones may collide, which does not matter)
			c16_key(family, salt, 3000000 + i * 7, buf, LEN, &k);
			h.exists(t, k);
			++misses;
		}
		double mavg = (double)g_eq_calls / misses;
		CHECK(mavg <= bound, "looking up absent keys among %zu compares with %.2f keys on average", count, mavg);
		s.note("%zu entries: hit %.2f, miss %.2f comparisons", count, avg, mavg);
	};
	s.note("key family %d, hash %s, size %u", family, own_hash ? "user's" : "library's", (unsigned)c.size);
	while (s.more(8)) {
		switch (s.w({8, 2, 1, 1})) {
		case 0: { // grow
			// often to just below or above a size at which the table grows
			static const uint32_t T[] = {257, 1031, 4127, 16519, 66083, 264343, 1057387};
			uint32_t want;
			if (s.chance(1, 2))
				want = T[s.u(6)] + s.u(4) - 1;
			else
				want = (uint32_t)count + s.u(cap);
			if (s.chance(1, 4) || (huge && !next))
				want = cap;
			s.note("grow to %u", want);
			while (count < want && next < cap) {
				void *k = key((uint32_t)next);
				int r = h.set(t, k, nullptr, false);
				if (r == SHIM_NEW) {
					in[next] = 1;
					++count;
				} else {
					in[next] = 0; // two random keys can be the same
				}
				++next;
			}
			break;
		}
		case 1: { // remove some
			uint32_t k = s.range(1, 9);
			s.note("remove every %u-th", k);
			for (size_t i = 0; i < next; i += k)
				if (in[i]) {
					h.remove(t, key((uint32_t)i));
					in[i] = 0;
					--count;
				}
			break;
		}
		case 2: { // insert removed ones again
			s.note("insert the removed ones again");
			for (size_t i = 0; i < next; ++i)
				if (!in[i] && h.set(t, key((uint32_t)i), nullptr, false) == SHIM_NEW) {
					in[i] = 1;
					++count;
				}
			break;
		}
		default:
			s.note("clear");
			h.clear(t);
			std::fill(in.begin(), in.end(), 0);
			count = 0;
			next = 0;
		}
		measure();
	}
	h.destroy(t);
	free(keys);
	if (measured >= 1)
		s.nontrivial();
	if (biggest > 1031)
		s.label("measured with more than 1031 entries");
	if (biggest > 16519)
		s.label("measured with more than 16519 entries");
	if (biggest > 200000)
		s.label("measured with more than 200000 entries");
	s.label(str ? "strings" : "integers");
}

PROPERTY(C09, c09, "an operation history on one hash table; non-trivial: at least 3 new entries, 1 replacement and 1 removal", 95000, 2500000, 30000, 1000000);
PROPERTY(C10, c10, "an operation history on one red-black tree; non-trivial: at least 3 new entries, 1 replacement and 1 removal", 100000, 4000000, 35000, 1000000);
PROPERTY(C11, c11, "an operation history on one associative array; non-trivial: at least 3 new entries, 1 replacement and 1 removal", 150000, 5000000, 55000, 1500000);
PROPERTY(C12, c12, "a history on one map ending in its destruction; non-trivial: at least 3 new entries, 1 replacement, 1 removal, 3 frees", 150000, 5500000, 50000, 1500000);
PROPERTY(C13, c13, "a history of up to three maps and four iterators; non-trivial: a complete iteration and 3 visited entries", 200000, 6000000, 60000, 2000000);
PROPERTY(C14, c14, "bulk insertions, removals and churn on a tree with every comparison counted; non-trivial: 16 or more entries and removals", 9500, 250000, 4000, 100000);
PROPERTY(C15, c15, "bulk insertions, removals and churn on an associative array with every comparison counted; non-trivial: 16 or more entries", 7500, 200000, 2000, 75000);
PROPERTY(C16, c16, "growth, removals and clears of an automatically sized table with comparisons counted; non-trivial: measured at 200 or more entries", 5000, 150000, 1500, 55000);
