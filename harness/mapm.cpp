#include "mapm.h"
#include <cmath>

void MapMachine::create(Src &s, const MapOps *o, int mask, bool fk, bool fv, Shared *sh, int storage, size_t size)
{
	ops = o;
	oracles = mask;
	has_fk = fk;
	has_fv = fv;
	shared = sh;
	memset(&cfg, 0, sizeof cfg);
	cfg.size = size;
	cfg.cmp = cx_cmp();
	cfg.eq = cx_eq();
	cfg.hash = cx_hash();
	cfg.free_key = fk ? elem_free : nullptr;
	cfg.free_value = fv ? elem_free2 : nullptr;
	cfg.pool = sh ? sh->box.pool : nullptr;
	own_storage = storage == 2 ? s.chance(1, 3) : storage;
	if (own_storage) {
		st.create(ops->size, s);
		map = st.mem;
		ops->init(map, &cfg);
	} else {
		map = ops->make(&cfg);
	}
	s.note("%s = %s(%s%s%s, size %zu)", ops->name, own_storage ? "init" : "new", fk ? "free keys" : "-", fv ? ", free values" : "", cfg.pool ? ", pool" : "", size);
}

void MapMachine::begin_op()
{
	cx.freed.clear();
	cx.freed2.clear();
	ek.clear();
	ev.clear();
	budget(300 + 20 * m.size());
}

// n: number of entries the operation had to search
void MapMachine::end_op(const char *name, size_t n)
{
	cx.budget = UINT64_MAX;
	n_freed += ek.size() + ev.size();
	if (oracles & M_FREE) {
		if (!has_fk)
			ek.clear();
		if (!has_fv)
			ev.clear();
		compare_freed(name, cx.freed, ek);
		compare_freed(name, cx.freed2, ev);
	}
	if ((oracles & M_COST) && n) {
		uint32_t lg = 63 - __builtin_clzll((uint64_t)n + (ops == &shim_rbtree));
		uint64_t bound;
		if (ops == &shim_rbtree) {
			// 2 * log2(n + 1), rounded down, and two more
			unsigned __int128 sq = (unsigned __int128)(n + 1) * (n + 1);
			bound = 2 * lg + ((sq >> (2 * lg + 1)) ? 1 : 0) + 2;
		} else {
			bound = lg + 2;
		}
		CHECK(cx.calls <= bound, "%s among %zu entries made %llu key comparisons (at most %llu expected)", name, n, (unsigned long long)cx.calls, (unsigned long long)bound);
	}
	if (shared && shared->box.track())
		CHECK(shared->box.track()->live == shared->expected_live, "%s: %zu nodes of the pool are in use for %zu stored entries", name,
		      shared->box.track()->live, shared->expected_live);
	if (own_storage)
		st.check(ops->name);
}

void MapMachine::model_add(int64_t r, void *k, void *v)
{
	m[r] = Entry{k, v};
	key_at[r] = keys.size();
	keys.push_back(r);
	if (shared)
		++shared->expected_live;
	if (m.size() > peak)
		peak = m.size();
}

void MapMachine::model_del(int64_t r)
{
	size_t i = key_at[r];
	keys[i] = keys.back();
	key_at[keys[i]] = i;
	keys.pop_back();
	key_at.erase(r);
	m.erase(r);
	if (shared)
		--shared->expected_live;
}

void MapMachine::set(void *key, void *value, bool overwrite)
{
	int64_t r = rank_of(key);
	size_t n = m.size();
	begin_op();
	auto it = m.find(r);
	int want = it == m.end() ? SHIM_NEW : SHIM_REPLACED;
	if (it != m.end()) {
		if (overwrite) {
			ek.push_back(it->second.key);
			it->second.key = key;
			++n_overwritten;
		}
		if (it->second.value)
			ev.push_back(it->second.value);
		it->second.value = value;
		++n_replaced;
	} else {
		model_add(r, key, value);
		++n_new;
	}
	int got = ops->set(map, key, value, overwrite);
	if (oracles & M_MAP)
		CHECK(got == want, "set of %s reported %s", elem_str(key).c_str(), got == SHIM_NEW ? "a new entry although the key was there" : got == SHIM_REPLACED ? "a replacement although the key was not there" : "a failure");
	end_op("set", n);
}

bool MapMachine::remove(void *probe)
{
	int64_t r = rank_of(probe);
	size_t n = m.size();
	begin_op();
	auto it = m.find(r);
	bool have = it != m.end();
	if (have) {
		ek.push_back(it->second.key);
		if (it->second.value)
			ev.push_back(it->second.value);
		model_del(r);
		++n_removed;
	} else {
		++n_missed;
	}
	int got = ops->remove(map, probe);
	if ((oracles & M_MAP) && got >= 0)
		CHECK(got == (int)have, "remove reported %s for a key that was %s", got ? "success" : "failure", have ? "stored" : "not stored");
	end_op("remove", n);
	return have;
}

void MapMachine::lookup(const void *probe, bool macros)
{
	begin_op();
	auto it = m.find(rank_of(probe));
	void *pair = ops->lookup(map, probe);
	if (oracles & M_MAP) {
		if (it == m.end()) {
			CHECK(!pair, "lookup found the key %s, which is not stored", elem_str(probe).c_str());
		} else {
			CHECK(pair, "lookup did not find the stored key %s (%zu entries)", elem_str(probe).c_str(), m.size());
			void *k = macros ? ops->pair_key_m(pair) : ops->pair_key(pair);
			void *v = macros ? ops->pair_value_m(pair) : ops->pair_value(pair);
			CHECK(k == it->second.key, "the pair found for %s has another key object than the one stored", elem_str(probe).c_str());
			CHECK(v == it->second.value, "lookup of %s found %s instead of %s", elem_str(probe).c_str(), elem_str(v).c_str(), elem_str(it->second.value).c_str());
		}
	}
	end_op("lookup", m.size());
}

void MapMachine::exists(const void *probe)
{
	begin_op();
	bool want = m.count(rank_of(probe));
	bool got = ops->exists(map, probe);
	if (oracles & M_MAP)
		CHECK(got == want, "key_exists says %d for %s, which is %s", (int)got, elem_str(probe).c_str(), want ? "stored" : "not stored");
	end_op("key_exists", m.size());
}

void MapMachine::update(const void *probe, void *value, bool macro)
{
	begin_op();
	auto it = m.find(rank_of(probe));
	if (it == m.end())
		return;
	void *pair = ops->lookup(map, probe);
	CHECK(pair, "lookup did not find the stored key %s", elem_str(probe).c_str());
	if (macro) {
		ops->pair_assign_m(pair, value);
	} else {
		if (it->second.value)
			ev.push_back(it->second.value);
		ops->pair_set(pair, value);
	}
	it->second.value = value;
	++n_updates;
	if (oracles & M_MAP)
		CHECK(ops->pair_value(pair) == value, "the pair does not show the updated value");
	end_op("value update", m.size());
}

void MapMachine::clear()
{
	begin_op();
	for (auto &e : m) {
		ek.push_back(e.second.key);
		if (e.second.value)
			ev.push_back(e.second.value);
	}
	if (shared)
		shared->expected_live -= m.size();
	m.clear();
	keys.clear();
	key_at.clear();
	++n_clear;
	ops->clear(map);
	end_op("clear", 0);
}

void MapMachine::init_again(Src &s)
{
	begin_op();
	for (auto &e : m) {
		ek.push_back(e.second.key);
		if (e.second.value)
			ev.push_back(e.second.value);
	}
	if (shared)
		shared->expected_live -= m.size();
	m.clear();
	keys.clear();
	key_at.clear();
	if (own_storage) {
		s.note("free + init");
		ops->release(map);
		end_op("free", 0);
		st.refill(s);
		ops->init(map, &cfg);
	} else {
		s.note("destroy + new");
		ops->destroy(map);
		end_op("destroy", 0);
		map = ops->make(&cfg);
	}
}

void MapMachine::destroy(Src &s)
{
	begin_op();
	for (auto &e : m) {
		ek.push_back(e.second.key);
		if (e.second.value)
			ev.push_back(e.second.value);
	}
	if (shared)
		shared->expected_live -= m.size();
	m.clear();
	keys.clear();
	key_at.clear();
	s.note("%s", own_storage ? "free" : "destroy");
	if (own_storage) {
		ops->release(map);
		end_op("free", 0);
		st.destroy();
	} else {
		ops->destroy(map);
		end_op("destroy", 0);
	}
	map = nullptr;
}

void *MapMachine::new_value(Src &s)
{
	size_t k = s.w({8, 2, has_fv ? 0u : 1u});
	if (k == 1)
		return nullptr;
	if (k == 2 && !keys.empty())
		return m[keys[s.u((uint32_t)keys.size() - 1)]].value;
	return value_new((int32_t)s.u(99));
}

// A key to search for: often a stored one, at another address.
void *MapMachine::any_key(Src &s, bool *hit)
{
	if (!keys.empty() && s.chance(2, 3)) {
		if (hit)
			*hit = true;
		return elem_new(elem_val(m[keys[s.u((uint32_t)keys.size() - 1)]].key));
	}
	if (hit)
		*hit = false;
	return elem_new((int32_t)s.u(universe));
}

void MapMachine::step(Src &s)
{
	switch (s.w({10, 7, 3, 3, 3, 1, 1, 2})) {
	case 0: {
		void *k = s.chance(1, 3) ? any_key(s) : elem_new((int32_t)s.u(universe));
		void *v = new_value(s);
		bool ow = s.chance(1, 2);
		if (!has_fk || !ow) { // the stored key object itself
			void *own = stored(rank_of(k));
			if (own && s.chance(1, 6))
				k = own;
		}
		if (!has_fv && s.chance(1, 12)) // a set: each key is its own value
			v = k;
		s.note("set %s -> %s%s", elem_str(k).c_str(), elem_str(v).c_str(), ow ? " (overwrite key)" : "");
		set(k, v, ow);
		break;
	}
	case 1: {
		void *k = any_key(s);
		void *own = stored(rank_of(k));
		if (own && s.chance(1, 4))
			k = own;
		s.note("remove %s%s", elem_str(k).c_str(), own == k ? " (the stored key itself)" : "");
		remove(k);
		break;
	}
	case 2: {
		void *k = any_key(s);
		s.note("lookup %s", elem_str(k).c_str());
		lookup(k, s.chance(1, 2));
		break;
	}
	case 3: {
		void *k = any_key(s);
		s.note("exists %s", elem_str(k).c_str());
		exists(k);
		break;
	}
	case 4: {
		void *k = any_key(s);
		void *v = new_value(s);
		bool macro = !has_fv && s.chance(1, 3);
		s.note("update %s -> %s%s", elem_str(k).c_str(), elem_str(v).c_str(), macro ? " (macro)" : "");
		update(k, v, macro);
		break;
	}
	case 5:
		s.note("clear");
		clear();
		break;
	case 6:
		if (!keep)
			init_again(s);
		break;
	default:
		s.note("audit");
		audit();
	}
	check_light(s);
}

void MapMachine::check_light(Src &s)
{
	(void)s;
	if (oracles & M_MAP)
		CHECK(ops->count(map) == m.size(), "count is %zu instead of %zu", ops->count(map), m.size());
	if ((oracles & M_SORTED) && ops->capacity)
		CHECK(ops->capacity(map) >= ops->count(map), "capacity %zu is below the count %zu", ops->capacity(map), ops->count(map));
}

// Everything: iteration, and a lookup of every stored key.
void MapMachine::audit()
{
	std::vector<char> it(ops->iter_size + 16, (char)0xC3);
	if (oracles & (M_MAP | M_SORTED)) {
		budget(UINT64_MAX);
		ops->iter_init(map, it.data());
		size_t seen = 0;
		int64_t prev = 0;
		while (ops->iter_next(it.data())) {
			void *k = ops->iter_key(it.data()), *v = ops->iter_value(it.data());
			CHECK(seen < m.size(), "iteration yields more than the %zu stored entries", m.size());
			int64_t r = rank_of(k);
			if (oracles & M_MAP) {
				auto e = m.find(r);
				CHECK(e != m.end() && e->second.key == k, "iteration yields a key that is not stored: %s", elem_str(k).c_str());
				CHECK(e->second.value == v, "iteration yields value %s of key %s instead of %s", elem_str(v).c_str(), elem_str(k).c_str(), elem_str(e->second.value).c_str());
			}
			if (oracles & M_SORTED)
				CHECK(!seen || prev < r, "the entries are not in strictly ascending order: %s at position %zu", elem_str(k).c_str(), seen);
			prev = r;
			++seen;
		}
		CHECK(seen == m.size(), "iteration yields %zu of %zu entries", seen, m.size());
		ops->iter_free(it.data());
	}
	if (oracles & (M_MAP | M_COST))
		for (size_t i = 0; i < keys.size(); ++i) {
			const Entry &e = m[keys[i]];
			lookup(e.key, i & 1);
		}
}

// Many operations of one kind at once.
void MapMachine::bulk(Src &s, uint32_t max)
{
	uint32_t n = s.range(1, max);
	static const char *P[] = {"ascending", "descending", "zig-zag", "random", "strided"};
	size_t pat = s.u(4);
	bool rem = !keys.empty() && s.chance(2, 5);
	uint32_t salt = s.u(65535);
	if (!rem) {
		int32_t base = (int32_t)s.u(universe);
		s.note("insert %u keys, %s, from %d", n, P[pat], base);
		for (uint32_t i = 0; i < n; ++i) {
			int32_t v;
			switch (pat) {
			case 0: v = base + (int32_t)i; break;
			case 1: v = base + (int32_t)(n - i); break;
			case 2: v = base + (i & 1 ? (int32_t)(n + i) : (int32_t)(n - i)); break;
			case 3: v = base + (int32_t)(mix64(salt * 65536ull + i) % (2 * n + 1)); break;
			default: v = base + (int32_t)((uint64_t)i * 7919 % (n | 1)); break;
			}
			if (v < 0)
				v = -v;
			set(elem_new(v), value_new((int32_t)i), false);
		}
	} else {
		if (n > keys.size())
			n = (uint32_t)keys.size();
		s.note("remove %u keys, %s", n, P[pat]);
		std::vector<int64_t> v = keys;
		std::sort(v.begin(), v.end());
		if (pat == 1)
			std::reverse(v.begin(), v.end());
		else if (pat == 2) {
			std::vector<int64_t> w;
			for (size_t i = 0, j = v.size(); i < j;) {
				w.push_back(v[i++]);
				if (i < j)
					w.push_back(v[--j]);
			}
			v = w;
		} else if (pat == 3) {
			for (size_t i = v.size(); i > 1; --i)
				std::swap(v[i - 1], v[mix64(salt * 65536ull + i) % i]);
		} else if (pat == 4) {
			size_t st = 2 + salt % 5;
			std::vector<int64_t> w;
			for (size_t o = 0; o < st; ++o)
				for (size_t i = o; i < v.size(); i += st)
					w.push_back(v[i]);
			v = w;
		}
		for (uint32_t i = 0; i < n; ++i)
			remove(elem_new(elem_val(m[v[i]].key)));
	}
	check_light(s);
}

// part of C08: a tree on a user-defined or library pool
void c08_tree(Src &s, Shared *sh, unsigned *n, bool *removed)
{
	MapMachine a[2];
	size_t k = 1 + s.u(1);
	for (size_t i = 0; i < k; ++i) {
		a[i].create(s, &shim_rbtree, M_MAP, s.chance(1, 2), s.chance(1, 2), sh, 2, 0);
		a[i].universe = s.chance(1, 2) ? 12 : 60;
	}
	while (s.more(40)) {
		size_t i = k > 1 ? s.u(1) : 0;
		if (s.chance(1, 10))
			a[i].bulk(s, 60);
		else
			a[i].step(s);
		if (sh->box.track())
			track_check(sh->box.track());
	}
	for (size_t i = 0; i < k; ++i) {
		a[i].audit();
		*n += a[i].n_new;
		*removed = *removed || a[i].n_removed;
		a[i].destroy(s);
	}
}

// A tree of more than 40 levels: millions of entries in order.
static unsigned deep_calls;
static int deep_cmp(const void *a, const void *b)
{
	++deep_calls;
	return (uintptr_t)a < (uintptr_t)b ? -1 : (uintptr_t)a > (uintptr_t)b;
}
struct DeepPool { // one node after the other, the last one given back first
	ShimPool iface;
	char *mem;
	size_t item, used = 0, live = 0;
	std::vector<void *> back;
	std::vector<bool> out;
};
static void *deep_alloc(ShimPool *q)
{
	DeepPool *p = (DeepPool *)(void *)q;
	void *r;
	if (p->back.empty()) {
		CHECK(p->used < p->out.size(), "more nodes are taken than entries were ever stored");
		r = p->mem + p->item * p->used++;
	} else {
		r = p->back.back();
		p->back.pop_back();
	}
	p->out[(size_t)((char *)r - p->mem) / p->item] = true;
	++p->live;
	return r;
}
static void deep_free(ShimPool *q, void *r)
{
	DeepPool *p = (DeepPool *)(void *)q;
	size_t off = (size_t)((char *)r - p->mem);
	CHECK(off < p->item * p->used && off % p->item == 0, "something that is no node is given back to the pool");
	CHECK(p->out[off / p->item], "a node is given back to the pool twice");
	p->out[off / p->item] = false;
	--p->live;
	p->back.push_back(r);
}
static std::vector<bool> deep_freed[2];
static size_t deep_frees[2], deep_from;
static void deep_free_key(void *k)
{
	size_t i = (size_t)k - deep_from;
	CHECK(i < deep_freed[0].size() && !deep_freed[0][i], "key %zu is freed twice, or was never stored", (size_t)k);
	deep_freed[0][i] = true;
	++deep_frees[0];
}
static void deep_free_value(void *v)
{
	size_t i = ((size_t)v - 3) / 5 - deep_from;
	CHECK(i < deep_freed[1].size() && !deep_freed[1][i], "value %zu is freed twice, or was never stored", (size_t)v);
	deep_freed[1][i] = true;
	++deep_frees[1];
}
// mode 0: a map, 1: it owns its keys and values, 2: it has a pool, 3: comparisons are counted
static void rb_deep(Src &s, int mode, int how)
{
	cx_reset();
	const MapOps *ops = &shim_rbtree;
	size_t n = 2500000 + s.u(300000), from = 1000 + s.u(1000);
	bool remove = how >= 2; // a removal at the deep end takes levels away
	how %= 3;
	s.note("%zu entries, %s", n, how == 0 ? "ascending" : how == 1 ? "descending" : "from both ends");
	MapCfg cfg{};
	cfg.cmp = deep_cmp;
	DeepPool pool;
	for (auto &f : deep_freed)
		f.assign(mode == 1 ? n : 0, false);
	deep_frees[0] = deep_frees[1] = 0;
	deep_from = from;
	if (mode == 1) {
		cfg.free_key = deep_free_key;
		cfg.free_value = deep_free_value;
	}
	if (mode == 2) {
		pool.iface.alloc = deep_alloc;
		pool.iface.free = deep_free;
		pool.item = ops->node_size;
		pool.mem = (char *)malloc(n * pool.item);
		pool.out.assign(n, false);
		cfg.pool = &pool;
	}
	void *map = ops->make(&cfg);
	auto nth = [&](size_t i) { return from + (how == 0 ? i : how == 1 ? n - 1 - i : i & 1 ? n - 1 - i / 2 : i / 2); };
	auto value = [&](size_t k) { return (void *)(k * 5 + 3); };
	auto account = [&](size_t left) {
		CHECK(mode != 1 || (deep_frees[0] == n - left && deep_frees[1] == n - left), "%zu keys and %zu values have been freed instead of %zu", deep_frees[0], deep_frees[1], n - left);
		CHECK(mode != 2 || pool.live == left, "%zu nodes are taken from the pool for %zu entries", pool.live, left);
	};
	auto cheap = [&](const char *op, size_t of) {
		CHECK(mode != 3 || deep_calls <= 2 * log2((double)of + 1) + 2, "%s among %zu entries made %u key comparisons", op, of, deep_calls);
		deep_calls = 0;
	};
	for (size_t i = 0; i < n; ++i) {
		size_t k = nth(i);
		deep_calls = 0;
		CHECK(ops->set(map, (void *)k, value(k), false) == SHIM_NEW, "set of %zu reported a replacement although the key was not there", k);
		cheap("an insertion", i);
	}
	CHECK(ops->count(map) == n, "the count of %zu entries is %zu", n, ops->count(map));
	std::vector<bool> there(n, true);
	size_t left = n;
	auto iterate = [&] {
		std::vector<bool> seen(n, false);
		std::vector<char> it(ops->iter_size + 16);
		fill_garbage(it.data(), it.size(), s);
		ops->iter_init(map, it.data());
		size_t q = 0;
		for (; ops->iter_next(it.data()); ++q) {
			size_t k = (size_t)ops->iter_key(it.data());
			CHECK(k - from < n && there[k - from], "iteration yields %zu, which is not stored", k);
			CHECK(!seen[k - from], "iteration yields %zu twice", k);
			CHECK(ops->iter_value(it.data()) == value(k), "iteration yields a wrong value for %zu", k);
			seen[k - from] = true;
		}
		CHECK(q == left, "iteration yielded %zu of %zu entries", q, left);
		ops->iter_free(it.data());
	};
	iterate();
	uint64_t r = s.u(65535);
	for (size_t i = 0; i < 300000; ++i) {
		r = mix64(r);
		size_t k = i < 5000 ? i : i < 10000 ? n - 1 - (i - 5000) : r % n;
		void *p = ops->lookup(map, (void *)(from + k));
		cheap("a lookup", left);
		CHECK(!!p == there[k] && ops->exists(map, (void *)(from + k)) == there[k], "%zu is %s", from + k, p ? "found after its removal" : "not found");
		CHECK(!p || ops->pair_value(p) == value(from + k), "a wrong value is found for %zu", from + k);
		deep_calls = 0;
		if (remove && r >> 63) {
			CHECK(ops->remove(map, (void *)(from + k)) == (there[k] ? 1 : 0), "removal of %zu is misreported", from + k);
			cheap("a removal", left);
			left -= there[k];
			there[k] = false;
		}
	}
	CHECK(ops->count(map) == left, "the count of %zu entries is %zu", left, ops->count(map));
	CHECK(!ops->exists(map, (void *)(from - 1)) && !ops->exists(map, (void *)(from + n)), "a key is found that was never stored");
	vt_check_all();
	iterate();
	account(left);
	if (s.chance(1, 2)) {
		ops->clear(map);
		account(0);
		CHECK(ops->count(map) == 0, "the count is %zu after a clear", ops->count(map));
	}
	ops->destroy(map);
	account(0);
	vt_check_all();
	CHECK(vt_live_blocks() == 0, "%zu blocks (%zu bytes) are left after the tree was destroyed", vt_live_blocks(), vt_live_bytes());
	if (mode == 2)
		free(pool.mem);
}
bool deep_tree(Src &s, int mode)
{
	int how = s.at_case(2) ? 0 : s.at_case(3) ? 1 : s.at_case(4) ? 2 : s.at_case(5) ? 3 : -1;
	if (vt_poisons || how < 0)
		return false;
	s.label("tree of more than 40 levels");
	s.nontrivial();
	in_child(100, [&] { rb_deep(s, mode, how); });
	return true;
}
