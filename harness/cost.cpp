// C33, C34: steps of the library counted over histories (sim variant: every basic block, load and store of the
// library counts one step, block operations one per 8 bytes). C37: operations on small stacks.
#include "model.h"
#include "sim.h"
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
#include <unordered_map>

namespace {

uint64_t g_calls; // of callbacks
extern "C" {
static int32_t c_cmp(const void *a, const void *b)
{
	++g_calls;
	return ((uintptr_t)a > (uintptr_t)b) - ((uintptr_t)a < (uintptr_t)b);
}
static bool c_eq(const void *a, const void *b)
{
	++g_calls;
	return a == b;
}
static uint32_t c_hash(const void *a)
{
	++g_calls;
	return (uint32_t)mix64((uintptr_t)a);
}
static const uintptr_t KEY_STEP = 1000003;
static uint32_t c_hash_dense(const void *a) // consecutive keys take consecutive buckets
{
	++g_calls;
	return (uint32_t)((uintptr_t)a / KEY_STEP);
}
static void c_free(void *) { ++g_calls; }
}

struct Meter {
	uint64_t w = 0, t = 0, r = 0;
	void start()
	{
		g_calls = 0;
		w = sim::work();
		t = vt_traffic();
		r = vt_requests();
	}
	// steps; a callback or a memory request counts ten
	uint64_t steps() const { return sim::work() - w + 10 * (g_calls + vt_requests() - r); }
	uint64_t bytes() const { return vt_traffic() - t; }
};
Meter M;
double g_worst;
const char *g_worst_name;
bool g_show;

// bound: what the operation may cost
void within(const char *type, const char *op, uint64_t got, double bound, size_t n)
{
	if (g_show && got / bound > 0.0001) {
		static std::unordered_map<std::string, double> worst;
		std::string k = std::string(type) + " " + op;
		if (got / bound > worst[k]) {
			worst[k] = got / bound;
			static FILE *rf = fopen(getenv("VT_RATIO"), "a");
			if (n > 300 && rf) {
				fprintf(rf, "RATIO %s %.3f (n %zu, %llu of %.0f)\n", k.c_str(), got / bound, n, (unsigned long long)got, bound);
				fflush(rf);
			}
		}
	}
	CHECK((double)got <= bound, "%s: %s took %llu steps with %zu elements (at most %.0f expected)", type, op, (unsigned long long)got, n, bound);
}

struct LibPool {
	void *p = nullptr;
	size_t block = 0, item = 0;
	void draw(Src &s, size_t node)
	{
		if (!s.chance(1, 2))
			return;
		static const size_t B[] = {2, 8, 128, 400};
		block = B[s.u(3)];
		item = node;
		p = shim_pool_new(node, block);
	}
	double extra() const { return 4.0 * block; }
	void destroy()
	{
		if (p)
			shim_pool_destroy(p);
	}
};

bool g_deep; // C37: more elements
size_t draw_n(Src &s)
{
	if (g_deep) {
		static const uint32_t D[] = {600, 8000, 30000, 150000};
		uint32_t k = (uint32_t)s.w({4, 5, 4, 1});
		return 1 + s.u(D[k] * (g_thorough && k == 3 ? 2 : 1) - 1);
	}
	static const uint32_t N[] = {60, 600, 4000, 25000};
	uint32_t k = (uint32_t)s.w({3, 6, 6, 1});
	if (g_thorough && k == 3 && s.chance(1, 4))
		return 100000;
	return 1 + s.u(N[k] - 1);
}

// ------------------------------------------------------------------ C33

const double END = 600; // the costliest of these operations takes about a fifth of this

void ends_list(Src &s, const SeqOps *o)
{
	LibPool pool;
	pool.draw(s, o->item_size);
	FreeFn fr = s.chance(1, 2) ? c_free : nullptr;
	void *l = o->make(c_cmp, fr, pool.p);
	std::vector<void *> h;
	std::unordered_map<void *, size_t> at;
	double bound = END + pool.extra();
	auto add = [&](void *i) {
		at[i] = h.size();
		h.push_back(i);
	};
	auto del = [&](void *i) {
		auto e = at.find(i);
		CHECK(e != at.end(), "%s: the head is not one of the items", o->name);
		size_t k = e->second;
		at.erase(e);
		if (k + 1 != h.size()) {
			h[k] = h.back();
			at[h[k]] = k;
		}
		h.pop_back();
	};
	size_t most = 0;
	auto one = [&](size_t op) {
		size_t n = h.size();
		void *d = (void *)(uintptr_t)(1 + s.u(50)), *i;
		switch (op) {
		case 0:
			M.start();
			i = o->append(l, d);
			within(o->name, "append", M.steps(), bound, n);
			add(i);
			break;
		case 1:
			M.start();
			i = o->prepend(l, d);
			within(o->name, "prepend", M.steps(), bound, n);
			add(i);
			break;
		case 2:
			if (!n)
				break;
			i = o->head(l);
			del(i);
			M.start();
			o->pop(l);
			within(o->name, "pop", M.steps(), bound, n);
			break;
		case 3: // remove by handle
			if (!n)
				break;
			i = o->head(l);
			if (o->is_double) {
				switch (s.w({4, 2, 1})) {
				case 0: i = h[s.u((uint32_t)n - 1)]; break;
				case 1: i = o->tail(l); break;
				}
			}
			del(i);
			M.start();
			o->remove(l, i);
			within(o->name, o->is_double ? "remove of an item" : "remove of the first item", M.steps(), bound, n);
			break;
		default:
			M.start();
			o->head(l);
			within(o->name, "head", M.steps(), bound, n);
			if (o->is_double) {
				M.start();
				o->tail(l);
				within(o->name, "tail", M.steps(), bound, n);
			}
			M.start();
			size_t c = o->count(l);
			within(o->name, "count", M.steps(), bound, n);
			CHECK(c == n, "%s: count %zu of %zu", o->name, c, n);
			M.start();
			o->empty(l);
			within(o->name, "empty", M.steps(), bound, n);
			if (!n)
				break;
			i = h[s.u((uint32_t)n - 1)];
			M.start();
			o->data(i);
			o->next(i);
			o->set_data(i, d);
			if (o->is_double)
				o->prev(i);
			within(o->name, "access to an item", M.steps(), bound, n);
			if (s.chance(1, 4)) {
				M.start();
				o->free_data(l, i);
				within(o->name, "freeing an item's data", M.steps(), bound, n);
			}
		}
		most = std::max(most, h.size());
	};
	// operations that may take longer, which the history consists of as well
	auto other = [&] {
		size_t n = h.size(), op = s.w({3, 2, 2, 2, 1});
		switch (op) {
		case 0: { // items at the end
			size_t k = 1 + s.u(2);
			s.note("remove the last %zu items", k);
			for (; k && o->head(l); --k) {
				void *i = o->head(l);
				while (void *x = o->next(i))
					i = x;
				o->remove(l, i);
			}
			break;
		}
		case 1: // any item
			if (n) {
				s.note("remove any item");
				o->remove(l, h[s.u((uint32_t)n - 1)]);
			}
			break;
		case 2: { // equal ones
			bool all = s.chance(1, 2);
			void *d = (void *)(uintptr_t)(1 + s.u(50));
			s.note("remove %s by data", all ? "all" : "one");
			o->remove_by_data(l, d, all);
			break;
		}
		case 3: // searches, for things that are there and not
			s.note("search");
			o->find(l, nullptr, (void *)(uintptr_t)(1 + s.u(60)));
			o->contains(l, (void *)(uintptr_t)(1 + s.u(60)));
			break;
		default: // an empty list, or a sorted one
			s.note("clear");
			o->clear(l);
			for (uint32_t k = s.u(20); k; --k)
				o->insert_sorted(l, (void *)(uintptr_t)(1 + s.u(50)));
		}
		h.clear();
		at.clear();
		for (void *i = o->head(l); i; i = o->next(i))
			add(i);
	};
	s.note("%s, %s free function, pool block %zu", o->name, fr ? "with" : "no", pool.block);
	while (s.more(8)) {
		size_t k = draw_n(s), mode = s.w({4, 2, 2, 2, 3, 4});
		if (mode == 5) {
			other();
			k = s.u(6);
			mode = 3;
		}
		s.note("%zu x %s (%zu elements)", k, mode == 0 ? "insert" : mode == 1 ? "remove" : mode == 2 ? "insert and remove" : mode == 3 ? "any" : "look", h.size());
		if (mode >= 2)
			k = std::min<size_t>(k, 200);
		uint64_t r = s.u64();
		for (size_t i = 0; i < k; ++i) {
			r = mix64(r);
			switch (mode) {
			case 0: one(r & 1); break;
			case 1: one(2 + (r & 1)); break;
			case 2: one(i & 1 ? 2 + (r & 1) : r & 1); break;
			case 3: one(r % 5); break;
			default: one(4); i += 10;
			}
		}
	}
	o->destroy(l);
	pool.destroy();
	if (most >= 500)
		s.nontrivial();
	if (most >= 10000)
		s.label("10000 or more elements");
}

void ends_line(Src &s, const LineOps *o)
{
	LibPool pool;
	pool.draw(s, o->item_size);
	FreeFn fr = s.chance(1, 2) ? c_free : nullptr;
	void *q = o->make(c_cmp, fr, pool.p);
	double bound = END + pool.extra();
	size_t n = 0, most = 0;
	auto one = [&](size_t op) {
		void *d = (void *)(uintptr_t)(1 + s.u(50)), *out = nullptr;
		bool ok = true;
		switch (op) {
		case 0:
		case 1:
			M.start();
			o->push(q, d);
			within(o->name, "push", M.steps(), bound, n);
			++n;
			break;
		case 2:
		case 3:
			if (!n)
				break;
			M.start();
			ok = op == 2 && o->pop_timeout ? o->pop_timeout(q, &out, 5) : o->pop(q, &out);
			within(o->name, "pop", M.steps(), bound, n);
			CHECK(ok, "%s: no element popped from %zu", o->name, n);
			--n;
			break;
		default:
			if (o->head) {
				M.start();
				ok = o->head(q, &out);
				within(o->name, "head", M.steps(), bound, n);
				CHECK(ok == (n > 0), "%s: head failed with %zu elements", o->name, n);
			}
			M.start();
			size_t c = o->count(q);
			within(o->name, "count", M.steps(), bound, n);
			CHECK(c == n, "%s: count %zu of %zu", o->name, c, n);
		}
		most = std::max(most, n);
	};
	s.note("%s, %s free function, pool block %zu", o->name, fr ? "with" : "no", pool.block);
	while (s.more(8)) {
		size_t k = draw_n(s), mode = s.w({4, 2, 2, 2});
		if (s.chance(1, 12)) {
			s.note("clear");
			o->clear(q);
			n = 0;
		}
		s.note("%zu x %s (%zu elements)", k, mode == 0 ? "push" : mode == 1 ? "pop" : mode == 2 ? "push and pop" : "any", n);
		if (mode >= 2)
			k = std::min<size_t>(k, 200);
		uint64_t r = s.u64();
		for (size_t i = 0; i < k; ++i) {
			r = mix64(r);
			switch (mode) {
			case 0: one(0); break;
			case 1: one(2 + (r & 1)); break;
			case 2: one(i & 1 ? 2 + (r & 1) : 0); break;
			default: one(r % 5);
			}
		}
	}
	o->destroy(q);
	pool.destroy();
	if (most >= 500)
		s.nontrivial();
	if (most >= 10000)
		s.label("10000 or more elements");
}

void c33(Src &s)
{
	cx_reset();
	g_show = getenv("VT_RATIO") != nullptr;
	switch (s.u(4)) {
	case 0: ends_list(s, &shim_slist); break;
	case 1: ends_list(s, &shim_list); break;
	case 2: ends_line(s, &shim_stack); break;
	case 3: ends_line(s, &shim_queue); break;
	default: ends_line(s, &shim_async);
	}
	vt_check_all();
}

// ------------------------------------------------------------------ C34

const double PER = 200; // steps per element, with callbacks and requests counted ten each

void bulk_list(Src &s, const SeqOps *o)
{
	LibPool pool;
	pool.draw(s, o->item_size);
	FreeFn fr = s.chance(1, 2) ? c_free : nullptr;
	void *l = o->make(c_cmp, fr, pool.p);
	size_t n = 0, most = 0;
	bool sorted = true;
	s.note("%s", o->name);
	auto lin = [&](const char *op, size_t k) { within(o->name, op, M.steps(), PER * (k + 10) + pool.extra(), k); };
	while (s.more(8)) {
		size_t op = s.w({6, 2, 2, 2, 2, 2, 1});
		if (!n || op == 0) {
			size_t k = draw_n(s);
			int pat = (int)s.w({1, 1, 1, 1}); // ascending, one value, few values, two alternating
			uintptr_t base = n ? 1000 : 0;
			if (n)
				sorted = false;
			s.note("append %zu", k);
			for (size_t i = 0; i < k; ++i)
				o->append(l, (void *)(10 + (pat == 0 ? base + i : pat == 1 ? 0 : pat == 2 ? i * 7 % 5 : i & 1)));
			if (pat >= 2)
				sorted = false;
			n += k;
			most = std::max(most, n);
			continue;
		}
		size_t c = o->count(l);
		switch (op) {
		case 1: {
			s.note("walk");
			M.start();
			size_t k = 0;
			for (void *i = o->head(l); i; i = o->next(i))
				++k;
			lin("walking", c);
			if (o->is_double) {
				M.start();
				for (void *i = o->tail(l); i; i = o->prev(i))
					++k;
				lin("walking back", c);
			}
			break;
		}
		case 2: {
			void *d = (void *)(uintptr_t)(s.chance(1, 2) ? 5 : 10 + s.u((uint32_t)n));
			s.note("search");
			M.start();
			o->find(l, nullptr, d);
			lin("find", c);
			M.start();
			o->contains(l, d);
			lin("contains", c);
			break;
		}
		case 3: {
			void *d = (void *)(uintptr_t)(10 + s.u(s.chance(1, 2) ? 5 : (uint32_t)n));
			bool all = s.chance(2, 3);
			s.note("remove by data (%s)", all ? "all" : "first");
			M.start();
			o->remove_by_data(l, d, all);
			lin("remove_by_data", c);
			n = o->count(l);
			break;
		}
		case 4: {
			if (!sorted)
				break;
			void *d = (void *)(uintptr_t)(10 + s.u((uint32_t)n));
			s.note("sorted insertion");
			M.start();
			o->insert_sorted(l, d);
			lin("insert_sorted", c);
			++n;
			break;
		}
		case 5: {
			void *i = o->head(l);
			for (uint32_t k = s.u(s.chance(1, 2) ? 50 : (uint32_t)n); k && o->next(i); --k)
				i = o->next(i);
			s.note("remove an item");
			M.start();
			o->remove(l, i);
			lin("remove", c);
			--n;
			break;
		}
		default:
			s.note("clear");
			M.start();
			o->clear(l);
			lin("clear", c);
			n = 0;
			sorted = true;
		}
	}
	size_t c = o->count(l);
	M.start();
	o->destroy(l);
	lin("destroy", c);
	pool.destroy();
	if (most >= 500)
		s.nontrivial();
}

void bulk_line(Src &s, const LineOps *o)
{
	LibPool pool;
	pool.draw(s, o->item_size);
	FreeFn fr = s.chance(1, 2) ? c_free : nullptr;
	void *q = o->make(c_cmp, fr, pool.p);
	size_t most = 0;
	s.note("%s", o->name);
	for (int k = 0; k < 2; ++k) {
		size_t n = draw_n(s);
		most = std::max(most, n);
		M.start();
		for (size_t i = 0; i < n; ++i)
			o->push(q, (void *)(i + 1));
		within(o->name, "all pushes", M.steps(), PER * (n + 10) + pool.extra(), n);
		M.start();
		if (k) {
			o->destroy(q);
			within(o->name, "destroy", M.steps(), PER * (n + 10), n);
		} else {
			o->clear(q);
			within(o->name, "clear", M.steps(), PER * (n + 10), n);
		}
	}
	pool.destroy();
	if (most >= 500)
		s.nontrivial();
}

void iterate(const MapOps *o, void *m, size_t n, double bound)
{
	std::vector<char> mem(o->iter_size);
	M.start();
	o->iter_init(m, mem.data());
	size_t k = 0;
	while (o->iter_next(mem.data())) {
		o->iter_key(mem.data());
		o->iter_value(mem.data());
		++k;
	}
	o->iter_free(mem.data());
	within(o->name, "iterating", M.steps(), bound, n);
	CHECK(k == n, "%s: iteration yields %zu of %zu entries", o->name, k, n);
}

void bulk_hash(Src &s)
{
	const MapOps *o = &shim_hashtable;
	MapCfg c;
	memset(&c, 0, sizeof c);
	c.eq = c_eq;
	c.hash = c_hash;
	c.free_key = s.chance(1, 2) ? c_free : nullptr;
	size_t size = 0; // number of buckets, 0: automatic
	if (s.chance(1, 3)) {
		size = s.chance(1, 2) ? draw_n(s) : 1 + s.u(s.chance(1, 2) ? 200 : 60000);
		if (s.chance(1, 2))
			c.hash = c_hash_dense;
	}
	size_t cap = size * 4 + 1; // entries
	if (s.chance(1, g_deep ? 5 : 15)) { // long chains
		size = 1 + s.u(3);
		cap = g_deep ? 10000 : 2000;
	}
	c.size = size;
	void *m = o->make(&c);
	uint64_t salt = s.u(KEY_STEP - 1);
	size_t next = 1, n = 0, most = 0, first = 1;
	auto key = [&](size_t i) { return (void *)(uintptr_t)(i * KEY_STEP + salt); };
	s.note("hash table (size %zu%s)", size, c.hash == c_hash ? "" : ", consecutive buckets");
	// entries a search passes on average, at most
	auto chain = [&](size_t k) { return size ? 1 + 2.0 * k / size : 1.0; };
	auto all = [&]() { return PER * (most + size + 300.0); };
	while (s.more(8)) {
		size_t op = s.w({6, 2, 3, 2, 1});
		if (op == 0 || !n) {
			size_t k = draw_n(s) * (s.chance(1, 8) ? 3 : 1);
			if (size)
				k = std::min(k, 1 + sat_sub(cap, n));
			s.note("insert %zu", k);
			M.start();
			for (size_t i = 0; i < k; ++i)
				o->set(m, key(next++), (void *)1, false);
			n += k;
			most = std::max(most, n);
			within(o->name, "all insertions", M.steps(), PER * (k + (double)most + 300) * chain(n), n);
			within(o->name, "all insertions (bytes of memory requested)", M.bytes(), 300.0 * (k + (double)most + 300), n);
			continue;
		}
		switch (op) {
		case 1:
			s.note("iterate");
			iterate(o, m, n, all());
			break;
		case 2: {
			size_t k = std::min<size_t>(n, 500), hits = 0;
			s.note("look up");
			M.start();
			for (size_t i = 0; i < k; ++i)
				hits += o->lookup(m, key(first + i * (n / k))) != nullptr;
			for (size_t i = 0; i < k; ++i)
				o->exists(m, key(next + i));
			within(o->name, "lookups", M.steps(), PER * 2.0 * (k + 20) * chain(n), n);
			break;
		}
		case 3: {
			size_t k = s.chance(1, 3) ? n : 1 + s.u((uint32_t)n - 1);
			s.note("remove %zu", k);
			M.start();
			for (size_t i = 0; i < k; ++i)
				o->remove(m, key(first++));
			within(o->name, "removals", M.steps(), PER * (k + 20.0) * chain(n), n);
			n -= k;
			break;
		}
		default:
			s.note("clear");
			M.start();
			o->clear(m);
			within(o->name, "clear", M.steps(), all(), n);
			n = 0;
			first = next;
		}
	}
	M.start();
	o->destroy(m);
	within(o->name, "destroy", M.steps(), all(), n);
	if (most >= 500)
		s.nontrivial();
}

// tree and associative array
void bulk_ordered(Src &s, const MapOps *o)
{
	LibPool pool;
	if (o->has_pool)
		pool.draw(s, o->node_size);
	MapCfg c;
	memset(&c, 0, sizeof c);
	c.cmp = c_cmp;
	c.free_key = s.chance(1, 2) ? c_free : nullptr;
	c.pool = pool.p;
	void *m = o->make(&c);
	std::vector<uintptr_t> in; // ascending
	bool tree = o == &shim_rbtree;
	size_t most = 0;
	auto lg = [](size_t n) { return log2((double)n + 2) + 2; };
	// an insertion or removal in the middle of an array moves what follows
	auto change = [&](size_t n) { return PER * lg(n) + (tree ? 200 + pool.extra() : 30.0 * n + 400); };
	s.note("%s", o->name);
	while (s.more(8)) {
		size_t op = s.w({5, 3, 2, 3, 3, 1}), n = in.size();
		if (op == 0 || !n) {
			size_t k = draw_n(s);
			bool down = tree && s.chance(1, 2);
			uintptr_t base = down ? (n ? in[0] : (uintptr_t)1 << 40) : n ? in.back() : (uintptr_t)1 << 40;
			s.note("insert %zu %s", k, down ? "descending" : "ascending");
			M.start();
			std::vector<uintptr_t> add;
			for (size_t i = 1; i <= k; ++i) {
				uintptr_t v = down ? base - i * 4 : base + i * 4;
				o->set(m, (void *)v, (void *)1, false);
				add.push_back(v);
			}
			within(o->name, "all insertions", M.steps(), PER * lg(n + k) * (k + 4.0) + (tree ? pool.extra() : 30.0 * (n + k)), n + k);
			if (!tree)
				within(o->name, "all insertions (bytes of memory requested)", M.bytes(), 400.0 * (n + k + 20), n + k);
			if (down) {
				std::reverse(add.begin(), add.end());
				in.insert(in.begin(), add.begin(), add.end());
			} else {
				in.insert(in.end(), add.begin(), add.end());
			}
			most = std::max(most, in.size());
			continue;
		}
		switch (op) {
		case 1: // single changes
			s.note("changes");
			for (int i = 0; i < 20 && !in.empty(); ++i) {
				size_t at = s.u((uint32_t)in.size() - 1);
				M.start();
				o->remove(m, (void *)in[at]);
				within(o->name, "removal", M.steps(), change(in.size()), in.size());
				uintptr_t v = in[at];
				if (s.chance(1, 2)) {
					M.start();
					o->set(m, (void *)v, (void *)2, false);
					within(o->name, "insertion", M.steps(), change(in.size()), in.size());
					M.start();
					o->set(m, (void *)v, (void *)3, true);
					within(o->name, "replacement", M.steps(), PER * lg(in.size()), in.size());
				} else {
					in.erase(in.begin() + (long)at);
				}
			}
			break;
		case 2:
			s.note("iterate");
			iterate(o, m, n, PER * (n + 10.0));
			break;
		case 3:
			s.note("look up");
			for (int i = 0; i < 20; ++i) {
				uintptr_t v = in[s.u((uint32_t)n - 1)];
				M.start();
				bool hit = o->lookup(m, (void *)v) != nullptr;
				within(o->name, "lookup", M.steps(), PER * lg(n), n);
				CHECK(hit, "%s: a stored key was not found", o->name);
				M.start();
				o->exists(m, (void *)(v + 1));
				within(o->name, "existence test", M.steps(), PER * lg(n), n);
				M.start();
				o->count(m);
				within(o->name, "count", M.steps(), END, n);
			}
			break;
		case 4: { // remove many from one end (the array: from the back)
			size_t k = s.chance(1, 3) ? n : 1 + s.u((uint32_t)n - 1);
			bool front = tree && s.chance(1, 2);
			s.note("remove %zu from the %s", k, front ? "front" : "back");
			M.start();
			for (size_t i = 0; i < k; ++i)
				o->remove(m, (void *)(front ? in[i] : in[n - 1 - i]));
			within(o->name, "removals", M.steps(), PER * lg(n) * (k + 2.0), n);
			if (front)
				in.erase(in.begin(), in.begin() + (long)k);
			else
				in.resize(n - k);
			break;
		}
		default:
			s.note("clear");
			M.start();
			o->clear(m);
			within(o->name, "clear", M.steps(), PER * (n + 10.0), n);
			in.clear();
		}
	}
	size_t n = in.size();
	M.start();
	o->destroy(m);
	within(o->name, "destroy", M.steps(), PER * (n + 10.0), n);
	pool.destroy();
	if (most >= 500)
		s.nontrivial();
}

void bulk_buffer(Src &s)
{
	size_t max = 4000000;
	void *b = shim_buffer_new(max);
	std::string piece;
	size_t len = 0, most = 0;
	char *dst = nullptr;
	size_t dlen = 0;
	s.note("buffer");
	while (s.more(8)) {
		switch (s.w({6, 2, 2, 1})) {
		case 0: {
			size_t k = draw_n(s), sz = 1 + s.u(s.chance(1, 4) ? 300 : 20);
			if (len + k * sz > max)
				break;
			piece.assign(sz, 'x');
			if (s.chance(1, 4))
				piece[sz - 1] = '\n';
			s.note("%zu writes of %zu bytes (%zu stored)", k, sz, len);
			M.start();
			for (size_t i = 0; i < k; ++i)
				shim_buffer_fill(b, piece.data(), sz);
			len += k * sz;
			most = std::max(most, len);
			CHECK(shim_buffer_len(b) == len, "buffer: length %zu instead of %zu", shim_buffer_len(b), len);
			within("buffer", "all writes", M.steps(), PER * (k + 10.0) + 10.0 * (k * sz) + 2.0 * most, len);
			within("buffer", "all writes (bytes of memory requested)", M.bytes(), 20.0 * most + 1000, len);
			break;
		}
		case 1: {
			s.note("read lines");
			for (int i = 0; i < 5; ++i) {
				M.start();
				bool ok = shim_buffer_read_line(b, &dst, &dlen);
				within("buffer", "reading a line", M.steps(), 30.0 * (len + 20), len);
				if (!ok)
					break;
				len = shim_buffer_len(b);
			}
			break;
		}
		case 2: {
			s.note("copy out");
			M.start();
			shim_buffer_flush(b, &dst, &dlen);
			within("buffer", "flush", M.steps(), 20.0 * (len + 20), len);
			M.start();
			char *p = shim_buffer_to_string(b);
			within("buffer", "to_string", M.steps(), 20.0 * (len + 20), len);
			vt_free(p);
			break;
		}
		default:
			s.note("clear");
			shim_buffer_clear(b);
			len = 0;
		}
	}
	vt_free(dst);
	shim_buffer_destroy(b);
	if (most >= 2000)
		s.nontrivial();
}

void bulk_pool(Src &s)
{
	static const size_t B[] = {2, 8, 128, 1000};
	size_t block = B[s.u(3)], item = 2 + s.u(60);
	void *p = shim_pool_new(item, block);
	std::vector<void *> out;
	size_t most = 0;
	s.note("pool of items of %zu bytes in blocks of %zu", item, block);
	while (s.more(8)) {
		size_t k = draw_n(s);
		int mode = (int)s.w({3, 3, 2});
		s.note("%s %zu", mode == 0 ? "take" : mode == 1 ? "give back" : "take and give back", k);
		M.start();
		uint64_t r = s.u64();
		for (size_t i = 0; i < k; ++i) {
			if (mode == 0 || (mode == 2 && (i & 1))) {
				out.push_back(shim_pool_alloc(p));
			} else if (!out.empty()) {
				r = mix64(r);
				size_t at = mode == 1 ? out.size() - 1 : r % out.size();
				std::swap(out[at], out.back());
				shim_pool_free(p, out.back());
				out.pop_back();
			}
		}
		most = std::max(most, out.size());
		within("pool", "taking and giving back", M.steps(), PER * (k + 10.0) + 20.0 * block, out.size());
	}
	M.start();
	shim_pool_destroy(p);
	within("pool", "destroy", M.steps(), PER * (most + 10.0) + 20.0 * block, most);
	if (most >= 500)
		s.nontrivial();
}

void c34(Src &s)
{
	cx_reset();
	g_show = getenv("VT_RATIO") != nullptr;
	switch (s.u(9)) {
	case 0: bulk_list(s, &shim_slist); break;
	case 1: bulk_list(s, &shim_list); break;
	case 2: bulk_line(s, &shim_stack); break;
	case 3: bulk_line(s, &shim_queue); break;
	case 4: bulk_line(s, &shim_async); break;
	case 5: bulk_hash(s); break;
	case 6: bulk_ordered(s, &shim_rbtree); break;
	case 7: bulk_ordered(s, &shim_assoc); break;
	case 8: bulk_buffer(s); break;
	default: bulk_pool(s);
	}
	CHECK(vt_live_blocks() == 0, "%zu blocks are left", vt_live_blocks());
	vt_check_all();
}

// ------------------------------------------------------------------ C37

void read_fd(Src &s)
{
	size_t max = (size_t)1 << (10 + s.u(15));
	void *b = shim_buffer_new(max);
	int fd = memfd_create("vt", 0);
	if (fd < 0)
		harness_error("memfd_create");
	std::string d(1 + s.u(20000), 'y');
	size_t len = 0;
	s.note("buffer with a limit of %zu bytes", max);
	while (s.more(6)) {
		if (ftruncate(fd, 0) || pwrite(fd, d.data(), d.size(), 0) != (ssize_t)d.size() || lseek(fd, 0, SEEK_SET))
			harness_error("memfd");
		size_t n = s.chance(1, 2) ? max : 1 + s.u((uint32_t)max - 1);
		s.note("fill_from_fd %zu", n);
		ssize_t got = shim_buffer_fill_from_fd(b, fd, n);
		size_t want = std::min(n, d.size());
		if (len + want > max) {
			CHECK(got == -1, "fill_from_fd returned %zd although the limit is exceeded", got);
			shim_buffer_clear(b);
			len = 0;
		} else {
			CHECK(got == (ssize_t)want, "fill_from_fd returned %zd instead of %zu", got, want);
			len += want;
		}
	}
	close(fd);
	char *dst = nullptr;
	size_t dl = 0;
	shim_buffer_flush(b, &dst, &dl);
	vt_free(dst);
	char *q = shim_buffer_to_string(b);
	vt_free(q);
	shim_buffer_destroy(b);
	if (max >= 100000)
		s.nontrivial();
}

void long_strings(Src &s)
{
	size_t n = 1 + s.u(s.chance(1, 3) ? 2000000 : 50000);
	s.note("strings of %zu bytes", n);
	std::string a(n, 'a'), b(n, 'a');
	if (s.chance(1, 2))
		b[n - 1] = 'b';
	CHECK((shim_str_compare(a.c_str(), b.c_str()) == 0) == (a == b), "long strings compare wrongly");
	CHECK(shim_str_equal(a.c_str(), b.c_str()) == (a == b), "long strings are wrongly equal or different");
	CHECK(a != b || shim_str_hash(a.c_str()) == shim_str_hash(b.c_str()), "equal strings hash differently");
	if (n >= 20000)
		s.nontrivial();
}

Src *g_src;
void *small_stack(void *)
{
	Src &s = *g_src;
	switch (s.u(11)) {
	case 0: bulk_list(s, &shim_slist); break;
	case 1: bulk_list(s, &shim_list); break;
	case 2: bulk_line(s, &shim_stack); break;
	case 3: bulk_line(s, &shim_queue); break;
	case 4: bulk_line(s, &shim_async); break;
	case 5: bulk_hash(s); break;
	case 6: bulk_ordered(s, &shim_rbtree); break;
	case 7: bulk_ordered(s, &shim_assoc); break;
	case 8: bulk_buffer(s); break;
	case 9: bulk_pool(s); break;
	case 10: read_fd(s); break;
	default: long_strings(s);
	}
	return nullptr;
}

void c37(Src &s)
{
	cx_reset();
	g_deep = true;
	g_src = &s;
	size_t stack = strcmp(vt_variant, "asan") ? 160 << 10 : 1024 << 10;
	s.note("on a stack of %zu KiB", stack >> 10);
	// the stack lies above a guard area of 256 MiB, so that no single frame jumps over it
	const size_t guard = (size_t)256 << 20;
	char *mem = (char *)mmap(nullptr, guard + stack, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED || mprotect(mem + guard, stack, PROT_READ | PROT_WRITE))
		harness_error("mmap");
	pthread_attr_t a;
	pthread_attr_init(&a);
	if (pthread_attr_setstack(&a, mem + guard, stack))
		harness_error("pthread_attr_setstack");
	pthread_t t;
	if (pthread_create(&t, &a, small_stack, nullptr))
		harness_error("pthread_create");
	pthread_attr_destroy(&a);
	pthread_join(t, nullptr);
	munmap(mem, guard + stack);
	CHECK(vt_live_blocks() == 0, "%zu blocks are left", vt_live_blocks());
	vt_check_all();
}

} // namespace

PROPERTY(C33, c33, "grow, shrink and access phases at the ends of a list, stack or queue with every step of the library counted; non-trivial: 500 or more elements", 45000, 900000, 0, 0);
PROPERTY(C34, c34, "bulk work on one instance with every step of the library counted; non-trivial: 500 or more elements (2000 bytes)", 20000, 500000, 0, 0);
PROPERTY(C37, c37, "bulk work on one instance in a thread with a stack of 160 KiB (1 MiB with sanitizers); non-trivial: 500 or more elements (20000 bytes)", 5000, 150000, 1200, 40000);
