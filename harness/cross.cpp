// C29-C32: properties of all types at once.
#include "bufm.h"
#include "mapm.h"
#include "seqm.h"
#include "sim.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <memory>
#include <sys/ioctl.h>
#include <unistd.h>

void async_case(Src &s) __attribute__((weak)); // async.cpp, where it is linked

namespace {

enum Type { T_SLIST, T_LIST, T_STACK, T_QUEUE, T_ASYNC, T_HASH, T_TREE, T_ASSOC, T_BUFFER, T_POOL, NTYPES };
const char *const TNAME[] = {"slist", "list", "stack", "queue", "message queue", "hash table", "tree", "associative array", "buffer", "pool"};

int g_fd[2] = {-1, -1};
void close_fds()
{
	for (int &f : g_fd)
		if (f >= 0) {
			close(f);
			f = -1;
		}
}

struct Iter {
	Storage st;
	bool live = false, done = false;
	bool stale = false;         // the map was changed: it can only be reused or freed
	size_t n = 0;
	std::unordered_map<int64_t, int> seen;
};

// One instance of any type with its model.
struct Inst {
	Type type = T_SLIST;
	Shared sh;
	std::unique_ptr<SeqMachine> seq;
	std::unique_ptr<LineMachine> line;
	std::unique_ptr<MapMachine> map;
	std::unique_ptr<BufMachine> buf;
	std::unique_ptr<PoolMachine> pool;
	Iter it[2];
	void *pair = nullptr;       // a pair found earlier, still valid
	int64_t pair_rank = 0;
	unsigned steps = 0, iterations = 0;
	uint32_t bulk = 40;
	bool bulk_ok = true;
	bool fd_ok = true;
	size_t iter_peak = 0;       // entries a tree held when iterated

	size_t size() const
	{
		return seq ? seq->m.size() : line ? line->m.size() : map ? map->m.size() : buf ? buf->m.size() : pool->live.size();
	}
	bool caller_storage() const
	{
		return seq ? seq->own_storage : line ? line->own_storage : map ? map->own_storage : buf ? buf->own_storage : false;
	}

	// storage: 0 allocated, 1 caller's, 2 either
	void create(Src &s, Type t, int storage, bool pools, bool full)
	{
		static const SeqOps *const SQ[] = {&shim_slist, &shim_list};
		static const LineOps *const LN[] = {&shim_stack, &shim_queue, &shim_async};
		static const MapOps *const MP[] = {&shim_hashtable, &shim_rbtree, &shim_assoc};
		type = t;
		bool fr = cx.kind != INT && s.chance(1, 2), fv = s.chance(1, 2);
		if (t <= T_LIST) {
			const SeqOps *o = SQ[t - T_SLIST];
			if (pools)
				sh.box.draw(s, o->item_size, {3, 1, 1});
			seq.reset(new SeqMachine);
			seq->create(s, o, full ? O_BACKWARD | O_SORTED | O_FREE | O_POOL : 0, fr, &sh, storage);
			seq->max_len = 4 + s.u(36);
		} else if (t <= T_ASYNC) {
			const LineOps *o = LN[t - T_STACK];
			if (pools)
				sh.box.draw(s, o->item_size, {3, 1, 1});
			line.reset(new LineMachine);
			line->create(s, o, full ? O_LINE | O_FREE | O_POOL : 0, fr, &sh, storage);
		} else if (t <= T_ASSOC) {
			const MapOps *o = MP[t - T_HASH];
			size_t n = 0;
			if (o->uses_hash) {
				static const size_t SZ[] = {0, 1, 3, 16, 100};
				n = s.chance(1, 2) ? 0 : SZ[s.u(4)];
			}
			if (pools && o->has_pool)
				sh.box.draw(s, o->node_size, {3, 1, 1});
			map.reset(new MapMachine);
			map->create(s, o, full ? M_MAP | M_FREE | (t == T_ASSOC ? M_SORTED : 0) : 0, fr && cx.kind != WILD, fv, &sh, storage, n);
			map->universe = s.chance(1, 2) ? 12 : 60;
		} else if (t == T_BUFFER) {
			buf.reset(new BufMachine);
			size_t mx = s.chance(1, 2) ? 1 + s.u(600) : 1000000;
			buf->create(s, full ? B_STREAM | B_LIMIT | B_DST : B_STREAM | B_LIMIT, storage, mx);
		} else {
			pool.reset(new PoolMachine);
			pool->overlap = full;
			pool->reuse = full;
			pool->account = false;
			pool->create(s, 2 + s.u(40), 2 + s.u(9));
		}
	}

	void drop_iters()
	{
		if (!map)
			return;
		for (Iter &i : it)
			if (i.live) {
				map->ops->iter_free(i.st.mem);
				i.st.check("iterator");
				i.live = false;
			}
	}

	void stale_iters()
	{
		for (Iter &i : it)
			i.stale = i.live;
	}

	void iter_op(Src &s)
	{
		Iter &i = it[s.u(1)];
		const MapOps *o = map->ops;
		budget(UINT64_MAX);
		if (!i.live || i.stale || s.chance(1, 8)) {
			if (!i.st.raw)
				i.st.create(o->iter_size, s);
			bool reuse = i.live && s.chance(i.stale ? 3 : 2, 4);
			if (reuse) {
				o->iter_reuse(map->map, i.st.mem);
			} else {
				if (i.live)
					o->iter_free(i.st.mem);
				i.st.check("iterator");
				i.st.refill(s);
				o->iter_init(map->map, i.st.mem);
			}
			s.note("iterator %d: %s", (int)(&i - it), reuse ? "reuse" : "init");
			i.live = true;
			i.stale = false;
			i.done = false;
			i.n = 0;
			i.seen.clear();
			iter_peak = std::max(iter_peak, map->m.size());
		} else if (s.chance(1, 6)) {
			o->iter_free(i.st.mem);
			s.note("iterator %d: free", (int)(&i - it));
			i.live = false;
		} else {
			uint32_t steps = s.chance(1, 3) ? UINT32_MAX : 1 + s.u(3);
			s.note("iterator %d: advance", (int)(&i - it));
			for (uint32_t q = 0; q < steps; ++q) {
				bool more = o->iter_next(i.st.mem);
				if (i.done) {
					CHECK(!more, "the iterator yields an entry after it reported the end");
					break;
				}
				if (!more) {
					CHECK(i.n == map->m.size(), "iteration yielded %zu of %zu entries", i.n, map->m.size());
					i.done = true;
					++iterations;
					break;
				}
				void *k = o->iter_key(i.st.mem), *v = o->iter_value(i.st.mem);
				CHECK(k, "iteration yields a NULL key");
				auto e = map->m.find(rank_of(k));
				CHECK(e != map->m.end() && e->second.key == k && e->second.value == v, "iteration yields an entry that is not stored: %s", elem_str(k).c_str());
				CHECK(i.seen[rank_of(k)]++ == 0, "iteration yields %s twice", elem_str(k).c_str());
				++i.n;
			}
		}
		i.st.check("iterator");
	}

	void fd_fill(Src &s)
	{
		if (!buf->valid)
			return;
		if (pipe(g_fd))
			harness_error("pipe: %s", strerror(errno));
		std::string d = buf->draw_bytes(s, 1 + s.u(s.chance(1, 6) ? 20000 : 300));
		if (write(g_fd[1], d.data(), d.size()) != (ssize_t)d.size())
			harness_error("write: %s", strerror(errno));
		size_t n = 1 + s.u(s.chance(1, 6) ? 30000 : 400);
		n = std::min(n, buf->max);
		s.note("fill_from_fd %zu of %zu bytes", n, d.size());
		buf->peak = std::max(buf->peak, buf->m.size() + n); // room for all of it may be made
		ssize_t got = shim_buffer_fill_from_fd(buf->b, g_fd[0], n);
		int left = 0;
		CHECK(fcntl(g_fd[0], F_GETFD) >= 0 && fcntl(g_fd[1], F_GETFD) >= 0, "the descriptor was closed");
		CHECK(fcntl(g_fd[0], F_GETFD) == 0 && fcntl(g_fd[0], F_GETFL) == O_RDONLY, "the flags of the descriptor were changed");
		CHECK(ioctl(g_fd[0], FIONREAD, &left) == 0, "the descriptor cannot be used any more: %s", strerror(errno));
		close_fds();
		size_t used = d.size() - (size_t)left;
		if (buf->m.size() + used > buf->max) {
			CHECK(got == -1, "%zu bytes do not fit, but fill_from_fd returned %zd", used, got);
			buf->valid = false;
			++buf->n_reject;
		} else {
			CHECK(got == (ssize_t)used, "fill_from_fd consumed %zu bytes and returned %zd", used, got);
			buf->m += d.substr(0, used);
		}
	}

	// A descriptor that delivers nothing: at its end, empty, or not readable.
	void fd_nothing(Src &s)
	{
		if (!buf->valid)
			return;
		if (pipe(g_fd))
			harness_error("pipe: %s", strerror(errno));
		size_t n = std::min<size_t>(1 + s.u(300), buf->max);
		size_t how = s.u(2);
		s.note("fill_from_fd %zu (%s)", n, how == 0 ? "end of file" : how == 1 ? "nothing there yet" : "not readable");
		if (how == 0) {
			close(g_fd[1]);
			g_fd[1] = -1;
		} else if (how == 1) {
			fcntl(g_fd[0], F_SETFL, O_NONBLOCK);
		}
		int f = g_fd[how == 2 ? 1 : 0], fl = fcntl(f, F_GETFL);
		ssize_t got = shim_buffer_fill_from_fd(buf->b, f, n);
		CHECK(fcntl(f, F_GETFD) == 0 && fcntl(f, F_GETFL) == fl, "the descriptor was closed or its flags were changed");
		close_fds();
		CHECK(got == (how ? -1 : 0), "fill_from_fd returned %zd", got);
		buf->peak = std::max(buf->peak, buf->m.size() + n);
		if (how)
			++buf->n_reject; // reported
	}

	void step(Src &s)
	{
		++steps;
		if (seq) {
			seq->step(s, 0);
		} else if (line) {
			line->step(s);
		} else if (map) {
			if (s.chance(1, 4)) {
				iter_op(s);
				return;
			}
			pair = nullptr;
			if (!map->keys.empty() && s.chance(1, 6)) {
				pair_rank = map->keys[s.u((uint32_t)map->keys.size() - 1)];
				pair = map->ops->lookup(map->map, elem_new(elem_val(map->m[pair_rank].key)));
				s.note("keep the pair found for %s", elem_str(map->m[pair_rank].key).c_str());
				CHECK(pair, "lookup did not find the stored key %s", elem_str(map->m[pair_rank].key).c_str());
				check_pair();
				return;
			}
			stale_iters();
			if (bulk_ok && s.chance(1, 12))
				map->bulk(s, bulk);
			else
				map->step(s);
		} else if (buf) {
			if (fd_ok && s.chance(1, 10))
				fd_fill(s);
			else
				buf->step(s);
		} else {
			pool->step(s, 60);
		}
	}

	void check_pair()
	{
		if (!pair)
			return;
		const MapOps *o = map->ops;
		const MapMachine::Entry &e = map->m[pair_rank];
		CHECK(o->pair_key(pair) == e.key && o->pair_key_m(pair) == e.key, "the pair found for %s shows another key", elem_str(e.key).c_str());
		CHECK(o->pair_value(pair) == e.value && o->pair_value_m(pair) == e.value, "the pair found for %s shows another value", elem_str(e.key).c_str());
	}

	void check(Src &s, bool deep)
	{
		if (seq) {
			seq->check();
		} else if (line) {
			line->check();
		} else if (map) {
			map->check_light(s);
			check_pair();
			if (deep) {
				pair = nullptr;
				map->audit();
			}
			if (map->own_storage)
				map->st.check("map");
			for (Iter &i : it)
				if (i.st.raw)
					i.st.check("iterator");
		} else if (buf) {
			buf->check();
			if (deep)
				buf->do_to_string();
		} else {
			pool->verify_all("by an operation on another instance");
		}
		if (sh.box.track())
			track_check(sh.box.track());
	}

	void destroy(Src &s)
	{
		s.note("destroy the %s (%zu elements)", TNAME[type], size());
		pair = nullptr;
		drop_iters();
		for (Iter &i : it)
			i.st.destroy();
		if (seq)
			seq->destroy(s);
		else if (line)
			line->destroy(s);
		else if (map)
			map->destroy(s);
		else if (buf)
			buf->destroy(s);
		else
			pool->destroy(s);
		if (sh.box.track())
			CHECK(sh.box.track()->live == 0, "%zu nodes were not given back to the pool", sh.box.track()->live);
		sh.box.destroy();
	}
	void init_again(Src &s)
	{
		pair = nullptr;
		drop_iters();
		if (seq)
			seq->init_again(s);
		else if (line)
			line->init_again(s);
		else if (map)
			map->init_again(s);
		else if (buf && buf->own_storage)
			buf->init_again(s);
	}
};

Type draw_type(Src &s, uint32_t n = NTYPES) { return (Type)s.u(n - 1); }

// ------------------------------------------------------------------ C29

std::unique_ptr<Inst> g_inst; // outlives the jump out of abort()

void c29_script(Src &s, uint32_t mean)
{
	cx_reset();
	cx_draw(s, true);
	vt_garbage((uint8_t)s.u(255));
	g_inst.reset(new Inst);
	Inst *inst = g_inst.get();
	Type t = draw_type(s);
	auto intact = [&](const char *what) {
		CHECK(!vt_refused(), "%s: the library went on after a memory request had been refused", what);
	};
	inst->create(s, t, 2, true, false);
	intact(TNAME[t]);
	inst->bulk = s.chance(1, 4) ? 100 : 20;
	if (s.chance(1, 40)) {
		inst->bulk = s.chance(1, 3) ? 1500 : 400;
		s.label("histories with hundreds of entries");
		if (inst->map) {
			inst->map->bulk(s, inst->bulk);
			intact(TNAME[t]);
		}
	}
	while (s.more(mean)) {
		inst->step(s);
		intact(TNAME[t]);
		if (inst->map && s.chance(1, 8)) {
			inst->map->audit(); // iterates
			intact(TNAME[t]);
		}
	}
	inst->destroy(s);
	intact(TNAME[t]);
}

void c29(Src &s)
{
	std::vector<uint32_t> v;
	uint32_t mean = 4 + s.u(26);
	s.tap = &v;
	c29_script(s, mean);
	s.tap = nullptr;
	uint64_t r = vt_requests();
	std::vector<uint64_t> ks;
	uint64_t all = g_thorough ? 1500 : 120;
	if (r <= all) {
		for (uint64_t k = 1; k <= r; ++k)
			ks.push_back(k);
		s.label("every request of the history refused");
	} else {
		for (uint64_t k = 1; k <= 20; ++k) {
			ks.push_back(k);
			ks.push_back(r - k + 1);
		}
		for (uint64_t k = 40; k < all; ++k)
			ks.push_back(1 + s.u((uint32_t)r - 1));
	}
	s.note("%llu memory requests", (unsigned long long)r);
	for (uint64_t k : ks) {
		vt_reset();
		sim::reset();
		close_fds();
		Src in;
		in.mode = Src::REPLAY;
		in.in = v.data();
		in.nin = v.size();
		s.note("refusing request %llu", (unsigned long long)k);
		jmp_buf env;
		if (setjmp(env) == 0) {
			vt_abort_env = &env;
			vt_fail_at(k);
			c29_script(in, mean);
			if (vt_refused_soft())
				continue;
			fail("request %llu of %llu was refused, but the history went on to its end", (unsigned long long)k, (unsigned long long)r);
		}
		vt_abort_env = nullptr;
		CHECK(vt_refused() || vt_refused_soft(), "the library called abort() although no request had been refused");
		vt_check_all();
	}
	vt_reset();
	sim::reset();
	close_fds();
	g_inst.reset();
	if (r >= 5)
		s.nontrivial();
}

// ------------------------------------------------------------------ C30

void c30(Src &s)
{
	cx_reset();
	cx_draw(s, true);
	cx.watch_freed = true;
	vt_garbage((uint8_t)s.u(255));
	std::vector<std::unique_ptr<Inst>> v;
	int profile = (int)s.w({2, 3, 1}); // mixed, few types, one type
	Type a = draw_type(s), b = draw_type(s);
	size_t most = 2 + s.u(6);
	bool crowd = s.chance(1, 400);
	size_t start = crowd ? 3 + s.u(s.chance(1, 3) ? 297 : 60) : 2;
	auto add = [&]() {
		Type t = profile == 0 ? draw_type(s) : profile == 1 ? (s.chance(1, 2) ? a : b) : a;
		v.emplace_back(new Inst);
		v.back()->create(s, t, 2, true, true);
		v.back()->bulk = s.chance(1, 6) ? 300 : 20;
		s.note("[%zu] created (%s)", v.size() - 1, TNAME[t]);
	};
	while (v.size() < start) {
		add();
		for (uint32_t n = crowd ? s.u(6) : 0; n; --n)
			v.back()->step(s);
	}
	unsigned busy = 0, destroyed = 0, pairs = 0;
	size_t prev = SIZE_MAX;
	while (s.more(50)) {
		size_t op = s.w({24, 2, 1, 2});
		if (op == 1 && v.size() < most) {
			add();
		} else if (op == 2 && v.size() > 1) {
			size_t i = s.u((uint32_t)v.size() - 1);
			s.note("[%zu]", i);
			v[i]->destroy(s);
			v.erase(v.begin() + (long)i);
			++destroyed;
		} else if (op == 3) {
			size_t i = s.u((uint32_t)v.size() - 1);
			s.note("[%zu] everything is still there", i);
			v[i]->check(s, true);
			continue;
		} else {
			size_t i = s.u((uint32_t)v.size() - 1);
			s.note("[%zu] %s", i, TNAME[v[i]->type]);
			v[i]->step(s);
			if (i != prev)
				++busy;
			prev = i;
		}
		for (auto &x : v) {
			pairs += x->pair != nullptr;
			if (!crowd)
				x->check(s, false);
		}
	}
	for (auto &x : v)
		x->check(s, true);
	if (crowd)
		s.label("up to hundreds of instances");
	if (pairs)
		s.label("pair kept over operations elsewhere");
	unsigned its = 0;
	for (auto &x : v)
		its += x->iterations;
	if (its)
		s.label("iteration completed among operations elsewhere");
	if (destroyed)
		s.label("instances destroyed in between");
	if (busy >= 6)
		s.nontrivial();
	while (!v.empty()) {
		v.back()->destroy(s);
		v.pop_back();
		if (crowd && !v.empty())
			std::swap(v.back(), v[s.u((uint32_t)v.size() - 1)]);
		for (size_t i = crowd && !v.empty() ? v.size() - 1 : 0; i < v.size(); ++i)
			v[i]->check(s, true);
	}
	vt_check_all();
}

// ------------------------------------------------------------------ C31

void c31(Src &s)
{
	cx_reset();
	cx_draw(s, true);
	cx.watch_freed = true;
	vt_garbage((uint8_t)s.u(255));
	Type t = draw_type(s, T_POOL);
	Inst a;
	a.create(s, t, 1, true, true);
	a.bulk = s.chance(1, 4) ? 300 : 30;
	unsigned cycles = 0, used = 0;
	s.label(TNAME[t]);
	a.check(s, true);
	while (s.more(40)) {
		if (s.chance(1, 8)) {
			used += a.size() > 0;
			a.init_again(s);
			++cycles;
		} else {
			a.step(s);
		}
		a.check(s, a.size() <= 20);
	}
	a.check(s, true);
	if (a.size() && cycles && used)
		s.nontrivial();
	if (a.iterations)
		s.label("iterator in caller storage");
	a.destroy(s);
	CHECK(vt_live_blocks() == 0, "%s: freeing it released its contents except for %zu blocks (%zu bytes)", TNAME[t], vt_live_blocks(), vt_live_bytes());
	vt_check_all();
}

// ------------------------------------------------------------------ C32

void c32(Src &s)
{
	if (deep_tree(s, 0))
		return;
	cx_reset();
	cx_draw(s, true);
	cx.coarse = 1;
	Type t = draw_type(s);
	auto inst = std::unique_ptr<Inst>(new Inst);
	Inst &a = *inst;
	a.create(s, t, 2, false, false);
	if (a.buf)
		a.buf->oracles = B_STREAM;
	if (a.pool) {
		a.pool->reuse = true;
		a.pool->account = true;
	}
	a.bulk = s.chance(1, 6) ? 1500 : s.chance(1, 3) ? 200 : 20;
	size_t table = a.map && a.map->ops->uses_hash ? a.map->cfg.size : 0;
	size_t peak = 0;
	uint64_t inserted = 0;
	s.label(TNAME[t]);
	auto measure = [&]() {
		peak = std::max(peak, a.buf ? a.buf->peak : a.pool ? a.pool->peak : a.map ? a.map->peak : a.size());
		size_t held = vt_live_bytes(), n = vt_live_blocks(), most;
		if (a.pool)
			return; // it measures itself
		if (a.buf)
			most = 512 + 8 * peak;
		else if (a.map && t == T_HASH)
			most = 16384 + 8 * table + 128 * peak;
		else if (a.map && t == T_TREE)
			most = 512 + 96 * peak + 2 * 32 * (std::max(peak, a.iter_peak) + 8);
		else
			most = 512 + 64 * peak;
		CHECK(held <= most, "%s: %zu bytes in %zu blocks are held, but never more than %zu %s were stored at once", TNAME[t], held, n, peak, a.buf ? "bytes (or room asked for)" : "elements");
	};
	// cycles over a few keys or elements, many times
	auto churn = [&]() {
		uint32_t n = 1 + s.u(12), times = 1 + s.u(g_thorough ? 3000 : 400);
		size_t how = s.u(3);
		s.note("%u cycles over %u elements (%zu)", times, n, how);
		if (a.map)
			a.stale_iters();
		a.pair = nullptr;
		std::vector<void *> e;
		bool owned = (a.seq && a.seq->has_free) || (a.line && a.line->has_free) || (a.map && a.map->has_fk);
		for (uint32_t i = 0; i < n; ++i)
			e.push_back(elem_new((int32_t)(100 + i)));
		for (uint32_t k = 0; k < times; ++k) {
			for (uint32_t i = 0; i < n; ++i) {
				void *d = owned ? elem_new((int32_t)(100 + i)) : e[i];
				if (a.seq)
					how & 1 ? a.seq->do_append(d) : a.seq->do_prepend(d);
				else if (a.line)
					a.line->do_push(d);
				else if (a.map)
					a.map->set(d, a.map->has_fv ? nullptr : e[i], how & 1);
				else if (a.buf)
					a.buf->do_fill(std::string(1 + (i * 7 + k) % 40, 'q') + "\n");
				else
					a.pool->alloc();
				++inserted;
			}
			peak = std::max(peak, a.size());
			for (uint32_t i = 0; i < n; ++i) {
				if (a.seq)
					how == 0 ? a.seq->do_pop() : how == 1 ? a.seq->do_remove(a.seq->m.size() - 1) : a.seq->do_remove(how == 2 ? 0 : a.seq->m.size() / 2);
				else if (a.line) {
					if (how < 3)
						a.line->do_pop(s);
				} else if (a.map) {
					if (how < 3)
						a.map->remove(e[i]);
				} else if (a.buf) {
					if (how < 2)
						a.buf->do_read(s, true);
				} else {
					a.pool->release(how == 0 ? a.pool->live.size() - 1 : 0);
				}
			}
			if (a.line && how == 3)
				a.line->do_clear();
			if (a.map && how == 3)
				k & 1 ? a.map->clear() : (void)a.map->audit();
			if (a.map && how == 2) {
				a.stale_iters();
				a.iter_op(s);
			}
			if (a.buf && how >= 2)
				how == 2 ? a.buf->do_to_string(), a.buf->do_clear() : (a.buf->do_read(s, false), a.buf->do_clear());
			measure();
		}
	};
	measure();
	while (s.more(40)) {
		if (s.chance(1, 8))
			churn();
		else if (s.chance(1, 30))
			a.init_again(s);
		else {
			a.step(s);
			++inserted;
		}
		measure();
	}
	if (inserted > 20 * (peak + 1))
		s.label("20 times more insertions than the peak");
	if (inserted > 200 * (peak + 1))
		s.label("200 times more insertions than the peak");
	if (inserted >= 20 && peak >= 2)
		s.nontrivial();
	a.destroy(s);
	CHECK(vt_live_blocks() == 0, "%s: destroying it left %zu blocks (%zu bytes) allocated", TNAME[t], vt_live_blocks(), vt_live_bytes());
	vt_check_all();
}

// ------------------------------------------------------------------ C35

// An instance with callbacks (orders, free functions, ...) of its own.
struct Own {
	Inst inst;
	Ctx ctx;
	bool busy = false, alive = false;
	void enter() { std::swap(cx, ctx); }
	void leave() { std::swap(cx, ctx); }
	void create(Src &s, Type t, uint32_t bulk)
	{
		enter();
		cx_draw(s, true);
		cx.native = false; // callbacks are what this is about
		cx.watch_freed = true;
		inst.create(s, t, 2, true, true);
		inst.bulk = bulk;
		alive = true;
		leave();
	}
};

struct Nest {
	Src *s = nullptr;
	std::vector<std::unique_ptr<Own>> v;
	unsigned depth = 0, max_depth = 1, nested = 0, twice = 0;
	uint32_t den = 4, left = 0;
} *g_nest;

void nest_hook()
{
	Nest &n = *g_nest;
	if (n.depth >= n.max_depth || n.left == 0)
		return;
	Src &s = *n.s;
	if (!s.chance(1, n.den))
		return;
	size_t k = s.u((uint32_t)n.v.size() - 1);
	Own &o = *n.v[k];
	if (o.busy || !o.alive)
		return;
	--n.left;
	++n.depth;
	++n.nested;
	if (n.depth > 1)
		++n.twice;
	s.note("  within the callback: [%zu] %s", k, TNAME[o.inst.type]);
	o.busy = true;
	o.enter();
	o.inst.step(s);
	o.inst.check(s, false);
	o.leave();
	o.busy = false;
	--n.depth;
}

void c35(Src &s)
{
	cx_reset();
	vt_garbage((uint8_t)s.u(255));
	Nest n;
	g_nest = &n;
	n.s = &s;
	n.max_depth = 1 + s.u(2);
	static const uint32_t D[] = {4, 2, 12, 40};
	n.den = D[s.u(3)];
	size_t k = 2 + s.u(3);
	int profile = (int)s.w({3, 2, 1}); // mixed, two types, one type
	Type a = draw_type(s), b = draw_type(s);
	for (size_t i = 0; i < k; ++i) {
		n.v.emplace_back(new Own);
		Type t = profile == 0 ? draw_type(s) : profile == 1 ? (i & 1 ? b : a) : a;
		s.note("[%zu] created (%s)", i, TNAME[t]);
		n.v.back()->create(s, t, 12);
	}
	cx_hook = nest_hook;
	auto with = [&](size_t i, bool alive, auto f) {
		Own &o = *n.v[i];
		o.busy = true;
		o.alive = alive;
		n.left = 6;
		o.enter();
		f(o.inst);
		o.leave();
		o.busy = false;
	};
	while (s.more(40)) {
		size_t i = s.u((uint32_t)k - 1);
		s.note("[%zu] %s", i, TNAME[n.v[i]->inst.type]);
		with(i, true, [&](Inst &x) {
			x.step(s);
			x.check(s, false);
		});
	}
	for (size_t i = 0; i < k; ++i)
		with(i, true, [&](Inst &x) { x.check(s, true); });
	for (size_t i = 0; i < k; ++i) {
		s.note("[%zu]", i);
		with(i, false, [&](Inst &x) { x.destroy(s); });
		for (size_t j = i + 1; j < k; ++j)
			with(j, true, [&](Inst &x) { x.check(s, true); });
	}
	cx_hook = nullptr;
	g_nest = nullptr;
	CHECK(vt_live_blocks() == 0, "%zu blocks are left after the destruction of all containers", vt_live_blocks());
	if (n.nested >= 5)
		s.nontrivial();
	if (n.twice)
		s.label("callbacks within callbacks");
	vt_check_all();
}

// ------------------------------------------------------------------ C36

std::vector<std::unique_ptr<Own>> *g_own;
void own_switch(int f) { (*g_own)[(size_t)f]->enter(); } // entering and leaving are the same

void c36(Src &s)
{
	cx_reset();
	vt_garbage((uint8_t)s.u(255));
	std::vector<std::unique_ptr<Own>> v;
	size_t k = 2 + s.u(2);
	int profile = (int)s.w({2, 2, 3}); // mixed, two types, one type
	Type a = draw_type(s), b = draw_type(s);
	uint32_t mean = 6 + s.u(20);
	for (size_t i = 0; i < k; ++i) {
		v.emplace_back(new Own);
		Type t = profile == 0 ? draw_type(s) : profile == 1 ? (i & 1 ? b : a) : a;
		s.note("thread %zu: %s", i, TNAME[t]);
		v[i]->inst.fd_ok = false;
		v[i]->create(s, t, s.chance(1, 4) ? 40 : 10);
	}
	// keys for the hash and comparison functions, with the results of one thread alone
	struct { const void *p[4]; uint32_t h[4]; char str[4][12]; uint32_t sh[4]; } keys;
	for (int i = 0; i < 4; ++i) {
		keys.p[i] = (const void *)(uintptr_t)(s.chance(1, 3) ? s.u64() : 1 + s.u(1000));
		keys.h[i] = shim_direct_hash(keys.p[i]);
		for (int j = 0; j < 12; ++j)
			keys.str[i][j] = j < 11 && !s.chance(1, 6) ? (char)(1 + s.u(254)) : 0;
		keys.sh[i] = shim_str_hash(keys.str[i]);
	}
	g_own = &v;
	sim::no_limit();
	sim::begin(s, false, false);
	sim::on_switch(own_switch);
	sim::races(true);
	unsigned ops = 0;
	for (size_t i = 0; i < k; ++i)
		sim::spawn([&, i]() {
			Inst &x = v[i]->inst;
			while (s.more(mean)) {
				s.note("thread %zu", i);
				++ops;
				if (s.chance(1, 8)) {
					s.note("hash and compare");
					int a = (int)s.u(3), b = (int)s.u(3);
					char mine[2][12];
					memcpy(mine[0], keys.str[a], 12);
					memcpy(mine[1], keys.str[b], 12);
					CHECK(shim_direct_hash(keys.p[a]) == keys.h[a], "a pointer has another hash now");
					CHECK(shim_str_hash(mine[0]) == keys.sh[a], "a string has another hash now");
					int d = strcmp(mine[0], mine[1]), e = shim_str_compare(mine[0], mine[1]);
					CHECK((d < 0) == (e < 0) && (d > 0) == (e > 0) && shim_str_equal(mine[0], mine[1]) == !d, "strings compare differently now");
					e = shim_direct_compare(keys.p[a], keys.p[b]);
					CHECK((keys.p[a] < keys.p[b]) == (e < 0) && (keys.p[a] > keys.p[b]) == (e > 0), "pointers compare differently now");
					CHECK(shim_direct_equal(keys.p[a], keys.p[b]) == (keys.p[a] == keys.p[b]), "pointers are equal differently now");
					continue;
				}
				x.step(s);
				x.check(s, false);
			}
			x.check(s, true);
		});
	CHECK(sim::run() == sim::DONE, "a thread with a container of its own is blocked forever");
	uint64_t sw = sim::switches();
	sim::end();
	sim::races(false);
	sim::on_switch(nullptr);
	for (size_t i = 0; i < k; ++i) {
		v[i]->enter();
		v[i]->inst.destroy(s);
		v[i]->leave();
	}
	g_own = nullptr;
	if (ops >= 6 && sw >= 6)
		s.nontrivial();
	if (profile == 2 || (profile == 1 && a == b))
		s.label("all of one type");
	if (sim::preemptions() >= 10)
		s.label("10 or more preemptions within operations");
	vt_check_all();
}

// ------------------------------------------------------------------ C38

// what one thread reads of a container that nobody changes
void read_some(Src &s, Inst &x, char **dst, size_t *dlen)
{
	cx.budget = UINT64_MAX;
	if (x.seq) {
		SeqMachine &q = *x.seq;
		const SeqOps *o = q.ops;
		void *l = q.list;
		size_t n = q.m.size();
		switch (s.u(4)) {
		case 0: {
			CHECK(o->count(l) == n, "count is not %zu", n);
			CHECK(o->empty(l) == (n == 0), "emptiness is wrong with %zu elements", n);
			CHECK(o->head(l) == (n ? q.m[0].item : nullptr), "the head is wrong");
			if (o->is_double)
				CHECK(o->tail(l) == (n ? q.m.back().item : nullptr), "the tail is wrong");
			break;
		}
		case 1: {
			size_t i = 0;
			for (void *it = o->head(l); it; it = o->next(it), ++i)
				CHECK(i < n && it == q.m[i].item && o->data(it) == q.m[i].data, "a walk yields a wrong item at position %zu", i);
			CHECK(i == n, "a walk yields %zu of %zu items", i, n);
			break;
		}
		case 2: {
			void *d = q.probe(s);
			bool want = false;
			for (auto &e : q.m)
				want = want || mcmp(e.data, d) == 0;
			CHECK(o->contains(l, d) == want, "contains says %d", (int)!want);
			break;
		}
		default: {
			void *d = q.probe(s);
			size_t from = n && s.chance(1, 2) ? s.u((uint32_t)n - 1) : 0;
			void *off = from ? q.m[from].item : nullptr;
			void *r = o->find(l, off, d);
			bool want = false, good = !r;
			for (size_t i = from; i < n; ++i)
				if (mcmp(q.m[i].data, d) == 0) {
					want = true;
					if (q.m[i].item == r)
						good = true;
				}
			CHECK(want == (r != nullptr) && good, "find returns %s", r ? "a wrong item" : "nothing");
		}
		}
	} else if (x.line) {
		LineMachine &q = *x.line;
		CHECK(q.ops->count(q.q) == q.m.size(), "count is not %zu", q.m.size());
		if (q.ops->head) {
			void *d = (void *)1;
			bool ok = q.ops->head(q.q, &d);
			CHECK(ok == !q.m.empty() && (!ok || d == q.m.front()), "a look at the head is wrong");
		}
	} else if (x.map) {
		MapMachine &q = *x.map;
		const MapOps *o = q.ops;
		switch (s.u(2)) {
		case 0:
			CHECK(o->count(q.map) == q.m.size(), "count is not %zu", q.m.size());
			if (q.oracles & M_SORTED)
				CHECK(o->capacity(q.map) >= q.m.size(), "the capacity is below the count");
			break;
		case 1: {
			void *k = q.any_key(s);
			bool want = q.m.count(rank_of(k));
			CHECK(o->exists(q.map, k) == want, "key_exists says %d for %s", (int)!want, elem_str(k).c_str());
			break;
		}
		default: {
			std::vector<char> it(o->iter_size);
			std::unordered_map<int64_t, int> seen;
			o->iter_init(q.map, it.data());
			for (int round = 0; round < 2; ++round) {
				size_t n = 0;
				seen.clear();
				while (o->iter_next(it.data())) {
					void *k = o->iter_key(it.data()), *v = o->iter_value(it.data());
					auto e = q.m.find(rank_of(k));
					CHECK(e != q.m.end() && e->second.key == k && e->second.value == v && !seen[rank_of(k)]++, "iteration yields a wrong entry");
					++n;
				}
				CHECK(n == q.m.size(), "iteration yields %zu of %zu entries", n, q.m.size());
				if (s.chance(1, 2))
					break;
				o->iter_reuse(q.map, it.data());
			}
			o->iter_free(it.data());
		}
		}
	} else {
		BufMachine &q = *x.buf;
		switch (s.u(2)) {
		case 0:
			CHECK(shim_buffer_is_valid(q.b) == q.valid, "validity is wrong");
			if (q.valid)
				CHECK(shim_buffer_len(q.b) == q.m.size() && shim_buffer_is_empty(q.b) == q.m.empty(), "the length is wrong");
			break;
		case 1: {
			bool ok = shim_buffer_flush(q.b, dst, dlen);
			CHECK(ok == (q.valid && !q.m.empty()), "flush reports %d", (int)ok);
			CHECK(!ok || !memcmp(*dst, q.m.c_str(), q.m.size() + 1), "flush yields other bytes");
			break;
		}
		default: {
			char *p = shim_buffer_to_string(q.b);
			CHECK(q.m.empty() || !q.valid || (p && !memcmp(p, q.m.c_str(), q.m.size() + 1)), "to_string yields other bytes");
			vt_free(p);
		}
		}
	}
}

std::vector<Ctx> *g_ctx;
void ctx_switch(int f) { std::swap(cx, (*g_ctx)[(size_t)f]); }

void c38(Src &s)
{
	cx_reset();
	cx_draw(s, true);
	vt_garbage((uint8_t)s.u(255));
	Inst x;
	x.fd_ok = false;
	Type t = draw_type(s, T_POOL);
	x.create(s, t, 2, true, true);
	unsigned ops = 0;
	uint64_t sw = 0, pre = 0;
	bool filled = false;
	for (int round = 0; round < 2; ++round) {
		while (s.more(15)) {
			x.step(s);
			x.check(s, false);
		}
		x.drop_iters();
		x.pair = nullptr;
		filled = filled || x.size() >= 2;
		size_t k = 2 + s.u(1);
		s.note("%zu threads read the %s with %zu elements", k, TNAME[t], x.size());
		std::vector<Ctx> ctx(k, cx);
		struct { char *p = nullptr; size_t n = 0; } dst[3];
		g_ctx = &ctx;
		uint32_t mean = 3 + s.u(5);
		sim::no_limit();
		sim::begin(s, false, false);
		sim::on_switch(ctx_switch);
		sim::races(true);
		for (size_t i = 0; i < k; ++i)
			sim::spawn([&, i]() {
				while (s.more(mean)) {
					s.note("thread %zu reads", i);
					read_some(s, x, &dst[i].p, &dst[i].n);
					++ops;
				}
			});
		CHECK(sim::run() == sim::DONE, "a reading thread is blocked forever");
		sw = sim::switches();
		pre = sim::preemptions();
		sim::end();
		sim::races(false);
		sim::on_switch(nullptr);
		g_ctx = nullptr;
		for (auto &d : dst)
			vt_free(d.p);
		x.check(s, true);
		if (s.chance(1, 2))
			break;
	}
	x.destroy(s);
	if (filled && ops >= 4 && sw >= 4)
		s.nontrivial();
	if (pre >= 4)
		s.label("4 or more preemptions within operations");
	vt_check_all();
}

// ------------------------------------------------------------------ C39

void c39(Src &s)
{
	cx_reset();
	cx_draw(s, false);
	cx_wild(s);
	cx_native(s);
	vt_garbage((uint8_t)s.u(255));
	Inst x;
	x.bulk = 30;
	Type t = draw_type(s, T_BUFFER);
	x.create(s, t, 2, true, true);
	if (s.chance(1, 4)) {
		// the addresses of the container itself, or of its nodes
		void *at = x.seq ? x.seq->list : x.line ? x.line->q : x.map->map;
		if (x.sh.box.type != PoolBox::NONE && s.chance(1, 2)) {
			at = shim_pool_alloc(x.sh.box.pool);
			shim_pool_free(x.sh.box.pool, at);
		}
		cx.wa = 1;
		cx.wb = (uintptr_t)at - s.u(12);
		s.label("the container's own addresses");
	}
	s.note("%s of pointers 0x%llx * i + 0x%llx", TNAME[t], (unsigned long long)cx.wa, (unsigned long long)cx.wb);
	size_t most = 0;
	while (s.more(40)) {
		x.step(s);
		x.check(s, false);
		most = std::max(most, x.size());
	}
	x.check(s, true);
	x.destroy(s);
	if (most >= 3 && x.steps >= 6)
		s.nontrivial();
	vt_check_all();
}

// ------------------------------------------------------------------ C40

void functions(Src &s);

void c40(Src &s)
{
	switch (s.w({6, 4, 4, 3, 1, 4})) {
	case 0: c30(s); break;
	case 1: c31(s); break;
	case 2: c35(s); break;
	case 3: c39(s); break;
	case 5: async_case(s); break;
	default:
		if (s.chance(1, 20))
			c32(s);
		else
			c30(s);
	}
	functions(s);
}

// ------------------------------------------------------------------ C42

// Nothing here is particular to a build: it is the library that is compiled in other ways.
void c42(Src &s)
{
	c40(s);
}

// ------------------------------------------------------------------ C41

// What the process consists of besides the objects of the library.
struct World {
	int fd, umask_, prio, round;
	struct sigaction sa[65];
	sigset_t mask;
	stack_t alt;
	uint64_t handlers;
	char name[32];
	std::string locale, cwd, env;
	struct itimerval timer[3];
	struct rlimit lim[3];
	nlink_t threads;
	static const int RL[3];
	static int lowest()
	{
		int f = fcntl(0, F_DUPFD, 0);
		if (f >= 0)
			close(f);
		return f;
	}
	void take()
	{
		fd = lowest();
		umask_ = (int)umask(077);
		umask((mode_t)umask_);
		prio = getpriority(PRIO_PROCESS, 0);
		round = fegetround();
		memset(sa, 0, sizeof sa);
		for (int i = 1; i < 65; ++i)
			sigaction(i, nullptr, &sa[i]);
		sigemptyset(&mask);
		sigprocmask(SIG_BLOCK, nullptr, &mask);
		sigaltstack(nullptr, &alt);
		handlers = vt_handlers;
		memset(name, 0, sizeof name);
		prctl(PR_GET_NAME, name);
		locale = setlocale(LC_ALL, nullptr);
		char b[4096];
		cwd = getcwd(b, sizeof b) ? b : "";
		env.clear();
		for (char **e = environ; *e; ++e)
			env += std::string(*e) + "\n";
		for (int i = 0; i < 3; ++i) {
			getitimer((__itimer_which)i, &timer[i]);
			getrlimit((__rlimit_resource)RL[i], &lim[i]);
		}
		struct stat st;
		threads = stat("/proc/self/task", &st) ? 0 : st.st_nlink;
	}
};
const int World::RL[3] = {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_DATA};

// The functions on strings and pointers, on two related strings.
void functions(Src &s)
{
	std::string a, b;
	auto some = [&](std::string &d, uint32_t n) {
		while (n--)
			switch (s.w({4, 2, 2})) {
			case 0: d += (char)('a' + s.u(3)); break;
			case 1: d += (char)(1 + s.u(254)); break;
			default: d += s.chance(1, 2) ? "\xc3\xa4" : "%s"; break;
			}
	};
	some(a, s.u(s.chance(1, 20) ? 300 : 8));
	b = a.substr(0, s.u((uint32_t)a.size()));
	some(b, s.u(3));
	if (s.chance(1, 2))
		a.swap(b);
	s.note("compare and hash %zu and %zu bytes", a.size(), b.size());
	CHECK(shim_str_equal(a.c_str(), b.c_str()) == (a == b), "str_equal is wrong");
	CHECK(shim_str_equal(a.c_str(), a.c_str()) && shim_str_equal(a.c_str(), std::string(a).c_str()), "a string does not equal itself");
	CHECK((shim_str_compare(a.c_str(), b.c_str()) < 0) == (a < b), "str_compare is wrong");
	CHECK(shim_str_hash(a.c_str()) == shim_str_hash(std::string(a).c_str()), "str_hash is wrong");
	void *p = (void *)(uintptr_t)(s.u(1000) + 1), *q = (void *)(uintptr_t)(s.u(1000) + 1);
	CHECK((shim_direct_compare(p, q) < 0) == (p < q) && shim_direct_equal(p, q) == (p == q) && shim_direct_equal(p, p) && !shim_direct_compare(p, p), "direct_compare or direct_equal is wrong");
	shim_direct_hash(p);
}

void c41(Src &s)
{
	static int out = -1, err = -1;
	if (out < 0) { // what is printed is caught; the engine prints nothing here
		out = memfd_create("out", MFD_CLOEXEC);
		err = memfd_create("err", MFD_CLOEXEC);
		if (out < 0 || err < 0 || dup2(out, 1) < 0 || dup2(err, 2) < 0)
			harness_error("memfd: %s", strerror(errno));
	}
	fflush(stdout);
	for (int f : {1, 2})
		if (ftruncate(f, 0) || lseek(f, 0, SEEK_SET))
			harness_error("memfd: %s", strerror(errno));
	cx_reset();
	cx_draw(s, true);
	vt_garbage((uint8_t)s.u(255));
	unsigned seed = (unsigned)s.u(60000) + 1;
	srand(seed);
	int next_rand = rand();
	srand(seed);
	srand48(seed);
	long next_48 = lrand48();
	srand48(seed);
	char words[] = "one two three";
	strtok(words, " ");
	static World before, after;
	before.take();

	size_t k = 1 + s.u(2), most = 0;
	std::vector<std::unique_ptr<Inst>> v;
	bool silent = true;
	for (size_t i = 0; i < k; ++i) {
		Type t = draw_type(s);
		v.emplace_back(new Inst);
		v.back()->create(s, t, 2, true, true);
		v.back()->bulk = s.chance(1, 10) ? 400 : 20;
		s.note("[%zu] created (%s)", i, TNAME[t]);
	}
	unsigned steps = 0;
	while (s.more(30)) {
		size_t i = s.u((uint32_t)k - 1);
		s.note("[%zu]", i);
		if (v[i]->buf && s.chance(1, 10))
			v[i]->fd_nothing(s);
		else
			v[i]->step(s);
		most = std::max(most, v[i]->size());
		++steps;
		if (s.chance(1, 4))
			functions(s);
	}
	for (auto &x : v) {
		x->check(s, true);
		x->destroy(s);
		if (x->buf && x->buf->n_reject)
			silent = false; // the reason is printed
	}

	CHECK(rand() == next_rand, "the library uses the random numbers of the program (rand)");
	CHECK(lrand48() == next_48, "the library uses the random numbers of the program (lrand48)");
	char *w = strtok(nullptr, " ");
	CHECK(w == words + 4 && !strcmp(w, "two"), "the library disturbs the program's use of strtok");
	after.take();
	CHECK(after.fd == before.fd, "the library left a descriptor open, or closed one (%d is the next, not %d)", after.fd, before.fd);
	CHECK(after.umask_ == before.umask_ && after.prio == before.prio && after.round == before.round, "the library changed the umask, priority or rounding");
	for (int i = 1; i < 65; ++i)
		CHECK(after.sa[i].sa_handler == before.sa[i].sa_handler && after.sa[i].sa_flags == before.sa[i].sa_flags, "the library changed the handling of signal %d", i);
	for (int i = 1; i < 65; ++i)
		CHECK(sigismember(&after.mask, i) == sigismember(&before.mask, i), "the library changed the signal mask (signal %d)", i);
	CHECK(after.alt.ss_sp == before.alt.ss_sp && after.alt.ss_flags == before.alt.ss_flags, "the library changed the signal stack");
	CHECK(after.handlers == before.handlers, "the library registered a function for the end of the process or a fork");
	CHECK(!strcmp(after.name, before.name), "the library renamed the thread");
	CHECK(after.locale == before.locale, "the library changed the locale to %s", after.locale.c_str());
	CHECK(after.cwd == before.cwd, "the library changed the working directory");
	CHECK(after.env == before.env, "the library changed the environment");
	for (int i = 0; i < 3; ++i) {
		CHECK(!memcmp(&after.timer[i].it_interval, &before.timer[i].it_interval, sizeof(struct timeval))
		      && (after.timer[i].it_value.tv_sec || after.timer[i].it_value.tv_usec) == (before.timer[i].it_value.tv_sec || before.timer[i].it_value.tv_usec),
		      "the library left a timer running");
		CHECK(after.lim[i].rlim_cur == before.lim[i].rlim_cur && after.lim[i].rlim_max == before.lim[i].rlim_max, "the library changed a resource limit");
	}
	CHECK(after.threads == before.threads, "the library left a thread running");
	errno = 0;
	CHECK(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "the library left a child process");
	fflush(stdout);
	struct stat st;
	CHECK(fstat(1, &st) == 0 && st.st_size == 0, "the library printed %ld bytes on the standard output", (long)st.st_size);
	fflush(stderr);
	CHECK(!silent || (fstat(2, &st) == 0 && st.st_size == 0), "the library printed %ld bytes on the standard error output although nothing failed", (long)st.st_size);
	if (steps >= 6 && most >= 2)
		s.nontrivial();
	vt_check_all();
}

} // namespace

PROPERTY(C29, c29, "an operation history on one instance of a drawn type, run again with each memory request refused in turn; non-trivial: at least 5 requests", 150000, 4500000, 20000, 650000);
PROPERTY(C30, c30, "an interleaved history over several instances of drawn types; non-trivial: at least 6 changes of the instance", 300000, 9000000, 70000, 2000000);
PROPERTY(C31, c31, "init/use/free cycles of one instance in caller-provided storage; non-trivial: a cycle after use and elements at the end", 400000, 10000000, 90000, 3000000);
PROPERTY(C32, c32, "a long history with many cycles on one instance; non-trivial: at least 20 insertions and 2 elements at once", 10000, 400000, 2500, 95000);
PROPERTY(C35, c35, "an interleaved history over 2-5 instances whose callbacks operate on other instances; non-trivial: at least 5 operations within callbacks", 250000, 7000000, 50000, 1500000);
PROPERTY(C36, c36, "2-4 threads, each with a container of its own, under a drawn schedule with race detection; non-trivial: at least 6 operations and 6 switches", 100000, 3000000, 0, 0);
PROPERTY(C38, c38, "2-3 threads reading one container that was built by a drawn history, under a drawn schedule with race detection; non-trivial: 2 elements, 4 reads and 4 switches", 100000, 3000000, 0, 0);
PROPERTY(C40, c40, "one of the histories of C25 to C28, C30, C31, C32, C35 and C39 on the library with its assertions compiled in; non-trivial: as in that property", 300000, 9000000, 0, 0);
PROPERTY(C41, c41, "a history on one or two instances between two inspections of the process; non-trivial: 6 operations and 2 elements", 240000, 6000000, 0, 0);
PROPERTY(C42, c42, "one of the histories of C25 to C28, C30, C31, C32, C35 and C39 on the library built with another compiler and other options; non-trivial: as in that property", 250000, 6000000, 0, 0);
PROPERTY(C39, c39, "a history on one container of arbitrary 64-bit pointer values; non-trivial: 6 operations and 3 elements at once", 400000, 12000000, 60000, 2000000);
