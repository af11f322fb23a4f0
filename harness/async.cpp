// C25-C28: the message queue under generated schedules.
#include "model.h"
#include "sim.h"
#include <memory>
#include <set>
#include <unordered_set>

enum OpKind { PUSH, POP, TIMED, COUNT, CLEAR, SLEEP };
static const char *const OPNAME[] = {"push", "pop", "pop_timeout", "count", "clear", "sleep"};

struct Plan { OpKind kind; uint32_t arg; };
struct Op {
	OpKind kind;
	int fiber;
	uint32_t arg;              // ms or element
	uintptr_t val = 0;         // popped element
	bool ok = false, done = false;
	size_t n = 0;
	uint64_t inv = 0, ret = 0;
	int64_t t0 = 0, t1 = 0, d0 = 0, d1 = 0;
	size_t watch = 0;
	std::vector<uintptr_t> freed;
};

static const uintptr_t SENTINEL = ~(uintptr_t)0x1234;

struct World;
static World *W;
static std::vector<World *> g_worlds; // when there are several

extern "C" {
static int32_t q_cmp(const void *a, const void *b) { return ((uintptr_t)a > (uintptr_t)b) - ((uintptr_t)a < (uintptr_t)b); }
static void q_free(void *p);
}

struct World {
	void *q = nullptr;
	bool own = false;
	Storage st;
	PoolBox box;
	bool has_free = false;
	std::vector<std::vector<Plan>> plans;
	std::vector<Op> hist;
	std::vector<int> current;        // operation each fiber is in, -1
	uint32_t next_val = 0;
	bool null_val = false;           // the first element is NULL
	std::vector<uintptr_t> stray;    // freed outside of any operation
	bool check_locks = false, timing = false;

	uintptr_t element(uint32_t i) const { return null_val ? i : i + 1; }

	void create(Src &s)
	{
		W = this;
		static const uint32_t PW[] = {4, 1, 1};
		box.draw(s, shim_async.item_size, {PW[0], PW[1], PW[2]});
		own = s.chance(1, 4);
		if (own) {
			st.create(shim_async.size, s);
			q = st.mem;
			shim_async.init(q, q_cmp, has_free ? q_free : nullptr, box.pool);
		} else {
			q = shim_async.make(q_cmp, has_free ? q_free : nullptr, box.pool);
		}
	}
	// Sometimes the queue has a long past when the threads start.
	void age(Src &s)
	{
		if (!s.chance(1, 20000))
			return;
		uint32_t n = s.chance(1, 4) ? 131000 + s.u(500) : s.chance(1, 2) ? 65400 + s.u(300) : s.u(70000);
		s.note("%u elements have passed through the queue", n);
		uint64_t r = s.u(65535);
		uintptr_t in = 0, out = 0;
		while (out < n) {
			r = mix64(r);
			if (in < n && in - out < 30 && (in == out || r & 1)) {
				shim_async.push(q, (void *)(++in + 0x10000));
				continue;
			}
			void *p = (void *)SENTINEL;
			bool ok = r & 0x1e ? shim_async.pop(q, &p) : shim_async.pop_timeout(q, &p, 1 + (uint32_t)(r >> 40));
			CHECK(ok && (uintptr_t)p == ++out + 0x10000, "pop number %zu delivered %zu", (size_t)out, (size_t)p);
			if (!(r & 0x3e00))
				CHECK(shim_async.count(q) == in - out, "the queue counts %zu of %zu elements", shim_async.count(q), (size_t)(in - out));
		}
		s.label("aged queue");
	}
	void destroy()
	{
		if (own) {
			shim_async.release(q);
			st.check("async_queue_free");
			st.destroy();
		} else {
			shim_async.destroy(q);
		}
		box.destroy();
		W = nullptr;
	}
	void exec(int f, const Plan &p)
	{
		if (p.kind == SLEEP) {
			sim::sleep_us(p.arg);
			return;
		}
		Op o;
		o.kind = p.kind;
		o.fiber = f;
		o.arg = p.arg;
		if (p.kind == PUSH)
			o.val = p.arg;
		o.t0 = sim::now_us();
		o.d0 = sim::delay_us();
		if (p.kind == TIMED) {
			o.watch = sim::watch(o.t0 + (int64_t)p.arg * 1000);
		}
		o.inv = sim::tick();
		size_t i = hist.size();
		hist.push_back(o);
		current[f] = (int)i;
		void *out = (void *)SENTINEL;
		bool ok = true;
		size_t n = 0;
		sim::point();
		switch (p.kind) {
		case PUSH: shim_async.push(q, (void *)(uintptr_t)p.arg); break;
		case POP: ok = shim_async.pop(q, &out); break;
		case TIMED: ok = shim_async.pop_timeout(q, &out, p.arg); break;
		case COUNT: n = shim_async.count(q); break;
		case CLEAR: shim_async.clear(q); break;
		default: break;
		}
		Op &r = hist[i];
		r.ok = ok;
		r.n = n;
		r.t1 = sim::now_us();
		r.d1 = sim::delay_us();
		r.ret = sim::tick();
		r.done = true;
		current[f] = -1;
		if (check_locks)
			CHECK(sim::locks_held() == 0, "%s returned with the queue locked", OPNAME[p.kind]);
		if (p.kind == POP || p.kind == TIMED) {
			if (ok) {
				CHECK((uintptr_t)out != SENTINEL, "a successful %s stored no element", OPNAME[p.kind]);
				r.val = (uintptr_t)out;
			}
		}
	}
	// an element was there from the beginning of the operation on, whatever the others took until its end
	bool surely_available(const Op &x) const
	{
		long in = 0, out = 0;
		for (const Op &o : hist) {
			if (&o == &x)
				continue;
			if (o.kind == PUSH && o.done && o.ret < x.inv)
				++in;
			else if ((o.kind == POP || o.kind == TIMED) && o.inv < x.ret && o.ok)
				++out;
			else if (o.kind == CLEAR && o.inv < x.ret)
				out += (long)o.freed.size();
		}
		return in > out;
	}
	void start()
	{
		current.assign(plans.size() + 12, -1);
		for (size_t f = 0; f < plans.size(); ++f)
			sim::spawn([this, f] {
				for (const Plan &p : plans[f])
					exec((int)f, p);
			});
	}
	size_t blocked_pops() const
	{
		size_t n = 0;
		for (size_t f = 0; f < sim::fibers(); ++f)
			n += !sim::finished((int)f);
		return n;
	}
	// pushes one element for each consumer still waiting
	void add_closer()
	{
		size_t n = blocked_pops();
		int f = (int)sim::fibers();
		std::vector<Plan> p;
		for (size_t i = 0; i < n; ++i)
			p.push_back(Plan{PUSH, (uint32_t)element(next_val++)});
		plans.push_back(p);
		sim::spawn([this, f] {
			for (size_t i = 0; i < plans[f].size(); ++i)
				exec(f, plans[f][i]);
		});
	}
	// by the main thread, between two runs of the scheduler
	void push_outside()
	{
		Op o;
		o.kind = PUSH;
		o.fiber = 1000;
		o.val = o.arg = (uint32_t)element(next_val++);
		o.inv = sim::tick();
		o.t0 = o.t1 = sim::now_us();
		shim_async.push(q, (void *)o.val);
		o.ok = o.done = true;
		o.ret = sim::tick();
		hist.push_back(o);
	}
	void note(Src &s)
	{
		if (!s.noting())
			return;
		for (const Op &o : hist) {
			std::string extra;
			char b[100];
			if (o.kind == PUSH)
				snprintf(b, sizeof b, "(%zu)", (size_t)o.val);
			else if (o.kind == TIMED)
				snprintf(b, sizeof b, "(%u ms)", o.arg);
			else
				b[0] = 0;
			extra = b;
			if (!o.done)
				extra += " has not returned";
			else if (o.kind == POP || o.kind == TIMED) {
				if (o.ok)
					snprintf(b, sizeof b, " = %zu", (size_t)o.val);
				else
					snprintf(b, sizeof b, " failed");
				extra += b;
			} else if (o.kind == COUNT) {
				snprintf(b, sizeof b, " = %zu", o.n);
				extra += b;
			} else if (o.kind == CLEAR) {
				extra += " freed";
				for (uintptr_t v : o.freed) {
					snprintf(b, sizeof b, " %zu", (size_t)v);
					extra += b;
				}
			}
			s.note("thread %d: %s%s  [events %llu-%llu, time %.6f-%.6f]", o.fiber, OPNAME[o.kind], extra.c_str(), (unsigned long long)o.inv,
			       (unsigned long long)o.ret, (double)(o.t0 % 1000000000) / 1e6, (double)(o.t1 % 1000000000) / 1e6);
		}
	}
};

extern "C" void q_free(void *p)
{
	int f = sim::self();
	if (f >= 0)
		for (World *w : g_worlds)
			if (w->current[f] >= 0) {
				w->hist[w->current[f]].freed.push_back((uintptr_t)p);
				return;
			}
	if (f >= 0 && W && W->current.size() > (size_t)f && W->current[f] >= 0)
		W->hist[W->current[f]].freed.push_back((uintptr_t)p);
	else if (W)
		W->stray.push_back((uintptr_t)p);
}

// ------------------------------------------------------------------ linearizability

struct Lin {
	const std::vector<Op> &h;
	std::unordered_set<uint64_t> memo;
	uint64_t visited = 0;
	explicit Lin(const std::vector<Op> &x) : h(x) {}
	bool search(uint32_t mask, std::vector<uintptr_t> &q)
	{
		size_t n = h.size();
		if (mask == (n == 32 ? ~0u : (1u << n) - 1))
			return true;
		uint64_t key = mix64(mask + 1);
		for (uintptr_t v : q)
			key = mix64(key ^ v);
		if (!memo.insert(key).second)
			return false;
		if (++visited > 400000)
			return true; // inconclusive: not counted as a failure
		uint64_t first_ret = UINT64_MAX;
		for (size_t i = 0; i < n; ++i)
			if (!(mask >> i & 1) && h[i].ret < first_ret)
				first_ret = h[i].ret;
		for (size_t i = 0; i < n; ++i) {
			if (mask >> i & 1 || h[i].inv > first_ret)
				continue;
			const Op &o = h[i];
			std::vector<uintptr_t> next;
			switch (o.kind) {
			case PUSH:
				next = q;
				next.push_back(o.val);
				break;
			case POP:
			case TIMED:
				if (o.ok) {
					if (q.empty() || q[0] != o.val)
						continue;
					next.assign(q.begin() + 1, q.end());
				} else {
					if (!q.empty())
						continue;
				}
				break;
			case COUNT:
				if (o.n != q.size())
					continue;
				next = q;
				break;
			case CLEAR: {
				std::vector<uintptr_t> a = q, b = o.freed;
				std::sort(a.begin(), a.end());
				std::sort(b.begin(), b.end());
				if (a != b)
					continue;
				break;
			}
			default: continue;
			}
			if (search(mask | 1u << i, next))
				return true;
		}
		return false;
	}
};

// Necessary conditions, for histories of any length.
static void check_delivery(World &w, const std::vector<uintptr_t> &drained)
{
	struct Life { int push = -1, out = -1; bool drained = false; size_t times = 0; };
	std::vector<Life> L(w.next_val + 2);
	for (size_t i = 0; i < w.hist.size(); ++i)
		if (w.hist[i].kind == PUSH)
			L[w.hist[i].val].push = (int)i;
	auto out = [&](uintptr_t v, int op) {
		CHECK(v < L.size() && L[v].push >= 0, "an element came out that was never pushed (%zx)", (size_t)v);
		CHECK(++L[v].times == 1, "element %zu was delivered or dropped twice", (size_t)v);
		L[v].out = op;
		if (op >= 0)
			CHECK(w.hist[op].ret > w.hist[L[v].push].inv, "element %zu came out before it was pushed", (size_t)v);
	};
	for (size_t i = 0; i < w.hist.size(); ++i) {
		const Op &o = w.hist[i];
		if ((o.kind == POP || o.kind == TIMED) && o.ok)
			out(o.val, (int)i);
		for (uintptr_t v : o.freed) {
			CHECK(o.kind == CLEAR, "%s freed an element", OPNAME[o.kind]);
			out(v, (int)i);
		}
	}
	for (uintptr_t v : drained) {
		out(v, -1);
		L[v].drained = true;
	}
	for (size_t v = 0; v < L.size(); ++v)
		if (L[v].push >= 0)
			CHECK(L[v].times == 1, "element %zu was lost", v);
	// order: a pushed before b was, but b taken before a was asked for
	for (size_t a = 0; a < L.size(); ++a)
		for (size_t b = 0; b < L.size(); ++b) {
			if (a == b || L[a].push < 0 || L[b].push < 0 || w.hist[L[a].push].ret >= w.hist[L[b].push].inv)
				continue;
			if (L[b].out < 0)
				continue; // b taken at the end, where the order is checked below
			CHECK(L[a].out >= 0 && w.hist[L[b].out].ret >= w.hist[L[a].out].inv, "element %zu was overtaken by element %zu, which was pushed later", a, b);
		}
	for (size_t i = 0; i < drained.size(); ++i)
		for (size_t j = i + 1; j < drained.size(); ++j)
			CHECK(w.hist[L[drained[j]].push].ret >= w.hist[L[drained[i]].push].inv, "element %zu was overtaken by element %zu, which was pushed later",
			      (size_t)drained[j], (size_t)drained[i]);
	// counts
	for (const Op &o : w.hist) {
		if (o.kind != COUNT)
			continue;
		size_t lo = 0, hi = 0;
		for (const Life &l : L) {
			if (l.push < 0)
				continue;
			const Op &p = w.hist[l.push];
			bool surely_in = p.ret < o.inv && (l.out < 0 || w.hist[l.out].inv > o.ret);
			bool maybe_in = p.inv < o.ret && (l.out < 0 || w.hist[l.out].ret > o.inv);
			lo += surely_in;
			hi += maybe_in;
		}
		CHECK(o.n >= lo && o.n <= hi, "count reported %zu elements, but there were at least %zu and at most %zu", o.n, lo, hi);
	}
}

static void drain(World &w, size_t expected, std::vector<uintptr_t> &out)
{
	for (size_t i = 0; i < expected; ++i) {
		void *p = (void *)SENTINEL;
		if (!shim_async.pop_timeout(w.q, &p, 1))
			break;
		out.push_back((uintptr_t)p);
	}
}

static size_t expected_left(const World &w)
{
	size_t in = 0, outn = 0;
	for (const Op &o : w.hist) {
		if (o.kind == PUSH && o.done)
			++in;
		if ((o.kind == POP || o.kind == TIMED) && o.done && o.ok)
			++outn;
		outn += o.freed.size();
	}
	return in > outn ? in - outn : 0;
}

static void report(Src &s, World &w)
{
	w.note(s);
	if (sim::preemptions())
		s.label("preempted inside an operation");
	if (sim::spurious())
		s.label("spurious wakeup");
	if (sim::timeouts())
		s.label("timeout");
	if (sim::waits())
		s.label("waited");
}

static size_t overlaps(const World &w)
{
	size_t n = 0;
	for (size_t i = 0; i < w.hist.size(); ++i)
		for (size_t j = i + 1; j < w.hist.size(); ++j)
			n += w.hist[i].fiber != w.hist[j].fiber && w.hist[j].inv < w.hist[i].ret && w.hist[i].inv < w.hist[j].ret;
	return n;
}

// Many elements, one thread.
static void queue_scale(Src &s)
{
	World w;
	w.create(s);
	uintptr_t n = 65500 + s.u(5000), k = s.u(3000);
	for (uintptr_t i = 1; i <= n; ++i)
		shim_async.push(w.q, (void *)i);
	CHECK(shim_async.count(w.q) == n, "the queue counts %zu of %zu elements", shim_async.count(w.q), (size_t)n);
	for (uintptr_t i = 1; i <= n; ++i) {
		void *out = (void *)SENTINEL;
		bool ok = i % 64 == k % 64 ? shim_async.pop_timeout(w.q, &out, 1 + (uint32_t)k) : shim_async.pop(w.q, &out);
		CHECK(ok && (uintptr_t)out == i, "pop number %zu delivered %zu", (size_t)i, (size_t)out);
		CHECK(i != k || shim_async.count(w.q) == n - i, "the queue counts %zu of %zu elements", shim_async.count(w.q), (size_t)(n - i));
	}
	CHECK(shim_async.count(w.q) == 0, "the queue reports elements after all were taken");
	w.destroy();
	s.label("more than 65500 elements");
	s.nontrivial();
}

// Every number of elements up to a limit, one thread.
static void queue_sizes(Src &s)
{
	World w;
	w.create(s);
	uintptr_t n = 40 + s.u(1100), v = 0;
	uint32_t clears = s.u(4);
	s.note("filled to every size up to %zu and emptied", (size_t)n);
	for (uintptr_t k = 0; k <= n; ++k) {
		uintptr_t first = v + 1;
		for (uintptr_t i = 0; i < k; ++i)
			shim_async.push(w.q, (void *)++v);
		CHECK(shim_async.count(w.q) == k, "the queue counts %zu of %zu elements", shim_async.count(w.q), (size_t)k);
		if (s.u(4) < clears) {
			shim_async.clear(w.q);
		} else {
			for (uintptr_t i = 0; i < k; ++i) {
				void *out = (void *)SENTINEL;
				bool ok = i % 7 == 3 ? shim_async.pop_timeout(w.q, &out, 1000) : shim_async.pop(w.q, &out);
				CHECK(ok && (uintptr_t)out == first + i, "pop number %zu of %zu delivered %zu", (size_t)i, (size_t)k, (size_t)out);
			}
		}
		CHECK(shim_async.count(w.q) == 0, "the queue counts %zu elements after %zu were taken", shim_async.count(w.q), (size_t)k);
	}
	w.destroy();
	s.label("every size up to a limit");
	s.nontrivial();
}

static void c25(Src &s)
{
	cx_reset();
	if (s.chance(1, 20000)) {
		queue_scale(s);
		return;
	}
	if (s.chance(1, 20000)) {
		queue_sizes(s);
		return;
	}
	World w;
	bool small = !s.chance(1, 5);
	w.has_free = true;
	bool clears = s.chance(1, 3);
	w.null_val = !clears && s.chance(1, 5);
	size_t nf = 2 + s.u(small ? 2 : 4);
	w.plans.resize(nf);
	w.create(s);
	w.age(s);
	size_t ops = 0, cap = small ? 14 : 80;
	bool roles = s.chance(1, 3); // each thread either pushes or pops
	while (ops < cap && s.more(small ? 10 : 40)) {
		size_t f = s.u((uint32_t)nf - 1);
		Plan p{PUSH, 0};
		switch (roles ? (f & 1 ? s.w({0, 4, 2, 1}) : s.w({8, 0, 0, 1})) : s.w({6, 3, 3, 2, clears ? 2u : 0u, 1})) {
		case 0: p = Plan{PUSH, (uint32_t)w.element(w.next_val++)}; break;
		case 1: p = Plan{POP, 0}; break;
		case 2: p = Plan{TIMED, s.chance(1, 4) ? 1 + s.u(3000) : 1 + s.u(5)}; break;
		case 3: p = Plan{COUNT, 0}; break;
		case 4: p = Plan{CLEAR, 0}; break;
		default: p = Plan{SLEEP, s.u(3) ? s.u(5000) : s.u(1000000)}; break;
		}
		if (p.kind != SLEEP)
			++ops;
		w.plans[f].push_back(p);
	}
	sim::begin(s, true, true);
	w.start();
	if (sim::run() == sim::QUIET) {
		w.add_closer();
		if (sim::run() == sim::QUIET) {
			s.label("stuck (decided by C26)");
			return;
		}
	}
	report(s, w);
	size_t over = overlaps(w);
	sim::end();
	std::vector<uintptr_t> rest;
	drain(w, expected_left(w), rest);
	check_delivery(w, rest);
	CHECK(shim_async.count(w.q) == 0, "the queue reports elements after all were taken");
	if (w.hist.size() <= 24 && small) {
		// what was left at the end is popped by one more thread
		std::vector<Op> h = w.hist;
		uint64_t t = UINT64_MAX / 2;
		for (uintptr_t v : rest) {
			if (h.size() >= 31)
				break;
			Op o;
			o.kind = POP;
			o.fiber = 11;
			o.ok = o.done = true;
			o.val = v;
			o.inv = ++t;
			o.ret = ++t;
			h.push_back(o);
		}
		Lin lin(h);
		std::vector<uintptr_t> q;
		CHECK(lin.search(0, q), "the results of the %zu operations fit no order of them on a first-in first-out queue", w.hist.size());
		if (lin.visited > 400000)
			s.label("search cut off");
		s.label("searched for a linearization");
	}
	CHECK(w.stray.empty(), "an element was freed outside of a clear");
	if (over >= 2 && w.next_val >= 2)
		s.nontrivial();
	if (over >= 10)
		s.label("10 or more overlapping pairs");
	w.destroy();
}

// Two queues in use at once by the same threads.
static void two_queues(Src &s, bool races)
{
	cx_reset();
	World q[2];
	struct Reset { ~Reset() { g_worlds.clear(); } } reset;
	size_t nf = 2 + s.u(4), ops = 0;
	sim::races(races);
	for (World &w : q) {
		w.has_free = true;
		w.check_locks = true;
		w.create(s);
		w.current.assign(nf + 12, -1);
		g_worlds.push_back(&w);
	}
	struct Step { size_t q; Plan p; };
	std::vector<std::vector<Step>> plans(nf);
	uint32_t clears = s.u(1);
	int roles = (int)s.u(2); // any; push or pop; one queue each
	while (ops < 40 && s.more(12)) {
		size_t f = s.u((uint32_t)nf - 1), k = roles == 2 ? f & 1 : s.u(1);
		Plan p{PUSH, 0};
		switch (roles == 1 ? (f & 1 ? s.w({0, 5, 2, 1}) : s.w({8, 0, 0, 1})) : s.w({6, 3, 3, 1, clears, 1})) {
		case 0: p = Plan{PUSH, (uint32_t)q[k].element(q[k].next_val++)}; break;
		case 1: p = Plan{POP, 0}; break;
		case 2: p = Plan{TIMED, s.chance(1, 4) ? 1 + s.u(3000) : 1 + s.u(5)}; break;
		case 3: p = Plan{COUNT, 0}; break;
		case 4: p = Plan{CLEAR, 0}; break;
		default: p = Plan{SLEEP, s.u(3) ? s.u(5000) : s.u(1000000)}; break;
		}
		plans[f].push_back(Step{k, p});
		++ops;
	}
	sim::begin(s, true, true);
	for (size_t f = 0; f < nf; ++f)
		sim::spawn([&, f] {
			for (const Step &x : plans[f])
				q[x.q].exec((int)f, x.p);
		});
	auto note = [&] {
		for (size_t k = 0; k < 2; ++k) {
			s.note("queue %zu:", k);
			q[k].note(s);
		}
	};
	size_t rounds = 0;
	while (sim::run() != sim::DONE) {
		size_t missing[2] = {0, 0};
		for (size_t f = 0; f < nf; ++f) {
			if (sim::finished((int)f))
				continue;
			size_t k = q[0].current[f] >= 0 ? 0 : 1;
			if (sim::blocked_on_mutex((int)f)) {
				note();
				fail("deadlock: thread %zu waits for the lock of queue %zu, which nobody will release", f, k);
			}
			++missing[k];
			if (size_t left = expected_left(q[k])) {
				note();
				fail("lost wakeup: thread %zu waits although %zu elements are in queue %zu and nobody else is running", f, left, k);
			}
		}
		if (++rounds > ops + 4)
			fail("consumers stay blocked although an element was pushed for each of them");
		for (size_t k = 0; k < 2; ++k)
			for (size_t i = 0; i < missing[k]; ++i)
				q[k].push_outside();
	}
	note();
	size_t over = overlaps(q[0]) + overlaps(q[1]);
	size_t waits = sim::waits();
	sim::end();
	for (World &w : q) {
		for (const Op &o : w.hist) {
			if (o.kind == POP)
				CHECK(o.ok, "a blocking pop returned without an element");
			if (o.kind == TIMED) {
				int64_t us = (int64_t)o.arg * 1000, el = o.t1 - o.t0;
				CHECK(o.ok || el >= us, "a pop with a timeout of %u ms gave up after %lld us", o.arg, (long long)el);
				CHECK(el <= us + o.d1 - o.d0 + 1000, "a pop with a timeout of %u ms took %lld us", o.arg, (long long)el);
			}
		}
		std::vector<uintptr_t> rest;
		drain(w, expected_left(w), rest);
		check_delivery(w, rest);
		CHECK(shim_async.count(w.q) == 0, "the queue reports elements after all were taken");
		CHECK(w.stray.empty(), "an element was freed outside of a clear");
		if (w.hist.size() + rest.size() <= 24) {
			std::vector<Op> h = w.hist;
			uint64_t t = UINT64_MAX / 2;
			for (uintptr_t v : rest) {
				Op o;
				o.kind = POP;
				o.ok = o.done = true;
				o.val = v;
				o.inv = ++t;
				o.ret = ++t;
				h.push_back(o);
			}
			Lin lin(h);
			std::vector<uintptr_t> e;
			CHECK(lin.search(0, e), "the results of the %zu operations fit no order of them on a first-in first-out queue", w.hist.size());
		}
	}
	g_worlds.clear();
	for (World &w : q)
		w.destroy();
	sim::races(false);
	s.label("two queues");
	if (over >= 2 && q[0].next_val && q[1].next_val && (races || waits))
		s.nontrivial();
}

static void c26(Src &s)
{
	if (s.chance(1, 8)) {
		two_queues(s, false);
		return;
	}
	cx_reset();
	World w;
	w.has_free = true;
	bool crowd = s.chance(1, 2500); // hundreds of consumers
	bool small = s.chance(1, 2);
	size_t nf = 2 + s.u(small ? 2 : 6);
	if (crowd) {
		nf = s.chance(1, 2) ? 255 + s.u(3) : 12 + s.u(290);
		s.label("12 or more consumers");
	}
	w.plans.resize(nf);
	bool others = s.chance(1, 2);
	w.create(s);
	w.age(s);
	size_t ops = 0;
	bool roles = s.chance(2, 3);
	uint32_t pushers = 1 + s.u((uint32_t)nf - 2);
	for (size_t f = 0; crowd && f < nf; ++f)
		w.plans[f].push_back(Plan{POP, 0});
	while (!crowd && ops < 120 && s.more(small ? 8 : 30)) {
		size_t f = s.u((uint32_t)nf - 1);
		Plan p{PUSH, 0};
		uint32_t x = others ? 1 : 0;
		switch (roles ? (f >= pushers ? s.w({0, 8, x, x, x, x}) : s.w({8, 0, 0, x, x, x})) : s.w({5, 5, x, x, x, x})) {
		case 0: p = Plan{PUSH, (uint32_t)w.element(w.next_val++)}; break;
		case 1: p = Plan{POP, 0}; break;
		case 2: p = Plan{TIMED, 1 + s.u(50)}; break;
		case 3: p = Plan{COUNT, 0}; break;
		case 4: p = Plan{s.chance(1, 3) ? CLEAR : COUNT, 0}; break;
		default: p = Plan{SLEEP, s.u(60000)}; break;
		}
		w.plans[f].push_back(p);
		++ops;
	}
	sim::begin(s, s.chance(1, 2), true);
	w.start();
	size_t rounds = 0, waited = 0;
	for (;;) {
		sim::Result r = sim::run();
		for (const Op &o : w.hist)
			if (o.kind == POP && o.done && !o.ok) {
				w.note(s);
				fail("a blocking pop returned without an element");
			}
		if (r == sim::DONE)
			break;
		size_t left = expected_left(w);
		for (size_t f = 0; f < sim::fibers(); ++f) {
			if (sim::finished((int)f))
				continue;
			if (sim::blocked_on_mutex((int)f)) {
				w.note(s);
				fail("deadlock: thread %zu waits for the queue's lock, which nobody will release", f);
			}
			++waited;
			if (left) {
				w.note(s);
				fail("lost wakeup: thread %zu waits although %zu elements are in the queue and nobody else is running", f, left);
			}
		}
		// one more element for each of them; they may go on to further pops of their plans
		size_t missing = 0, pops = 0;
		for (size_t f = 0; f < w.plans.size(); ++f) {
			missing += !sim::finished((int)f);
			for (const Plan &p : w.plans[f])
				pops += p.kind == POP || p.kind == TIMED;
		}
		if (++rounds > pops + 4) {
			w.note(s);
			fail("consumers stay blocked although an element was pushed for each of them");
		}
		if (rounds <= 3 && sim::fibers() < 12) {
			w.add_closer();
		} else {
			for (size_t i = 0; i < missing; ++i)
				w.push_outside();
		}
	}
	report(s, w);
	if (waited)
		s.label("consumers waited on an empty queue");
	size_t waits = sim::waits();
	sim::end();
	// everything pushed can be taken
	size_t left = expected_left(w);
	std::vector<uintptr_t> rest;
	drain(w, left, rest);
	CHECK(rest.size() == left, "only %zu of the %zu elements left in the queue can be taken", rest.size(), left);
	if (waits >= 1 && w.next_val >= 2)
		s.nontrivial();
	if (waits >= 4)
		s.label("4 or more waits");
	w.destroy();
}

static uint32_t draw_ms(Src &s)
{
	switch (s.w({4, 4, 2, 2, 1})) {
	case 0: return 1 + s.u(20);
	case 1: return 1 + s.u(2999);
	case 2: {
		static const uint32_t M[] = {1000, 999, 1001, 2000, 1999, 500, 1, 60000};
		return M[s.u(7)];
	}
	case 3: return 1 + s.u(5000000);
	default: {
		static const uint32_t M[] = {UINT32_MAX, UINT32_MAX - 1, 4294968, 2147484, 2147483648u, 3600000, 86400000, 4294967295u / 2};
		return M[s.u(7)];
	}
	}
}

// One queue, and pops whose time runs out, for hours.
static void timed_long(Src &s)
{
	cx_reset();
	World w;
	w.timing = true;
	w.plans.resize(1);
	w.create(s);
	uint32_t n = s.chance(1, 2) ? 65500 + s.u(300) : s.u(20000), ms = draw_ms(s), step = 1 + s.u(50);
	s.note("%u pops of 1 to 2000 ms or of %u ms from an empty queue", n, ms);
	for (uint32_t i = 0; i < n; ++i)
		w.plans[0].push_back(Plan{TIMED, i % 3 ? 1 + i * step % 2000 : ms});
	w.plans[0].push_back(Plan{PUSH, (uint32_t)w.element(w.next_val++)});
	w.plans[0].push_back(Plan{TIMED, ms});
	patience(60);
	sim::no_limit();
	sim::begin(s, false, true);
	w.start();
	CHECK(sim::run() != sim::QUIET, "a timed pop waits forever");
	for (size_t i = 0; i < w.hist.size(); ++i) {
		const Op &o = w.hist[i];
		if (o.kind != TIMED)
			continue;
		int64_t us = (int64_t)o.arg * 1000, el = o.t1 - o.t0, delay = o.d1 - o.d0;
		CHECK(o.ok == (i > n), "timed pop number %zu %s", i, o.ok ? "delivered an element that was not pushed" : "failed although an element was there");
		if (!o.ok)
			CHECK(el >= us && el <= us + delay + 1000, "pop number %zu, with a timeout of %u ms, gave up after %lld us", i, o.arg, (long long)el);
	}
	sim::end();
	s.label("thousands of timed pops");
	s.nontrivial();
	w.destroy();
}

static void c27(Src &s)
{
	if (s.chance(1, 60000)) {
		timed_long(s);
		return;
	}
	cx_reset();
	World w;
	w.has_free = s.chance(1, 2);
	w.timing = true;
	size_t nf = 1 + s.u(3);
	w.plans.resize(nf);
	w.create(s);
	w.age(s);
	uint32_t ms = draw_ms(s);
	size_t ops = 0;
	w.plans[0].push_back(Plan{TIMED, ms});
	bool steal = s.chance(1, 2);
	while (ops < 24 && s.more(8)) {
		size_t f = s.u((uint32_t)nf - 1);
		switch (s.w({5, 4, 6, steal ? 2u : 0u, w.has_free && s.chance(1, 4) ? 1u : 0u})) {
		case 0: w.plans[f].push_back(Plan{PUSH, (uint32_t)w.element(w.next_val++)}); break;
		case 1: w.plans[f].push_back(Plan{TIMED, s.chance(1, 2) ? ms : draw_ms(s)}); break;
		case 2: {
			// until shortly before or after a timeout
			uint64_t us = (uint64_t)ms * 1000;
			uint64_t d;
			switch (s.u(4)) {
			case 0: d = us + s.u(4) - 2; break;
			case 1: d = us > 2000000 ? us - s.u(1999999) : s.u((uint32_t)us); break;
			case 2: d = us + s.u(1500000); break;
			case 3: d = s.u(1000000); break;
			default: d = us / 2; break;
			}
			w.plans[f].push_back(Plan{SLEEP, (uint32_t)std::min<uint64_t>(d, UINT32_MAX)});
			break;
		}
		case 3:
			// takes what is there
			w.plans[f].push_back(Plan{TIMED, 1 + s.u(3)});
			break;
		default: w.plans[f].push_back(Plan{CLEAR, 0}); break;
		}
		++ops;
	}
	bool jitter = s.chance(1, 3);
	sim::begin(s, jitter, true);
	w.start();
	if (sim::run() == sim::QUIET) {
		w.note(s);
		fail("a timed pop waits forever");
	}
	report(s, w);
	// when each element left the queue
	std::vector<int> out(w.next_val + 2, -1), in(w.next_val + 2, -1);
	for (size_t i = 0; i < w.hist.size(); ++i) {
		const Op &o = w.hist[i];
		if (o.kind == PUSH)
			in[o.val] = (int)i;
		if (o.kind == TIMED && o.ok && o.val < out.size())
			out[o.val] = (int)i;
		for (uintptr_t v : o.freed)
			if (v < out.size())
				out[v] = (int)i;
	}
	bool clears_unknown = false;
	unsigned failed = 0, saved = 0, immediate = 0;
	for (const Op &o : w.hist) {
		if (o.kind != TIMED)
			continue;
		int64_t us = (int64_t)o.arg * 1000, el = o.t1 - o.t0;
		int64_t delay = o.d1 - o.d0;
		if (!o.ok) {
			++failed;
			CHECK(el >= us, "a pop with a timeout of %u ms gave up after %lld us, %lld us too early", o.arg, (long long)el, (long long)(us - el));
			uint64_t dl = sim::crossed(o.watch);
			for (size_t v = 0; v < in.size() && !clears_unknown; ++v) {
				if (in[v] < 0 || w.hist[in[v]].ret > dl)
					continue;
				bool stayed = out[v] < 0 || w.hist[out[v]].inv > o.ret;
				CHECK(!stayed, "a pop with a timeout of %u ms failed although element %zu was in the queue before the timeout and stayed there", o.arg, v);
			}
		}
		CHECK(el <= us + delay + 1000, "a pop with a timeout of %u ms %s after %lld us", o.arg, o.ok ? "succeeded only" : "gave up only", (long long)el);
		if (w.surely_available(o)) {
			CHECK(o.ok, "a timed pop failed although an element was there from the start");
			CHECK(el <= delay + 1000, "a timed pop took %lld us although an element was there from the start", (long long)el);
			++immediate;
		} else if (o.ok && el > 0) {
			++saved;
			// it may not sleep on while an element is there
			const Op &p = w.hist[in[o.val]];
			CHECK(el <= std::max<int64_t>(0, p.t1 - o.t0) + delay + 1000 || nf > 2, "a timed pop returned %lld us after the element was pushed",
			      (long long)(o.t1 - p.t1));
		}
	}
	sim::end();
	if (failed)
		s.label("timed out");
	if (saved)
		s.label("element arrived while waiting");
	if (immediate)
		s.label("element there from the start");
	if (failed || saved)
		s.nontrivial();
	w.destroy();
}

static void c28(Src &s)
{
	if (s.chance(1, 10)) {
		two_queues(s, true);
		return;
	}
	cx_reset();
	World w;
	w.has_free = true;
	w.check_locks = true;
	size_t nf = 2 + s.u(3);
	w.plans.resize(nf);
	sim::races(true);
	w.create(s);
	w.age(s);
	size_t ops = 0;
	while (ops < 60 && s.more(14)) {
		size_t f = s.u((uint32_t)nf - 1);
		Plan p{PUSH, 0};
		switch (s.w({6, 3, 3, 3, 3, 1})) {
		case 0: p = Plan{PUSH, (uint32_t)w.element(w.next_val++)}; break;
		case 1: p = Plan{POP, 0}; break;
		case 2: p = Plan{TIMED, 1 + s.u(5)}; break;
		case 3: p = Plan{COUNT, 0}; break;
		case 4: p = Plan{CLEAR, 0}; break;
		default: p = Plan{SLEEP, s.u(5000)}; break;
		}
		w.plans[f].push_back(p);
		++ops;
	}
	sim::begin(s, true, true);
	w.start();
	if (sim::run() == sim::QUIET) {
		w.add_closer();
		if (sim::run() == sim::QUIET) {
			s.label("stuck (decided by C26)");
			for (size_t f = 0; f < sim::fibers(); ++f)
				CHECK(!sim::blocked_on_mutex((int)f), "an operation left the queue locked");
			return;
		}
	}
	report(s, w);
	size_t over = overlaps(w);
	sim::end();
	// a second life in the same storage
	w.destroy();
	sim::races(false);
	if (over >= 2 && w.hist.size() >= 4)
		s.nontrivial();
}

// Any of these histories, for the properties of other builds (C40, C42).
void async_case(Src &s)
{
	switch (s.w({2, 1, 1, 1})) {
	case 0: c25(s); break;
	case 1: c26(s); break;
	case 2: c27(s); break;
	default: c28(s);
	}
}

PROPERTY(C25, c25, "2-6 threads with drawn operations under a drawn schedule; non-trivial: at least 2 elements and 2 pairs of overlapping operations", 800000, 12000000, 20000, 300000);
PROPERTY(C26, c26, "2-8 producers and consumers under a drawn schedule; non-trivial: at least 2 elements and 1 wait", 650000, 10000000, 20000, 300000);
PROPERTY(C27, c27, "timed pops of 1-4 threads with pushes around their deadlines under a drawn schedule and clock; non-trivial: a pop that waited", 800000, 12000000, 20000, 300000);
PROPERTY(C28, c28, "2-5 threads with drawn operations under a drawn schedule with race detection; non-trivial: at least 4 operations and 2 overlapping pairs", 750000, 10000000, 20000, 300000);
