#include "sim.h"
#include "vt.h"
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>

void (*vt_alloc_hook)(void *, size_t);
void (*vt_free_hook)(void *, size_t);

namespace sim {

static const int MAXF = 12;    // threads with vector clocks
static const int MAXT = 320;   // threads without race detection
static const int MAIN = 1 << 20;
static const size_t STACK = 128 * 1024;

struct VC {
	uint32_t c[MAXF + 1] = {0};
	void join(const VC &o)
	{
		for (int i = 0; i <= MAXF; ++i)
			if (o.c[i] > c[i])
				c[i] = o.c[i];
	}
};

struct Mutex { int owner = -1; VC vc; }; // owner: fiber or MAIN
struct Cond { int clock = CLOCK_REALTIME; int waiters = 0; };

enum State { READY, ON_MUTEX, ON_COND, SLEEPING, DONE_ };
struct Fiber {
	std::function<void()> fn;
	ucontext_t ctx;
	State st = READY;
	void *wait_on = nullptr;
	bool timed = false, timed_out = false, woken = false;
	int64_t deadline = 0;     // in virtual microseconds
	int64_t delay = 0, ready_since = 0;
	uint32_t prio = 0;
	int held = 0;
	VC vc;
};

static bool active, inside;           // inside: a fiber is running
static Src *src;
static std::vector<std::unique_ptr<Fiber>> fib;
static int cur = -1;
static ucontext_t main_ctx;
static char *stacks;
static std::unordered_map<void *, Mutex> mutexes;
static std::unordered_map<void *, Cond> conds;
static int64_t now;                   // microseconds of virtual time
static int64_t mono_offset;
static uint64_t seq;
static std::vector<std::pair<int64_t, uint64_t>> watches;
static VC main_vc;
static int strategy;                  // 0 random, 1 priorities, 2 run until blocked
static uint32_t sync_den, mem_max, mem_left;
static bool jitter;
static uint32_t spurious_den, spurious_left;
static std::vector<uint64_t> change_points;
static uint64_t steps, syncs, accesses, n_switch, n_preempt, n_spurious, n_wait, n_timeout;
static uint32_t low_prio;
static bool detect;
static bool unlimited;                // without a limit of steps (that of processor time remains)
static int64_t stub_now;
static void (*switch_hook)(int);
static uint64_t n_work;

// ------------------------------------------------------------------ data races
struct Acc { uint8_t fiber, mask, write; uint32_t clock; };
static std::unordered_map<uintptr_t, std::vector<Acc>> shadow;

static int me() { return cur >= 0 && inside ? cur : MAIN; }
static VC &vc_of(int f) { return f == MAIN ? main_vc : fib[f]->vc; }
static int ix(int f) { return f == MAIN ? MAXF : f; }

static bool internal; // the detector itself allocates
struct Internal {
	bool old = internal;
	Internal() { internal = true; }
	~Internal() { internal = old; }
};

static void access(const void *p, size_t n, bool write)
{
	Internal guard;
	uintptr_t a = (uintptr_t)p;
	if (stacks && a >= (uintptr_t)stacks && a < (uintptr_t)stacks + STACK * MAXT)
		return;
	const VC &v = vc_of(me());
	int f = ix(me());
	while (n) {
		uintptr_t g = a >> 3;
		size_t off = a & 7, k = std::min(n, 8 - off);
		uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
		auto &l = shadow[g];
		for (const Acc &x : l)
			if (x.fiber != f && (x.mask & mask) && (x.write || write) && x.clock > v.c[x.fiber])
				fail("data race: thread %d %s memory of the queue that thread %d %s without a lock ordering the two",
				     f, write ? "writes" : "reads", (int)x.fiber, x.write ? "wrote" : "read");
		// replaces this thread's older accesses of the same kind to the same bytes
		for (size_t i = 0; i < l.size();)
			if (l[i].fiber == f && (l[i].mask & ~mask) == 0 && (l[i].write == (uint8_t)write || write)) {
				l[i] = l.back();
				l.pop_back();
			} else {
				++i;
			}
		if (l.size() > 24)
			l.erase(l.begin());
		l.push_back(Acc{(uint8_t)f, mask, (uint8_t)write, v.c[f]});
		a += k;
		n -= k;
	}
}

static void forget(void *p, size_t n)
{
	Internal guard;
	if (shadow.empty())
		return;
	if (n / 8 > shadow.size()) {
		for (auto i = shadow.begin(); i != shadow.end();)
			if (i->first - ((uintptr_t)p >> 3) <= (((uintptr_t)p + n) >> 3) - ((uintptr_t)p >> 3))
				i = shadow.erase(i);
			else
				++i;
		return;
	}
	for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; ++g)
		shadow.erase(g);
}
static void on_alloc(void *p, size_t n) { forget(p, n); }
static void on_free(void *p, size_t n)
{
	if (detect && active && n)
		access(p, n, true);
	forget(p, n);
}

void races(bool on)
{
	detect = on;
	shadow.clear();
	vt_alloc_hook = on ? on_alloc : nullptr;
	vt_free_hook = on ? on_free : nullptr;
}

// ------------------------------------------------------------------ clock

static void set_now(int64_t t)
{
	now = t;
	for (auto &w : watches)
		if (!w.second && now >= w.first)
			w.second = ++seq;
}

// ------------------------------------------------------------------ scheduling

void reset()
{
	active = inside = false;
	src = nullptr;
	switch_hook = nullptr;
	fib.clear();
	cur = -1;
	mutexes.clear();
	conds.clear();
	watches.clear();
	seq = steps = syncs = accesses = n_switch = n_preempt = n_spurious = n_wait = n_timeout = 0;
	main_vc = VC();
	main_vc.c[MAXF] = 1;
	now = 1000000000ll * 1000000;
	mono_offset = 999999000ll * 1000000;
	stub_now = now;
	races(false);
	unlimited = false;
}

void begin(Src &s, bool allow_jitter, bool allow_spurious)
{
	if (!stacks) {
		stacks = (char *)mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (stacks == MAP_FAILED)
			harness_error("mmap");
	}
	while (!fib.empty() && fib.back()->st == DONE_)
		fib.pop_back();
	src = &s;
	active = true;
	strategy = (int)s.w({6, 4, 1});
	static const uint32_t D[] = {2, 1, 4, 8}, M[] = {20, 5, 60, 300};
	sync_den = D[s.u(3)];
	mem_max = M[s.u(3)];
	mem_left = 1 + s.u(mem_max);
	jitter = allow_jitter && s.chance(1, 3);
	static const uint32_t SD[] = {0, 10, 3};
	spurious_den = allow_spurious ? SD[s.w({4, 2, 2})] : 0;
	spurious_left = 25;
	change_points.clear();
	if (strategy == 1) {
		uint32_t n = s.u(4);
		for (uint32_t i = 0; i < n; ++i)
			change_points.push_back(1 + s.u(s.chance(1, 2) ? 400 : 60));
	}
	low_prio = 1000;
	int64_t sec = 1000000000ll + s.u(700000000);
	int64_t us = s.w({1, 1, 4}) == 0 ? 0 : s.chance(1, 3) ? 999000 + s.u(999) : s.u(999999);
	set_now(sec * 1000000 + us);
}

int spawn(std::function<void()> f)
{
	int i = (int)fib.size();
	if (i >= (detect ? MAXF : MAXT))
		harness_error("too many fibers");
	fib.emplace_back(new Fiber());
	fib[i]->fn = std::move(f);
	fib[i]->prio = strategy == 1 ? 2000 + src->u(999) : 0;
	fib[i]->vc = main_vc;
	if (i < MAXF)
		fib[i]->vc.c[i] = 1;
	fib[i]->ready_since = now;
	return i;
}

static void trampoline(int i)
{
	fib[i]->fn();
	fib[i]->st = DONE_;
	inside = false;
	swapcontext(&fib[i]->ctx, &main_ctx);
}

static bool runnable(const Fiber &f)
{
	switch (f.st) {
	case READY: return true;
	case ON_MUTEX: {
		auto m = mutexes.find(f.wait_on);
		return m == mutexes.end() || m->second.owner < 0;
	}
	case ON_COND: return f.woken || (f.timed && now >= f.deadline);
	case SLEEPING: return now >= f.deadline;
	default: return false;
	}
}

// back to the scheduler
static void switch_out()
{
	Fiber &f = *fib[cur];
	f.ready_since = now;
	inside = false;
	if (swapcontext(&f.ctx, &main_ctx))
		harness_error("swapcontext");
}

Result run()
{
	for (;;) {
		// time passes
		if (jitter && src->chance(1, 4))
			set_now(now + (src->chance(1, 4) ? src->u(400000) : src->u(900)));
		if (spurious_den && spurious_left) {
			std::vector<Fiber *> w;
			for (auto &f : fib)
				if (f->st == ON_COND && !f->woken)
					w.push_back(f.get());
			if (!w.empty() && src->chance(1, spurious_den)) {
				--spurious_left;
				++n_spurious;
				Fiber *f = w[w.size() > 1 ? src->u((uint32_t)w.size() - 1) : 0];
				f->woken = true;
				f->ready_since = f->timed ? std::min(now, f->deadline) : now;
			}
		}
		std::vector<int> r;
		bool left = false;
		int64_t next = INT64_MAX;
		for (size_t i = 0; i < fib.size(); ++i) {
			Fiber &f = *fib[i];
			if (f.st == DONE_)
				continue;
			left = true;
			if (runnable(f))
				r.push_back((int)i);
			else if ((f.st == ON_COND && f.timed) || f.st == SLEEPING)
				next = std::min(next, f.deadline);
		}
		if (!left)
			return DONE;
		if (r.empty()) {
			if (next == INT64_MAX)
				return QUIET;
			for (auto &f : fib)
				if (f->st != DONE_)
					f->ready_since = next;
			set_now(next);
			continue;
		}
		int pick;
		if (strategy == 1) {
			pick = r[0];
			for (int i : r)
				if (fib[i]->prio > fib[pick]->prio)
					pick = i;
		} else if (strategy == 2 && cur >= 0 && std::find(r.begin(), r.end(), cur) != r.end()) {
			pick = cur;
		} else {
			pick = r[r.size() > 1 ? src->u((uint32_t)r.size() - 1) : 0];
		}
		if (pick != cur)
			++n_switch;
		Fiber &f = *fib[pick];
		// time in which it could have run
		int64_t since = f.ready_since;
		if ((f.st == ON_COND && f.timed && !f.woken) || f.st == SLEEPING)
			since = std::max(since, f.deadline);
		f.delay += std::max<int64_t>(0, now - since);
		bool first = f.ctx.uc_stack.ss_sp == nullptr;
		if (first) {
			getcontext(&f.ctx);
			f.ctx.uc_stack.ss_sp = stacks + STACK * pick;
			f.ctx.uc_stack.ss_size = STACK;
			f.ctx.uc_link = nullptr;
			makecontext(&f.ctx, (void (*)())trampoline, 1, pick);
		}
		cur = pick;
		if (switch_hook)
			switch_hook(pick);
		inside = true;
		if (swapcontext(&main_ctx, &f.ctx))
			harness_error("swapcontext");
		if (switch_hook)
			switch_hook(pick);
		++steps;
		if (++syncs > 400000 && !unlimited)
			fail("the threads make no progress (a busy loop in the library)");
	}
}

void end()
{
	for (auto &f : fib) {
		if (f->st != DONE_)
			harness_error("fiber left over");
		main_vc.join(f->vc);
	}
	++main_vc.c[MAXF];
	active = false;
	cur = -1;
}

static void sync_point()
{
	if (!active || !inside)
		return;
	++seq;
	++steps;
	if (strategy == 1) {
		for (uint64_t c : change_points)
			if (c == steps)
				fib[cur]->prio = --low_prio;
		switch_out();
	} else if (strategy == 0 && src->chance(1, sync_den)) {
		switch_out();
	}
	if (++syncs > 400000 && !unlimited)
		fail("the threads make no progress (a busy loop in the library)");
}

static void mem_point()
{
	++steps;
	if (++accesses > 4000000 && !unlimited)
		fail("the threads make no progress (a busy loop in the library)");
	if (strategy == 1) {
		for (uint64_t c : change_points)
			if (c == steps) {
				fib[cur]->prio = --low_prio;
				++n_preempt;
				switch_out();
			}
	} else if (strategy == 0 && --mem_left == 0) {
		mem_left = 1 + src->u(mem_max);
		++n_preempt;
		switch_out();
	}
}

void fresh(void *p, size_t n)
{
	if (detect && !internal)
		forget(p, n);
}
void on_switch(void (*f)(int)) { switch_hook = f; }
void no_limit() { unlimited = true; }
uint64_t work() { return n_work; }
int self() { return cur; }
void point() { sync_point(); }
uint64_t tick() { return ++seq; }
int64_t now_us() { return now; }
void sleep_us(int64_t us)
{
	Fiber &f = *fib[cur];
	f.st = SLEEPING;
	f.deadline = now + us;
	switch_out();
	f.st = READY;
}
size_t watch(int64_t d)
{
	watches.push_back({d, 0});
	if (now >= d)
		watches.back().second = ++seq;
	return watches.size() - 1;
}
uint64_t crossed(size_t w) { return watches[w].second; }
int64_t delay_us() { return fib[cur]->delay; }
int locks_held() { return fib[cur]->held; }
bool blocked_on_cond(int f) { return fib[f]->st == ON_COND; }
bool blocked_on_mutex(int f) { return fib[f]->st == ON_MUTEX; }
bool finished(int f) { return fib[f]->st == DONE_; }
size_t fibers() { return fib.size(); }
uint64_t switches() { return n_switch; }
uint64_t preemptions() { return n_preempt; }
uint64_t spurious() { return n_spurious; }
uint64_t waits() { return n_wait; }
uint64_t timeouts() { return n_timeout; }

// ------------------------------------------------------------------ locks

static Mutex *get_mutex(void *p)
{
	auto it = mutexes.find(p);
	if (it != mutexes.end())
		return &it->second;
	// a zeroed mutex is a statically initialised one
	for (size_t i = 0; i < sizeof(pthread_mutex_t); ++i)
		if (((char *)p)[i])
			fail("the library uses a mutex that is not initialised or was destroyed");
	return &mutexes[p];
}
static Cond *get_cond(void *p)
{
	auto it = conds.find(p);
	if (it != conds.end())
		return &it->second;
	for (size_t i = 0; i < sizeof(pthread_cond_t); ++i)
		if (((char *)p)[i])
			fail("the library uses a condition variable that is not initialised or was destroyed");
	return &conds[p];
}

static void acquire(Mutex *m, int f)
{
	m->owner = f;
	vc_of(f).join(m->vc);
	if (f != MAIN)
		++fib[f]->held;
}
static void release(Mutex *m, int f)
{
	m->owner = -1;
	VC &v = vc_of(f);
	m->vc = v;
	if (f < MAXF || f == MAIN)
		++v.c[ix(f)];
	if (f != MAIN)
		--fib[f]->held;
}

static void lock_blocking(void *p)
{
	for (;;) {
		Mutex *m = get_mutex(p);
		if (m->owner < 0)
			return acquire(m, me());
		if (m->owner == me())
			fail("deadlock: a thread locks the mutex it already holds");
		if (!inside)
			fail("deadlock: the mutex was left locked");
		Fiber &f = *fib[cur];
		f.st = ON_MUTEX;
		f.wait_on = p;
		switch_out();
		f.st = READY;
	}
}

static int wait_cond(void *c, void *mx, bool timed, int64_t deadline)
{
	Mutex *m = get_mutex(mx);
	get_cond(c);
	if (m->owner != me())
		fail("the library waits on a condition without holding the mutex");
	++n_wait;
	if (!active || !inside) {
		if (!timed)
			fail("a thread would block forever");
		if (stub_now < deadline)
			stub_now = deadline;
		return ETIMEDOUT;
	}
	if (timed && now >= deadline) {
		sync_point();
		++n_timeout;
		return ETIMEDOUT; // the mutex is released and taken again in between
	}
	Fiber &f = *fib[cur];
	release(m, cur);
	++conds[c].waiters;
	++seq;
	f.st = ON_COND;
	f.wait_on = c;
	f.timed = timed;
	f.deadline = deadline;
	f.woken = false;
	switch_out();
	bool to = !f.woken;
	f.st = READY;
	f.timed = false;
	auto it = conds.find(c);
	if (it == conds.end())
		fail("a condition variable was destroyed while a thread waits on it");
	--it->second.waiters;
	if (to)
		++n_timeout;
	lock_blocking(mx);
	return to ? ETIMEDOUT : 0;
}

static void wake(void *c, bool all)
{
	if (!active)
		return;
	std::vector<Fiber *> w;
	for (auto &f : fib)
		if (f->st == ON_COND && f->wait_on == c && !f->woken)
			w.push_back(f.get());
	if (w.empty())
		return;
	if (all) {
		for (Fiber *f : w) {
			f->woken = true;
			f->ready_since = f->timed ? std::min(now, f->deadline) : now;
		}
	} else {
		Fiber *f = w[w.size() > 1 ? src->u((uint32_t)w.size() - 1) : 0];
		f->woken = true;
		f->ready_since = f->timed ? std::min(now, f->deadline) : now;
	}
}

} // namespace sim

using namespace sim;

extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *)
{
	mutexes[m] = Mutex();
	memset((void *)m, 0, sizeof *m);
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (get_mutex(m)->owner >= 0)
		return EBUSY;
	mutexes.erase(m);
	memset((void *)m, 0x3C, sizeof *m);
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
	sync_point();
	lock_blocking(m);
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
	sync_point();
	Mutex *x = get_mutex(m);
	if (x->owner >= 0)
		return EBUSY;
	acquire(x, me());
	return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return sim_pthread_mutex_lock(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
	Mutex *x = get_mutex(m);
	if (x->owner != me())
		fail("the library unlocks a mutex that the thread does not hold");
	release(x, me());
	sync_point();
	return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	Cond x;
	if (a) {
		clockid_t id;
		if (!pthread_condattr_getclock(a, &id))
			x.clock = id;
	}
	conds[c] = x;
	memset((void *)c, 0, sizeof *c);
	return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
	get_cond(c);
	conds.erase(c);
	memset((void *)c, 0x3C, sizeof *c);
	return 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait_cond(c, m, false, 0); }
static int timed(pthread_cond_t *c, pthread_mutex_t *m, int clock, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	int64_t d;
	if (ts->tv_sec > (int64_t)1 << 40)
		d = INT64_MAX / 2;
	else
		d = (int64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
	if (clock != CLOCK_REALTIME)
		d += mono_offset;
	return wait_cond(c, m, true, d);
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return timed(c, m, get_cond(c)->clock, ts); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, const struct timespec *ts) { return timed(c, m, clock, ts); }
int sim_pthread_cond_signal(pthread_cond_t *c)
{
	get_cond(c);
	wake(c, false);
	sync_point();
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
	get_cond(c);
	wake(c, true);
	sync_point();
	return 0;
}
static int64_t current_us() { return active ? now : stub_now; }
int sim_gettimeofday(struct timeval *tv, void *)
{
	if (tv) {
		tv->tv_sec = current_us() / 1000000;
		tv->tv_usec = current_us() % 1000000;
	}
	return 0;
}
int sim_clock_gettime(clockid_t id, struct timespec *ts)
{
	int64_t t = current_us();
	if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)
		t -= mono_offset;
	ts->tv_sec = t / 1000000;
	ts->tv_nsec = t % 1000000 * 1000;
	return 0;
}
time_t sim_time(time_t *p)
{
	time_t t = current_us() / 1000000;
	if (p)
		*p = t;
	return t;
}
int sim_timespec_get(struct timespec *ts, int base)
{
	sim_clock_gettime(CLOCK_REALTIME, ts);
	return base;
}
int sim_usleep(unsigned us)
{
	if (active && inside)
		sim::sleep_us(us);
	else
		stub_now += us;
	return 0;
}
int sim_nanosleep(const struct timespec *ts, struct timespec *) { return sim_usleep((unsigned)(ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000)); }
int sim_sched_yield(void)
{
	if (active && inside)
		switch_out();
	return 0;
}

// instrumentation of the library's object code
void *sim_memset(void *p, int c, size_t n)
{
	n_work += 1 + n / 8;
	if (active && inside) {
		if (detect && n)
			access(p, n, true);
		mem_point();
	}
	return memset(p, c, n);
}
void *sim_memcpy(void *p, const void *q, size_t n)
{
	n_work += 1 + n / 8;
	if (active && inside) {
		if (detect && n) {
			access(q, n, false);
			access(p, n, true);
		}
		mem_point();
	}
	return memcpy(p, q, n);
}
void *sim_memmove(void *p, const void *q, size_t n)
{
	n_work += 1 + n / 8;
	if (active && inside) {
		if (detect && n) {
			access(q, n, false);
			access(p, n, true);
		}
		mem_point();
	}
	return memmove(p, q, n);
}
#define LOADSTORE(n) \
	void __sanitizer_cov_load##n(void *p) { ++n_work; if (active && inside) { if (detect) access(p, n, false); mem_point(); } } \
	void __sanitizer_cov_store##n(void *p) { ++n_work; if (active && inside) { if (detect) access(p, n, true); mem_point(); } }
LOADSTORE(1) LOADSTORE(2) LOADSTORE(4) LOADSTORE(8) LOADSTORE(16)
#ifndef VT_FUZZ
void __sanitizer_cov_trace_pc_guard(uint32_t *) { ++n_work; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
#endif
}

// memory of the harness that the library gets to see is reused by other threads
static void *tell(void *p, size_t n)
{
	if (!p)
		abort();
	sim::fresh(p, n);
	return p;
}
void *operator new(size_t n) { return tell(malloc(n ? n : 1), n); }
void *operator new[](size_t n) { return tell(malloc(n ? n : 1), n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
