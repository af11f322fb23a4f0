#include "engine.h"
#include "vt.h"
#include "sim.h"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

bool g_thorough = false;

static const int MAXW = 16;
static const size_t MAXC = 1u << 19;
static const size_t MAXSPANS = 1u << 17;
static const size_t SETBITS = 24;
static const int MAXLABELS = 64;

struct Shm {
	std::atomic<long> min_fail;
	std::atomic<long> evals, nontrivial, distinct_nt;
	std::atomic<int> nlabels;
	char label_names[MAXLABELS][56];
	std::atomic<long> label_counts[MAXLABELS];
	std::atomic<uint64_t> set[1u << SETBITS];
	std::atomic<long> set_full;
	long cur[MAXW];          // case being run by each worker
	char msg[MAXW][1024];    // failure message of each worker
	// recording area for single-case children
	size_t nrec, nspans;
	uint32_t rec[MAXC];
	uint32_t spans[MAXSPANS];
	char trace[1u << 16];
	bool nt;
	bool costly;   // a case that takes long (in_child)
};
static Shm *shm;
static int g_slot = 0;

static std::vector<Property> &props()
{
	static std::vector<Property> v;
	return v;
}
void register_property(const Property &p) { props().push_back(p); }

static Src *g_src; // case being run
static void flush_trace()
{
	if (g_src && g_src->trace) {
		const std::string &t = *g_src->trace;
		size_t n = t.size() < sizeof shm->trace - 1 ? t.size() : sizeof shm->trace - 1;
		// keep head and tail of long traces
		if (t.size() <= sizeof shm->trace - 1) {
			memcpy(shm->trace, t.data(), n);
		} else {
			size_t half = (sizeof shm->trace - 64) / 2;
			std::string s = t.substr(0, half) + "\n  ...\n" + t.substr(t.size() - half);
			n = s.size();
			memcpy(shm->trace, s.data(), n);
		}
		shm->trace[n] = 0;
	}
	if (g_src && g_src->rec) {
		shm->nrec = g_src->nrec;
		shm->nspans = g_src->nspans;
		shm->nt = g_src->nt;
	}
}

void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(shm->msg[g_slot], sizeof shm->msg[g_slot], fmt, ap);
	va_end(ap);
	flush_trace();
#ifdef VT_FUZZ
	fprintf(stderr, "FAILED: %s\n", shm->msg[g_slot]);
	abort(); // libFuzzer keeps the input
#endif
	_exit(3);
}

void harness_error(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(shm->msg[g_slot], sizeof shm->msg[g_slot], fmt, ap);
	va_end(ap);
	flush_trace();
	_exit(9);
}

// ---------------------------------------------------------------- choices

uint64_t Src::raw()
{
	rng += 0x9E3779B97F4A7C15ull;
	uint64_t x = rng;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}

uint32_t Src::take(uint32_t max)
{
	uint32_t v;
	if (mode == SEEDED) {
		v = max == UINT32_MAX ? (uint32_t)raw() : (uint32_t)(((raw() >> 32) * ((uint64_t)max + 1)) >> 32);
	} else {
		v = pos < nin ? in[pos] : 0;
		++pos;
		if (v > max)
			v = max == 0 ? 0 : (uint32_t)(v % ((uint64_t)max + 1));
	}
	if (rec) {
		if (nrec < reccap)
			rec[nrec] = v;
		++nrec;
		shm->nrec = nrec;
		shm->nspans = nspans;
	}
	if (tap)
		tap->push_back(v);
	hash = (hash ^ v) * 1099511628211ull;
	hash ^= hash >> 29;
	return v;
}

uint32_t Src::u(uint32_t max) { return max ? take(max) : 0; }
uint64_t Src::u64()
{
	uint64_t hi = take(UINT32_MAX);
	return hi << 32 | take(UINT32_MAX);
}
bool Src::chance(uint32_t num, uint32_t den) { return take(den - 1) >= den - num; }
static bool g_sampling; // the run for the samples does without costly cases
bool Src::at_case(long k)
{
	if (mode != SEEDED)
		return take(1) != 0;
	// the choice is recorded like a drawn one
	uint32_t v = index == k && !g_sampling;
	mode = REPLAY;
	const uint32_t *oin = in;
	size_t onin = nin, opos = pos;
	in = &v;
	nin = 1;
	pos = 0;
	take(1);
	in = oin;
	nin = onin;
	pos = opos;
	mode = SEEDED;
	return v != 0;
}
size_t Src::w(std::initializer_list<uint32_t> ws)
{
	uint32_t total = 0;
	for (uint32_t x : ws)
		total += x;
	uint32_t v = u(total - 1);
	size_t i = 0;
	for (uint32_t x : ws) {
		if (v < x)
			return i;
		v -= x;
		++i;
	}
	return 0;
}
uint32_t Src::size(uint32_t max)
{
	uint32_t k = u(9);
	if (k < 5)
		return u(max < 8 ? max : 8);
	if (k < 8)
		return u(max < 70 ? max : 70);
	return u(max);
}
bool Src::more(uint32_t mean)
{
	if (spans && nspans < spancap)
		spans[nspans] = (uint32_t)nrec;
	if (spans)
		++nspans;
	return take(mean) != 0;
}

void Src::label(const char *name)
{
	int n = shm->nlabels.load(std::memory_order_acquire);
	for (int i = 0; i < n && i < MAXLABELS; ++i)
		if (!strcmp(shm->label_names[i], name)) {
			label_mask |= 1ull << i;
			return;
		}
	// register: a lock is unnecessary as duplicates are merged when reporting
	int i = shm->nlabels.fetch_add(1);
	if (i < MAXLABELS) {
		snprintf(shm->label_names[i], sizeof shm->label_names[i], "%s", name);
		label_mask |= 1ull << i;
	} else {
		shm->nlabels.store(MAXLABELS);
	}
}

void Src::note(const char *fmt, ...)
{
	if (!trace)
		return;
	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (trace->size() > 4u << 20)
		return;
	trace->append(buf);
	trace->push_back('\n');
	// also visible if the process is killed by the next call
	size_t have = strlen(shm->trace), len = strlen(buf);
	if (have + len + 2 < sizeof shm->trace / 2) {
		memcpy(shm->trace + have, buf, len);
		shm->trace[have + len] = '\n';
		shm->trace[have + len + 1] = 0;
	}
}

// ---------------------------------------------------------------- running cases

static uint64_t g_seed;
static const Property *g_prop;
static int g_cpu_limit;

static uint64_t case_seed(long index)
{
	uint64_t h = mix64(g_seed * 0x1000193 + 77);
	for (const char *p = g_prop->id; *p; ++p)
		h = mix64(h ^ (unsigned char)*p);
	return mix64(h ^ (uint64_t)index * 0xD1342543DE82EF95ull);
}

static void arm(int seconds)
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &it, nullptr);
}

static void run_case(Src &s)
{
	g_src = &s;
	vt_reset();
	sim::reset();
	arm(g_cpu_limit);
	g_prop->fn(s);
	sim::reset();
	vt_reset();
	g_src = nullptr;
}

void patience(int seconds)
{
	if (g_cpu_limit)
		arm(seconds);
}

void in_child(int seconds, const std::function<void()> &fn)
{
	shm->costly = true;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0)
		return;
	if (pid == 0) {
		int fd = open("/proc/self/oom_score_adj", O_WRONLY);
		if (fd >= 0 && write(fd, "1000", 4) == 4)
			close(fd);
		patience(seconds);
		fn();
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0)
		;
	if (WIFEXITED(st)) {
		if (WEXITSTATUS(st))
			_exit(WEXITSTATUS(st)); // the message is in place
	} else if (WTERMSIG(st) != SIGKILL) { // that is the system's answer to a lack of memory
		signal(WTERMSIG(st), SIG_DFL);
		raise(WTERMSIG(st));
	}
}

size_t memory_available()
{
	FILE *f = fopen("/proc/meminfo", "r");
	if (!f)
		return 0;
	char line[200];
	unsigned long kb = 0;
	while (fgets(line, sizeof line, f))
		if (sscanf(line, "MemAvailable: %lu", &kb) == 1)
			break;
	fclose(f);
	return (size_t)kb << 10;
}

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void child_setup()
{
	int fd = open("/dev/null", O_RDWR);
	if (fd >= 0) {
		dup2(fd, 0);
		if (!getenv("VT_KEEP_STDERR"))
			dup2(fd, 2);
		if (fd > 2)
			close(fd);
	}
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPIPE, SIG_IGN);
}

static void count_case(const Src &s)
{
	shm->evals.fetch_add(1, std::memory_order_relaxed);
	for (int i = 0; i < MAXLABELS; ++i)
		if (s.label_mask >> i & 1)
			shm->label_counts[i].fetch_add(1, std::memory_order_relaxed);
	if (!s.nt)
		return;
	shm->nontrivial.fetch_add(1, std::memory_order_relaxed);
	uint64_t h = s.hash ? s.hash : 1;
	size_t m = (1u << SETBITS) - 1, i = h & m;
	for (int k = 0; k < 64; ++k, i = (i + 1) & m) {
		uint64_t e = 0;
		if (shm->set[i].load(std::memory_order_relaxed) == h)
			return;
		if (shm->set[i].compare_exchange_strong(e, h)) {
			shm->distinct_nt.fetch_add(1, std::memory_order_relaxed);
			return;
		}
		if (e == h)
			return;
	}
	shm->set_full.fetch_add(1);
}

struct Outcome {
	bool failed = false;
	bool harness = false;
	std::string what;
};

static Outcome outcome(int status, int slot)
{
	Outcome o;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
		return o;
	o.failed = true;
	char b[200];
	if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
		o.what = shm->msg[slot];
	} else if (WIFEXITED(status) && WEXITSTATUS(status) == 9) {
		o.harness = true;
		o.what = std::string("harness error: ") + shm->msg[slot];
	} else if (WIFEXITED(status) && WEXITSTATUS(status) == 66) {
		o.what = "memory error or undefined behaviour reported by the sanitizer";
	} else if (WIFEXITED(status)) {
		snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(status));
		o.what = b;
	} else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) {
		o.what = "operation does not terminate (CPU limit)";
	} else if (WIFSIGNALED(status)) {
		snprintf(b, sizeof b, "crash: killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
		o.what = b;
	}
	return o;
}

// Runs one case in a child; choices == nullptr: from the seed of `index`.
static Outcome run_single(const std::vector<uint32_t> *choices, long index, bool record, bool trace, int cpu)
{
	shm->nrec = shm->nspans = 0;
	shm->costly = false;
	shm->trace[0] = 0;
	shm->msg[0][0] = 0;
	shm->nt = false;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup();
		g_slot = 0;
		g_cpu_limit = cpu;
		Src s;
		std::string t;
		if (choices) {
			s.mode = Src::REPLAY;
			s.in = choices->data();
			s.nin = choices->size();
		} else {
			s.rng = case_seed(index);
			s.index = index;
		}
		if (record) {
			s.rec = shm->rec;
			s.reccap = MAXC;
			s.spans = shm->spans;
			s.spancap = MAXSPANS;
		}
		if (trace)
			s.trace = &t;
		run_case(s);
		g_src = &s;
		flush_trace();
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0)
		;
	return outcome(st, 0);
}

// Runs the cases first..last in one child, as a worker does.
static Outcome run_batch(long first, long last, int cpu)
{
	shm->msg[0][0] = 0;
	pid_t pid = fork();
	if (pid == 0) {
		child_setup();
		g_slot = 0;
		g_cpu_limit = cpu;
		for (long i = first; i <= last; ++i) {
			Src s;
			s.rng = case_seed(i);
			s.index = i;
			run_case(s);
		}
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0)
		;
	return outcome(st, 0);
}

static std::vector<uint32_t> recorded()
{
	size_t n = shm->nrec < MAXC ? shm->nrec : MAXC;
	return std::vector<uint32_t>(shm->rec, shm->rec + n);
}

struct Shrinker {
	std::vector<uint32_t> best;
	double deadline;
	long attempts = 0;
	bool try_it(std::vector<uint32_t> c)
	{
		if (now() > deadline || attempts > 20000)
			return false;
		++attempts;
		Outcome o = run_single(&c, 0, true, false, 3);
		if (!o.failed || o.harness)
			return false;
		std::vector<uint32_t> used = recorded();
		if (shm->nrec <= MAXC && used.size() < c.size())
			c = used;
		// accept only strictly simpler sequences (shorter, or lexicographically smaller)
		if (c.size() > best.size() || (c.size() == best.size() && !(c < best)))
			return false;
		best = c;
		return true;
	}
	std::vector<size_t> span_starts()
	{
		run_single(&best, 0, true, false, 3);
		std::vector<size_t> v;
		for (size_t i = 0; i < shm->nspans && i < MAXSPANS; ++i)
			if (shm->spans[i] < best.size())
				v.push_back(shm->spans[i]);
		v.push_back(best.size());
		return v;
	}
	void run()
	{
		bool progress = true;
		while (progress && now() < deadline) {
			progress = false;
			// whole operations, in chunks of decreasing size
			std::vector<size_t> sp = span_starts();
			for (size_t chunk = sp.size(); chunk >= 1 && now() < deadline; chunk /= 2) {
				for (size_t i = sp.size() >= 1 + chunk ? sp.size() - 1 - chunk : 0;;) {
					if (i + chunk < sp.size() && sp[i] < sp[i + chunk] && sp[i + chunk] <= best.size()) {
						std::vector<uint32_t> c(best.begin(), best.begin() + sp[i]);
						c.insert(c.end(), best.begin() + sp[i + chunk], best.end());
						if (try_it(c)) {
							progress = true;
							sp = span_starts();
							if (i >= sp.size())
								i = sp.size() ? sp.size() - 1 : 0;
						}
					}
					if (i == 0 || now() > deadline)
						break;
					i = i > chunk ? i - chunk : 0;
				}
			}
			// truncation
			for (size_t cut = best.size() / 2; cut >= 1 && now() < deadline; cut /= 2)
				while (best.size() > cut) {
					std::vector<uint32_t> c(best.begin(), best.end() - cut);
					if (!try_it(c))
						break;
					progress = true;
				}
			// raw chunks
			for (size_t chunk : {8u, 4u, 3u, 2u, 1u})
				for (size_t i = best.size() > chunk ? best.size() - chunk : 0; now() < deadline;) {
					if (i + chunk <= best.size()) {
						std::vector<uint32_t> c(best.begin(), best.begin() + i);
						c.insert(c.end(), best.begin() + i + chunk, best.end());
						if (try_it(c))
							progress = true;
					}
					if (i == 0)
						break;
					--i;
				}
			// values
			for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
				if (!best[i])
					continue;
				std::vector<uint32_t> c = best;
				c[i] = 0;
				if (try_it(c)) {
					progress = true;
					continue;
				}
				uint32_t lo = 0, hi = best[i];
				while (i < best.size() && hi - lo > 1 && now() < deadline) {
					uint32_t mid = lo + (hi - lo) / 2;
					c = best;
					c[i] = mid;
					if (try_it(c)) {
						progress = true;
						if (i >= best.size())
							break;
						hi = best[i] < mid ? best[i] : mid;
					} else {
						lo = mid;
					}
				}
			}
		}
	}
};

static std::string json_str(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c == '\n') {
			o += "\\n";
		} else if (c < 32 || c > 126) {
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}

#define VARIANT vt_variant

// returns 0: quiet, 1: violation (replay file written), 2: error
static int campaign(long ncases, const char *result_path, const char *replay_path, double wall_limit)
{
	double t0 = now();
	int workers = getenv("VT_WORKERS") ? atoi(getenv("VT_WORKERS")) : 8;
	if (workers < 1 || workers > MAXW)
		workers = 8;
	int batch = g_prop->batch;
	// several batches for each worker even when there are few cases
	while (batch > 1 && ncases / batch < workers * 2)
		batch /= 2;
	long nbatches = (ncases + batch - 1) / batch;
	shm->min_fail = ncases;
	std::atomic<long> *next = (std::atomic<long> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	*next = 0;
	bool timed_out = false;
	struct Slot { pid_t pid = 0; long first = 0; };
	std::vector<Slot> slots(workers);
	std::vector<pid_t> masters;
	// Each worker slot has a master process that forks one child per batch.
	long fail_index = -1, fail_first = -1;
	std::string fail_what;
	bool harness = false;
	long nb = 0;
	int active = 0;
	for (;;) {
		for (int k = 0; k < workers; ++k) {
			if (slots[k].pid || nb >= nbatches)
				continue;
			if (nb * batch > shm->min_fail)
				nb = nbatches;
			if (now() - t0 > wall_limit) {
				timed_out = true;
				nb = nbatches;
			}
			if (nb >= nbatches)
				continue;
			long first = nb++ * (long)batch;
			long last = first + batch - 1;
			if (last >= ncases)
				last = ncases - 1;
			shm->cur[k] = first;
			fflush(nullptr);
			pid_t pid = fork();
			if (pid == 0) {
				child_setup();
				g_slot = k;
				g_cpu_limit = g_prop->cpu_limit;
				for (long i = first; i <= last; ++i) {
					if (i > shm->min_fail)
						break;
					shm->cur[k] = i;
					Src s;
					s.rng = case_seed(i);
					s.index = i;
					run_case(s);
					count_case(s);
				}
				_exit(0);
			}
			slots[k].pid = pid;
			slots[k].first = first;
			++active;
		}
		if (!active)
			break;
		int st = 0;
		pid_t pid = waitpid(-1, &st, 0);
		if (pid < 0)
			continue;
		for (int k = 0; k < workers; ++k) {
			if (slots[k].pid != pid)
				continue;
			slots[k].pid = 0;
			--active;
			Outcome o = outcome(st, k);
			if (o.failed) {
				long i = shm->cur[k];
				if (fail_index < 0 || i < fail_index) {
					fail_index = i;
					fail_first = slots[k].first;
					fail_what = o.what;
					harness = o.harness;
					shm->min_fail = i;
				}
			}
		}
	}
	double explore_s = now() - t0;

	int rc = 0;
	std::string verdict = "held";
	if (fail_index >= 0) {
		printf("[%s/%s] case %ld failed: %s\n", g_prop->id, VARIANT, fail_index, fail_what.c_str());
		fflush(stdout);
		if (getenv("VT_FAST")) // development: mutation runs need the verdict only
			return harness ? 2 : 1;
		int cpu = g_prop->cpu_limit;
		bool batch_mode = false;
		std::vector<uint32_t> final_choices;
		std::string what = fail_what, trace;
		long first = fail_index;
		Outcome o = run_single(nullptr, fail_index, true, false, cpu);
		int hits = 0;
		bool complete = shm->nrec <= MAXC;
		if (o.failed) {
			std::vector<uint32_t> original = recorded();
			harness = harness || o.harness;
			if (complete && !harness) {
				Shrinker sh;
				sh.best = original;
				sh.deadline = now() + (g_thorough ? 90 : 45);
				// a case of many seconds is neither shrunk nor repeated more than once
				if (!shm->costly)
					sh.run();
				final_choices = sh.best;
				for (int r = 0; r < (shm->costly ? 1 : 3); ++r) {
					Outcome q = run_single(&final_choices, 0, true, true, cpu);
					hits += q.failed && !q.harness;
					if (q.failed) {
						what = q.what;
						trace = shm->trace;
					}
				}
				if (shm->costly && hits)
					hits = 3;
				if (hits < 3) {
					final_choices = original;
					hits = 0;
					for (int r = 0; r < 3; ++r) {
						Outcome q = run_single(&final_choices, 0, true, true, cpu);
						hits += q.failed && !q.harness;
						if (q.failed) {
							what = q.what;
							trace = shm->trace;
						}
					}
				}
				printf("[%s/%s] shrunk from %zu to %zu choices in %ld attempts\n", g_prop->id, VARIANT, original.size(), final_choices.size(), sh.attempts);
			}
		}
		if (hits < 3 && !harness) {
			// depends on earlier cases in the same process: replay the batch
			batch_mode = true;
			hits = 0;
			first = fail_first;
			// try shorter histories first
			for (long back = 1; fail_index - back > fail_first; back *= 2)
				if (run_batch(fail_index - back, fail_index, cpu).failed) {
					first = fail_index - back;
					break;
				}
			for (int r = 0; r < 3; ++r) {
				Outcome q = run_batch(first, fail_index, cpu);
				hits += q.failed && !q.harness;
				if (q.failed)
					what = q.what;
			}
		}
		if (harness) {
			verdict = "harness error: " + fail_what;
			rc = 2;
		} else if (hits == 3) {
			rc = 1;
			verdict = "violated";
			FILE *f = fopen(replay_path, "w");
			if (!f) {
				perror(replay_path);
				return 2;
			}
			fprintf(f, "property %s\nvariant %s\nthorough %d\n", g_prop->id, VARIANT, (int)g_thorough);
			if (batch_mode) {
				fprintf(f, "mode batch\nseed %llu\nfirst %ld\nlast %ld\n", (unsigned long long)g_seed, first, fail_index);
			} else {
				fprintf(f, "mode choices\ncount %zu\n", final_choices.size());
				for (size_t i = 0; i < final_choices.size(); ++i)
					fprintf(f, "%u%c", final_choices[i], i % 20 == 19 ? '\n' : ' ');
				fprintf(f, "\n");
			}
			fprintf(f, "# failure: %s\n", what.c_str());
			std::string line;
			for (char c : trace + "\n") {
				if (c == '\n') {
					if (!line.empty())
						fprintf(f, "# %s\n", line.c_str());
					line.clear();
				} else {
					line += c;
				}
			}
			fclose(f);
			printf("[%s/%s] %s\n%s\n", g_prop->id, VARIANT, what.c_str(), trace.size() < 3000 ? trace.c_str() : (trace.substr(0, 3000) + "...").c_str());
		} else {
			verdict = "unreproduced failure: " + fail_what;
			printf("[%s/%s] the failure did not reproduce; not reported as a violation\n", g_prop->id, VARIANT);
		}
	}

	// samples: the first non-trivial cases, run again with notes (small ones preferred)
	std::vector<std::string> samples;
	g_sampling = true;
	if (rc == 0)
		for (long i = 0, tried = 0; i < ncases && samples.size() < 3 && tried < 60; ++i, ++tried) {
			Outcome o = run_single(nullptr, i, true, true, g_prop->cpu_limit);
			if (o.failed)
				break;
			if (shm->nt && strlen(shm->trace) > 60 && (strlen(shm->trace) < 1800 || tried > 40))
				samples.push_back(std::string(shm->trace).substr(0, 2000));
		}

	FILE *f = fopen(result_path, "w");
	if (!f) {
		perror(result_path);
		return 2;
	}
	fprintf(f, "{\"variant\": \"%s\", \"cases_planned\": %ld, \"evaluations\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %ld, "
	        "\"timed_out\": %s, \"explore_s\": %.2f, \"verdict\": %s, \"rule\": %s, \"labels\": {",
	        VARIANT, ncases, shm->evals.load(), shm->nontrivial.load(), shm->distinct_nt.load(), timed_out ? "true" : "false", explore_s,
	        json_str(verdict).c_str(), json_str(g_prop->rule).c_str());
	int n = shm->nlabels;
	if (n > MAXLABELS)
		n = MAXLABELS;
	bool firstl = true;
	for (int i = 0; i < n; ++i) {
		long c = shm->label_counts[i];
		bool dup = false;
		for (int j = 0; j < i; ++j)
			dup = dup || !strcmp(shm->label_names[i], shm->label_names[j]);
		if (dup)
			continue;
		for (int j = i + 1; j < n; ++j)
			if (!strcmp(shm->label_names[i], shm->label_names[j]))
				c += shm->label_counts[j];
		fprintf(f, "%s%s: %ld", firstl ? "" : ", ", json_str(shm->label_names[i]).c_str(), c);
		firstl = false;
	}
	fprintf(f, "}, \"samples\": [");
	for (size_t i = 0; i < samples.size(); ++i)
		fprintf(f, "%s%s", i ? ", " : "", json_str(samples[i]).c_str());
	fprintf(f, "]}\n");
	fclose(f);
	printf("[%s/%s] %ld cases, %ld non-trivial (%ld distinct), %.1f s: %s\n", g_prop->id, VARIANT, shm->evals.load(), shm->nontrivial.load(),
	       shm->distinct_nt.load(), explore_s, verdict.c_str());
	return rc;
}

static int replay(const char *path)
{
	FILE *f = fopen(path, "r");
	if (!f) {
		perror(path);
		return 2;
	}
	char id[64] = "", variant[64] = "", mode[64] = "";
	int th = 0;
	if (fscanf(f, " property %63s variant %63s thorough %d mode %63s", id, variant, &th, mode) != 4) {
		fprintf(stderr, "%s: not a replay file\n", path);
		return 2;
	}
	g_thorough = th;
	g_prop = nullptr;
	for (auto &p : props())
		if (!strcmp(p.id, id))
			g_prop = &p;
	if (!g_prop)
		return 2;
	Outcome o;
	if (!strcmp(mode, "choices")) {
		size_t n = 0;
		if (fscanf(f, " count %zu", &n) != 1)
			return 2;
		std::vector<uint32_t> c(n);
		for (auto &x : c)
			if (fscanf(f, "%u", &x) != 1)
				return 2;
		o = run_single(&c, 0, true, true, g_prop->cpu_limit);
		printf("%s", shm->trace);
	} else {
		unsigned long long seed;
		long first, last;
		if (fscanf(f, " seed %llu first %ld last %ld", &seed, &first, &last) != 3)
			return 2;
		g_seed = seed;
		o = run_batch(first, last, g_prop->cpu_limit);
	}
	fclose(f);
	printf("%s\n", o.failed ? ("FAILED: " + o.what).c_str() : "passed");
	return o.failed ? 1 : 0;
}

#ifndef VT_FUZZ
int main(int argc, char **argv)
{
	// identical addresses in every run, where the system allows it
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VT_REEXEC")) {
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
			setenv("VT_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	if (argc == 3 && !strcmp(argv[1], "replay"))
		return replay(argv[2]);
	if (argc < 6) {
		fprintf(stderr, "usage: %s ID TIER SEED RESULT REPLAY [CASES]\n", argv[0]);
		return 2;
	}
	g_thorough = !strcmp(argv[2], "thorough");
	g_seed = strtoull(argv[3], nullptr, 10);
	for (auto &p : props())
		if (!strcmp(p.id, argv[1]))
			g_prop = &p;
	if (!g_prop) {
		fprintf(stderr, "unknown property %s\n", argv[1]);
		return 2;
	}
	bool asan = strcmp(VARIANT, "asan") == 0;
	// properties of the message queue run in the simulation first, the plain build is second
	bool plain = g_prop->id[0] == 'C' && atoi(g_prop->id + 1) >= 25 && atoi(g_prop->id + 1) <= 28 && !strcmp(VARIANT, "rel");
	asan = asan || plain;
	long n = g_thorough ? (asan ? g_prop->thorough_asan : g_prop->thorough_rel) : (asan ? g_prop->quick_asan : g_prop->quick_rel);
	if (argc > 6)
		n = atol(argv[6]);
	if (asan)
		g_seed = mix64(g_seed ^ 0xA5A5A5A5);
	return campaign(n, argv[4], argv[5], getenv("VT_WALL") ? atof(getenv("VT_WALL")) : (g_thorough ? 3000 : 330));
}
#else
// libFuzzer entry: the bytes are the choice sequence.
const char *vt_fuzz_id = VT_FUZZ;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	if (!shm) {
		shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (auto &p : props())
			if (!strcmp(p.id, vt_fuzz_id))
				g_prop = &p;
		g_cpu_limit = 0; // libFuzzer has a limit of its own
		g_thorough = true;
	}
	static std::vector<uint32_t> c;
	c.clear();
	// one byte per choice; 255 introduces a four-byte choice
	for (size_t i = 0; i < size; ++i) {
		if (data[i] == 255 && i + 4 < size) {
			uint32_t v;
			memcpy(&v, data + i + 1, 4);
			c.push_back(v);
			i += 4;
		} else {
			c.push_back(data[i]);
		}
	}
	Src s;
	s.mode = Src::REPLAY;
	s.in = c.data();
	s.nin = c.size();
	run_case(s);
	return 0;
}
#endif
