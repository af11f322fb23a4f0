// Property-based testing engine: recorded choice sequences, forked workers, shrinking, replay.
#pragma once
#include <functional>
#include <array>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

// Ends the current case as a failure of the property (never returns; the worker process exits).
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Ends the current case as a broken harness (an error of the check, never a violation).
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

struct Src {
	// --- choices ---
	uint32_t u(uint32_t max);                       // uniform in [0, max]; 0 is simplest
	uint64_t u64();                                 // 64 random bits
	bool chance(uint32_t num, uint32_t den);        // true with probability num/den; false is simplest
	bool at_case(long k);                           // true in the k-th case of a run only (and in its replay)
	size_t w(std::initializer_list<uint32_t> ws);   // weighted index; 0 is simplest
	uint32_t range(uint32_t lo, uint32_t hi) { return lo + u(hi - lo); }
	uint32_t size(uint32_t max);                    // size biased to small values, in [0, max]
	// Loop control: one more operation? Opens a span, so that the shrinker can delete the operation.
	bool more(uint32_t mean);
	// --- reporting ---
	void nontrivial() { nt = true; }
	void label(const char *name);                   // count the case under this label (static string)
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	bool noting() const { return trace != nullptr; }

	// --- engine side ---
	enum Mode { SEEDED, REPLAY } mode = SEEDED;
	uint64_t rng = 0;
	long index = -1;                                // number of the case
	const uint32_t *in = nullptr;
	size_t nin = 0, pos = 0;
	uint32_t *rec = nullptr;                        // recording of the choices drawn
	size_t reccap = 0, nrec = 0;
	uint32_t *spans = nullptr;                      // starts of operations in rec
	size_t spancap = 0, nspans = 0;
	uint64_t hash = 1469598103934665603ull;
	std::vector<uint32_t> *tap = nullptr;           // a copy of the choices, to run the same history again
	bool nt = false;
	std::string *trace = nullptr;
	uint64_t label_mask = 0;
	uint64_t raw();
	uint32_t take(uint32_t max);
};

struct Property {
	const char *id;
	void (*fn)(Src &);
	const char *rule;
	// number of cases: product build quick / thorough, sanitizer build quick / thorough
	long quick_rel, thorough_rel, quick_asan, thorough_asan;
	int batch;      // cases per worker process
	int cpu_limit;  // seconds of CPU after which a case counts as not terminating
};
void register_property(const Property &);
struct Registrar { explicit Registrar(const Property &p) { register_property(p); } };
#define PROPERTY(id, fn, rule, qr, tr, qa, ta) \
	static Registrar registrar_##id(Property{#id, fn, rule, qr, tr, qa, ta, 200, 20})

// true in the thorough tier (generators may use it to widen size ranges)
extern bool g_thorough;
// this case needs more CPU time than others
void patience(int seconds);
// the memory that is free, in bytes
size_t memory_available();
// in a process of its own, which may be ended for lack of memory
void in_child(int seconds, const std::function<void()> &fn);
// deterministic mixing of a drawn seed
static inline uint64_t mix64(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}

// Goes on with an object for so many operations that 16-bit counters of operations wrap around: operations drawn from
// one seed, or a short sequence repeated. Only the seed or the sequence and the number of operations are choices.
template <class F> void prolong(Src &s, F step)
{
	s.label("100000s of operations");
	bool cycle = s.chance(1, 2);
	uint64_t seed = cycle ? 0 : s.u64();
	std::vector<std::array<uint32_t, 10>> seq(cycle ? 1 + s.u(3) : 0);
	for (auto &c : seq)
		for (auto &x : c)
			x = s.u(UINT32_MAX);
	uint32_t n = s.u(cycle ? 200000 : 500000);
	if (cycle)
		s.note("%zu operations, repeated %u times:", seq.size(), n);
	else
		s.note("%u operations drawn from %llx:", n, (unsigned long long)seed);
	Src t;
	t.rng = seed;
	for (uint32_t i = 0; i < n; ++i) {
		t.trace = cycle ? (i ? nullptr : s.trace) : n <= 300 ? s.trace : nullptr;
		if (!cycle) {
			step(t);
			continue;
		}
		for (auto &c : seq) {
			t.mode = Src::REPLAY;
			t.in = c.data();
			t.nin = c.size();
			t.pos = 0;
			step(t);
		}
	}
	s.note("end of the repetition");
}
