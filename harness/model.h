// Shared pieces of the test machines: elements, orders, free functions, pools.
#pragma once
#include "engine.h"
#include "shim.h"
#include "vt.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

// ------------------------------------------------------------------ elements
// Elements are objects in an arena, small integers cast to pointers, or strings.
enum Kind { OBJ, INT, STR, WILD /* any 64-bit value, never dereferenced */ };

struct Obj {
	uint32_t magic;   // 0x0B1EC7
	int32_t val;
	uint32_t frees;   // how often it was passed to a free function
	uint32_t serial;
	char str[24];     // STR elements point here
};

struct Ctx {
	Kind kind = OBJ;
	int order = 0;        // 0 natural, 1 reversed
	int coarse = 1;       // values are compared in groups of this size
	bool native = false;  // the library's own functions compare and hash: no NULL, natural order
	bool prefix = false;  // long strings, which differ at their ends only
	int nullmode = 0;     // NULL sorts 0 below, 1 above everything, 2 equal to an element, see nullval
	int32_t nullval = 0;
	int magnitude = 0;    // what the comparison function returns besides the sign
	int hashmode = 0;
	uint32_t hashmod = 1;
	uint64_t wa = 1, wb = 0;            // WILD elements are wa * value + wb, INT ones wa * value + 1
	int32_t wild_next = 0;
	bool watch_freed = false;           // elements used after being freed are failures
	uint64_t calls = 0, budget = UINT64_MAX; // calls of comparison functions
	std::vector<void *> freed, freed2;  // arguments of the first / second free function, in order
	std::vector<Obj *> objs;
};
extern Ctx cx;
extern void (*cx_hook)();              // called from within every callback of the library
void cx_reset();
Obj *obj_new(int32_t val);
void *elem_new(int32_t val);            // an element of the current kind
void *value_new(int32_t val);           // a map's value
void cx_wild(Src &s);
void cx_native(Src &s);                 // decides whether to use the library's own functions
int32_t elem_val(const void *e);
bool is_obj(const void *p);
Obj *elem_obj(const void *e);           // NULL for INT and NULL
std::string elem_str(const void *e);
void cx_draw(Src &s, bool kinds);       // draws kind, order and magnitudes
int64_t rank_of(const void *a);         // equal elements have equal ranks, the order is that of the ranks
int mcmp(const void *a, const void *b); // the order itself: -1, 0, 1
extern "C" {
int32_t elem_cmp(const void *a, const void *b);
bool elem_eq(const void *a, const void *b);
uint32_t elem_hash(const void *a);
void elem_free(void *p);
void elem_free2(void *p);
}
// the functions to create a container with
CmpFn cx_cmp();
EqFn cx_eq();
HashFn cx_hash();
// comparison calls allowed from here on before the operation counts as not terminating
static inline void budget(uint64_t n) { cx.calls = 0; cx.budget = n; }

// ------------------------------------------------------------------ pools
// A user-defined pool that tracks its chunks, or the library's pool.
struct TrackPool {
	ShimPool iface;
	uint32_t magic;
	size_t item;
	size_t live;
	uint64_t allocs, frees;
	int fill;
	bool lifo;                        // hands out the most recently returned chunk first
	std::vector<char *> *chunks;      // all chunks ever made (raw addresses)
	std::vector<uint8_t> *state;      // 1 live, 0 free
	std::vector<uint32_t> *free_list;
};
TrackPool *track_new(size_t item, Src &s);
void track_check(TrackPool *p);
void track_destroy(TrackPool *p);

struct PoolBox {
	enum Type { NONE, LIB, TRACK } type = NONE;
	void *pool = nullptr;
	TrackPool *track() const { return type == TRACK ? (TrackPool *)pool : nullptr; }
	void draw(Src &s, size_t item, std::initializer_list<uint32_t> ws);
	void destroy();
};

// ------------------------------------------------------------------ caller storage
// A region of exactly `size` bytes with guards, filled with garbage.
struct Storage {
	char *raw = nullptr;
	size_t size = 0;
	char *mem = nullptr;
	void create(size_t n, Src &s);
	void refill(Src &s);
	void check(const char *what);
	void destroy();
};
void fill_garbage(char *p, size_t n, Src &s);

static inline size_t sat_sub(size_t a, size_t b) { return a > b ? a - b : 0; }

// Gigabytes of readable memory: a few megabytes, mapped again and again, without bytes below a blank. Writes to the
// last megabytes stay there.
struct Wide {
	char *p = nullptr;
	size_t full;
	explicit Wide(size_t len);
	~Wide();
};
