// Stateful machines for lists (SeqMachine) and for stack/queue/message queue (LineMachine).
#pragma once
#include "model.h"
#include <deque>

// which oracles a property uses
enum {
	O_FORWARD = 1,   // contents, order, head, count, emptiness, handles
	O_BACKWARD = 2,  // backward links and tail
	O_SORTED = 4,
	O_FIND = 8,
	O_FREE = 16,     // calls of the free function
	O_POOL = 32,     // nodes taken from and returned to the pool
	O_LINE = 64,     // results of stack and queue operations
};

struct Shared { // pool shared by several machines
	PoolBox box;
	size_t expected_live = 0;
};

struct SeqMachine {
	struct Node { void *item; void *data; };
	const SeqOps *ops = nullptr;
	int oracles = 0;
	void *list = nullptr;
	bool own_storage = false;
	bool keep = false;            // this very object goes on for long: no new one, small sizes
	bool no_clear = false;        // nor is it emptied
	Storage st;
	bool has_free = false;
	Shared *shared = nullptr;
	std::vector<Node> m;
	size_t max_len = 0;
	// what happened, for the non-triviality rules
	unsigned n_insert = 0, n_remove = 0, n_middle = 0, n_dups = 0, n_tailchange = 0, n_probe = 0, n_freed = 0;
	std::vector<void *> expect;  // elements the current operation must free

	void create(Src &s, const SeqOps *o, int mask, bool free_fn, Shared *sh, int storage /*0 new, 1 init, 2 draw*/);
	void init_again(Src &s);
	void destroy(Src &s);
	void step(Src &s, int profile); // 0 general, 1 sorted
	void check();
	void check_free(const char *op);
	bool sorted() const;
	void *pick_data(Src &s);
	void *probe(Src &s);
	// single operations, shared with other properties
	void do_append(void *d);
	void do_prepend(void *d);
	void do_sorted(void *d);
	void do_pop();
	void do_remove(size_t i);
	void do_remove_data(void *d, bool all);
	void do_clear();
	void do_find(Src &s);
	size_t pick_index(Src &s);
	void pool_check();
	void begin_op() { cx.freed.clear(); expect.clear(); budget(200 + 20 * m.size()); }
	void end_op(const char *name);
};

struct LineMachine {
	const LineOps *ops = nullptr;
	int oracles = 0;
	void *q = nullptr;
	bool own_storage = false;
	bool keep = false;            // this very object goes on for long: no new one, small sizes
	bool no_clear = false;        // nor is it emptied
	Storage st;
	bool has_free = false;
	Shared *shared = nullptr;
	std::deque<void *> m;  // front = next to pop
	void *slot = nullptr;  // a destination whose address is an element, too
	unsigned n_push = 0, n_pop = 0, n_empty = 0, n_null = 0, n_wrap = 0, n_freed = 0;
	size_t max_len = 0;
	std::vector<void *> expect;

	void create(Src &s, const LineOps *o, int mask, bool free_fn, Shared *sh, int storage);
	void init_again(Src &s);
	void destroy(Src &s);
	void step(Src &s);
	void do_push(void *d);
	void do_pop(Src &s);
	void do_head(Src &s);
	void do_clear();
	void check();
	void **destination(Src &s, void *&local, void *marker);
	void begin_op() { cx.freed.clear(); expect.clear(); budget(100); }
	void end_op(const char *name);
};
// compares two multisets of freed elements; fails with a message on a difference
void compare_freed(const char *op, std::vector<void *> got, std::vector<void *> want);
