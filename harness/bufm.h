// Stateful machines for the byte buffer and the memory pool.
#pragma once
#include "model.h"
#include <map>
#include <unordered_set>

enum {
	B_STREAM = 1,   // contents, results of reads
	B_LIMIT = 2,    // acceptance of writes, validity
	B_DST = 4,      // what happens to the caller's destination
};

struct BufMachine {
	struct Dst { char *p = nullptr; size_t len = 0; };
	int oracles = 0;
	void *b = nullptr;
	bool own_storage = false;
	bool keep = false;            // this very object goes on for long: no new one, small sizes
	Storage st;
	size_t max = 0;
	std::string m;
	bool valid = true;
	bool overflow_allowed = true;
	bool giants = false;          // destinations of gigabytes, now and then
	Dst dst[3];
	size_t peak = 0;
	// for the non-triviality rules
	unsigned n_fill = 0, n_line = 0, n_noline = 0, n_reject = 0, n_clear = 0, n_flush = 0, n_grown = 0, n_reused = 0, n_latched = 0, n_exact = 0;

	void create(Src &s, int mask, int storage, size_t max_size);
	void init_again(Src &s);
	void destroy(Src &s);
	void release_dst();
	void step(Src &s);
	void check();
	void do_fill(const std::string &d);
	void do_fill_size(Src &s, size_t n);
	void do_huge(Src &s);
	void do_read(Src &s, bool line);
	void do_to_string();
	void do_clear();
	size_t draw_size(Src &s);
	std::string draw_bytes(Src &s, size_t n);
};

struct PoolMachine {
	struct Chunk { char *p; uint64_t pat; };
	void *p = nullptr;
	size_t item = 0, block = 0;
	bool overlap = false, reuse = false;     // oracles
	std::vector<Chunk> live;
	std::map<uintptr_t, uint64_t> at;        // address -> pattern of the outstanding chunks
	std::unordered_set<uintptr_t> seen;      // all addresses ever handed out
	size_t peak = 0;
	size_t base_bytes = 0;                   // held by others before creation
	bool account = true;                     // nothing else allocates meanwhile
	uint64_t next_pat = 1;
	unsigned n_alloc = 0, n_free = 0, n_reused = 0, n_blocks = 0;
	std::vector<char> buf;

	void create(Src &s, size_t item_size, size_t block_size);
	void destroy(Src &s);
	void alloc();
	void release(size_t i);
	void verify(const Chunk &c, const char *when);
	void verify_all(const char *when);
	void step(Src &s, size_t max_live);
	void fill(const Chunk &c);
};
