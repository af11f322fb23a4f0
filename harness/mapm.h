// Stateful machine for the three maps.
#pragma once
#include "model.h"
#include "seqm.h"
#include <unordered_map>

enum {
	M_MAP = 1,       // contents, results, count
	M_FREE = 2,      // calls of the free functions
	M_COST = 4,      // comparisons of each operation
	M_SORTED = 8,    // ascending iteration, capacity (associative array)
};

struct MapMachine {
	struct Entry { void *key; void *value; };
	const MapOps *ops = nullptr;
	int oracles = 0;
	void *map = nullptr;
	MapCfg cfg;
	bool own_storage = false;
	bool keep = false;            // this very object goes on for long: no new one, small sizes
	Storage st;
	bool has_fk = false, has_fv = false;
	Shared *shared = nullptr;
	std::unordered_map<int64_t, Entry> m;
	std::vector<int64_t> keys;                    // the ranks, for picking
	std::unordered_map<int64_t, size_t> key_at;
	uint32_t universe = 30;
	// for the non-triviality rules
	unsigned n_new = 0, n_replaced = 0, n_overwritten = 0, n_removed = 0, n_missed = 0, n_updates = 0, n_freed = 0, n_clear = 0;
	size_t peak = 0;
	uint32_t worst_excess = 0;
	std::vector<void *> ek, ev;                   // expected calls of the free functions

	void create(Src &s, const MapOps *o, int mask, bool fk, bool fv, Shared *sh, int storage, size_t size);
	void init_again(Src &s);
	void destroy(Src &s);
	void step(Src &s);
	void bulk(Src &s, uint32_t max);
	void check_light(Src &s);
	void audit();

	// single operations
	void set(void *key, void *value, bool overwrite);
	bool remove(void *probe);
	void lookup(const void *probe, bool macros);
	void exists(const void *probe);
	void update(const void *probe, void *value, bool macro);
	void clear();
	void *stored(int64_t rank) { auto it = m.find(rank); return it == m.end() ? nullptr : it->second.key; }
	void *new_value(Src &s);
	void *any_key(Src &s, bool *hit = nullptr);
	void begin_op();
	void end_op(const char *name, size_t n);
	void model_add(int64_t r, void *k, void *v);
	void model_del(int64_t r);
};
bool deep_tree(Src &s, int mode); // true if this case was the deep tree
