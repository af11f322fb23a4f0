/* C access layer to the library: one table of functions per kind of container. The maps' headers are
 * not C++; macros and struct sizes are also only reachable from C. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int32_t (*CmpFn)(const void *, const void *);
typedef bool (*EqFn)(const void *, const void *);
typedef uint32_t (*HashFn)(const void *);
typedef void (*FreeFn)(void *);

/* layout of the library's public Pool interface */
typedef struct ShimPool {
	void *(*alloc)(struct ShimPool *);
	void (*free)(struct ShimPool *, void *);
} ShimPool;

typedef struct SeqOps {
	const char *name;
	bool is_double;
	size_t size, item_size;
	void *(*make)(CmpFn, FreeFn, void *pool);
	void (*init)(void *, CmpFn, FreeFn, void *pool);
	void (*destroy)(void *);
	void (*release)(void *);
	void *(*append)(void *, void *);
	void *(*prepend)(void *, void *);
	void *(*insert_sorted)(void *, void *);
	void *(*head)(const void *);
	void *(*tail)(const void *);
	size_t (*count)(const void *);
	bool (*empty)(const void *);
	void (*remove)(void *, void *item);
	void (*remove_by_data)(void *, void *, bool);
	void *(*pop)(void *);
	bool (*contains)(const void *, const void *);
	void (*clear)(void *);
	void *(*find)(const void *, void *, const void *);
	void *(*next)(void *);
	void *(*prev)(void *);
	void *(*data)(void *);
	void (*set_data)(void *, void *);
	void (*free_data)(const void *, void *);
	/* the documented public fields */
	void *(*f_head)(const void *);
	void *(*f_tail)(const void *);
	size_t (*f_count)(const void *);
} SeqOps;
extern const SeqOps shim_slist, shim_list;

/* stack, queue, async queue (single-threaded use) */
typedef struct LineOps {
	const char *name;
	bool fifo, async;
	size_t size, item_size;
	void *(*make)(CmpFn, FreeFn, void *pool);
	void (*init)(void *, CmpFn, FreeFn, void *pool);
	void (*destroy)(void *);
	void (*release)(void *);
	void (*push)(void *, void *);
	bool (*pop)(void *, void **);
	bool (*pop_timeout)(void *, void **, uint32_t); /* async only */
	bool (*head)(const void *, void **);            /* NULL for async */
	void (*clear)(void *);
	size_t (*count)(void *);
} LineOps;
extern const LineOps shim_stack, shim_queue, shim_async;

typedef struct MapCfg {
	size_t size;
	CmpFn cmp;
	EqFn eq;
	HashFn hash;
	FreeFn free_key, free_value;
	void *pool;
} MapCfg;

enum { SHIM_NEW = 0, SHIM_REPLACED = 1, SHIM_FAILED = 2 };

typedef struct MapOps {
	const char *name;
	bool has_pool, has_iter_free, remove_reports, uses_hash;
	size_t size, iter_size, node_size;
	void *(*make)(const MapCfg *);
	void (*init)(void *, const MapCfg *);
	void (*destroy)(void *);
	void (*release)(void *);
	void (*clear)(void *);
	int (*set)(void *, void *, void *, bool);
	int (*remove)(void *, const void *); /* 1/0 where reported, else -1 */
	void *(*lookup)(void *, const void *);
	void *(*pair_key)(const void *);
	void *(*pair_value)(const void *);
	void *(*pair_key_m)(void *);
	void *(*pair_value_m)(void *);
	void (*pair_set)(void *, void *);
	void (*pair_assign_m)(void *, void *); /* assignment through the value macro */
	bool (*exists)(const void *, const void *);
	size_t (*count)(const void *);
	size_t (*capacity)(const void *); /* assoc array only */
	void (*iter_init)(const void *, void *);
	void (*iter_free)(void *);
	void (*iter_reuse)(const void *, void *); /* iter_init where there is no reuse */
	bool (*iter_next)(void *);
	void *(*iter_key)(const void *);
	void *(*iter_value)(const void *);
	void *(*iter_key_m)(void *);
	void *(*iter_value_m)(void *);
} MapOps;
extern const MapOps shim_hashtable, shim_rbtree, shim_assoc;

extern const size_t shim_sizeof_buffer;
void *shim_buffer_new(size_t max);
void shim_buffer_init(void *b, size_t max);
void shim_buffer_free(void *b);
void shim_buffer_destroy(void *b);
void shim_buffer_clear(void *b);
size_t shim_buffer_len(const void *b);
bool shim_buffer_is_valid(const void *b);
bool shim_buffer_is_empty(const void *b);
bool shim_buffer_fill(void *b, const char *d, size_t n);
ssize_t shim_buffer_fill_from_fd(void *b, int fd, size_t n);
bool shim_buffer_read_line(void *b, char **dst, size_t *len);
bool shim_buffer_flush(const void *b, char **dst, size_t *len);
char *shim_buffer_to_string(const void *b);

void *shim_pool_new(size_t item, size_t block);
void shim_pool_destroy(void *p);
void *shim_pool_alloc(void *p);
void shim_pool_free(void *p, void *item);

int32_t shim_str_compare(const void *a, const void *b);
bool shim_str_equal(const void *a, const void *b);
uint32_t shim_str_hash(const void *a);
int32_t shim_direct_compare(const void *a, const void *b);
bool shim_direct_equal(const void *a, const void *b);
uint32_t shim_direct_hash(const void *a);
extern const CmpFn shim_str_compare_fn, shim_direct_compare_fn;
extern const EqFn shim_str_equal_fn, shim_direct_equal_fn;
extern const HashFn shim_str_hash_fn, shim_direct_hash_fn;
#ifdef __cplusplus
}
#endif
