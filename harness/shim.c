/* generated by genshim.py */
#include <datatypes.h>
#include "shim.h"
_Static_assert(sizeof(ShimPool) == sizeof(Pool), "pool interface");

static void *slist_make_(CmpFn c, FreeFn f, void *pool) { return slist_new(c, f, (Pool *)pool); }
static void slist_init_(void *l, CmpFn c, FreeFn f, void *pool) { slist_init((SList *)l, c, f, (Pool *)pool); }
static void slist_destroy_(void *l) { slist_destroy((SList *)l); }
static void slist_release_(void *l) { slist_free((SList *)l); }
static void *slist_append_(void *l, void *d) { return slist_append((SList *)l, d); }
static void *slist_prepend_(void *l, void *d) { return slist_prepend((SList *)l, d); }
static void *slist_insert_sorted_(void *l, void *d) { return slist_insert_sorted((SList *)l, d); }
static void *slist_head_(const void *l) { return slist_head((const SList *)l); }
static void *slist_tail_(const void *l) { return ((const SList *)l)->tail; }
static size_t slist_count_(const void *l) { return slist_count((const SList *)l); }
static bool slist_empty_(const void *l) { return slist_empty((const SList *)l); }
static void slist_remove_(void *l, void *i) { slist_remove((SList *)l, (SListItem *)i); }
static void slist_remove_by_data_(void *l, void *d, bool all) { slist_remove_by_data((SList *)l, d, all); }
static void *slist_pop_(void *l) { return slist_pop((SList *)l); }
static bool slist_contains_(const void *l, const void *d) { return slist_contains((const SList *)l, d); }
static void slist_clear_(void *l) { slist_clear((SList *)l); }
static void *slist_find_(const void *l, void *o, const void *d) { return slist_find((const SList *)l, (SListItem *)o, d); }
static void *slist_next_(void *i) { SListItem *it = (SListItem *)i; return slist_item_next(it); }
static void *slist_prev_(void *i) { SListItem *it = (SListItem *)i; (void)it; return (void *)0; }
static void *slist_data_(void *i) { SListItem *it = (SListItem *)i; return slist_item_get_data(it); }
static void slist_set_data_(void *i, void *d) { SListItem *it = (SListItem *)i; slist_item_set_data(it, d); }
static void slist_free_data_(const void *l, void *i) { slist_item_free_data((const SList *)l, (SListItem *)i); }
static void *slist_f_head_(const void *l) { return ((const SList *)l)->head; }
static void *slist_f_tail_(const void *l) { return ((const SList *)l)->tail; }
static size_t slist_f_count_(const void *l) { return ((const SList *)l)->count; }
const SeqOps shim_slist = { "slist", false, sizeof(SList), sizeof(SListItem), slist_make_, slist_init_, slist_destroy_, slist_release_,
	slist_append_, slist_prepend_, slist_insert_sorted_, slist_head_, slist_tail_, slist_count_, slist_empty_, slist_remove_, slist_remove_by_data_,
	slist_pop_, slist_contains_, slist_clear_, slist_find_, slist_next_, slist_prev_, slist_data_, slist_set_data_, slist_free_data_,
	slist_f_head_, slist_f_tail_, slist_f_count_ };

static void *list_make_(CmpFn c, FreeFn f, void *pool) { return list_new(c, f, (Pool *)pool); }
static void list_init_(void *l, CmpFn c, FreeFn f, void *pool) { list_init((List *)l, c, f, (Pool *)pool); }
static void list_destroy_(void *l) { list_destroy((List *)l); }
static void list_release_(void *l) { list_free((List *)l); }
static void *list_append_(void *l, void *d) { return list_append((List *)l, d); }
static void *list_prepend_(void *l, void *d) { return list_prepend((List *)l, d); }
static void *list_insert_sorted_(void *l, void *d) { return list_insert_sorted((List *)l, d); }
static void *list_head_(const void *l) { return list_head((const List *)l); }
static void *list_tail_(const void *l) { return list_tail((const List *)l); }
static size_t list_count_(const void *l) { return list_count((const List *)l); }
static bool list_empty_(const void *l) { return list_empty((const List *)l); }
static void list_remove_(void *l, void *i) { list_remove((List *)l, (ListItem *)i); }
static void list_remove_by_data_(void *l, void *d, bool all) { list_remove_by_data((List *)l, d, all); }
static void *list_pop_(void *l) { return list_pop((List *)l); }
static bool list_contains_(const void *l, const void *d) { return list_contains((const List *)l, d); }
static void list_clear_(void *l) { list_clear((List *)l); }
static void *list_find_(const void *l, void *o, const void *d) { return list_find((const List *)l, (ListItem *)o, d); }
static void *list_next_(void *i) { ListItem *it = (ListItem *)i; return list_item_next(it); }
static void *list_prev_(void *i) { ListItem *it = (ListItem *)i; (void)it; return list_item_prev(it); }
static void *list_data_(void *i) { ListItem *it = (ListItem *)i; return list_item_get_data(it); }
static void list_set_data_(void *i, void *d) { ListItem *it = (ListItem *)i; list_item_set_data(it, d); }
static void list_free_data_(const void *l, void *i) { list_item_free_data((const List *)l, (ListItem *)i); }
static void *list_f_head_(const void *l) { return ((const List *)l)->head; }
static void *list_f_tail_(const void *l) { return ((const List *)l)->tail; }
static size_t list_f_count_(const void *l) { return ((const List *)l)->count; }
const SeqOps shim_list = { "list", true, sizeof(List), sizeof(ListItem), list_make_, list_init_, list_destroy_, list_release_,
	list_append_, list_prepend_, list_insert_sorted_, list_head_, list_tail_, list_count_, list_empty_, list_remove_, list_remove_by_data_,
	list_pop_, list_contains_, list_clear_, list_find_, list_next_, list_prev_, list_data_, list_set_data_, list_free_data_,
	list_f_head_, list_f_tail_, list_f_count_ };

static void *stack_make_(CmpFn c, FreeFn f, void *pool) { return stack_new(c, f, (Pool *)pool); }
static void stack_init_(void *l, CmpFn c, FreeFn f, void *pool) { Stack *s = (Stack *)l; stack_init(s, c, f, (Pool *)pool); }
static void stack_destroy_(void *l) { Stack *s = (Stack *)l; stack_destroy(s); }
static void stack_release_(void *l) { Stack *s = (Stack *)l; stack_free(s); }
static void stack_push_(void *l, void *d) { Stack *s = (Stack *)l; stack_push(s, d); }
static bool stack_pop_(void *l, void **d) { Stack *s = (Stack *)l; return stack_pop(s, d); }
static void stack_clear_(void *l) { Stack *s = (Stack *)l; stack_clear(s); }
static size_t stack_count_(void *l) { Stack *s = (Stack *)l; return stack_count(s); }
static bool stack_head_(const void *l, void **d) { const Stack *s = (const Stack *)l; return stack_head(s, d); }
const LineOps shim_stack = { "stack", false, false, sizeof(Stack), sizeof(SListItem), stack_make_, stack_init_, stack_destroy_, stack_release_,
	stack_push_, stack_pop_, 0, stack_head_, stack_clear_, stack_count_ };

static void *queue_make_(CmpFn c, FreeFn f, void *pool) { return queue_new(c, f, (Pool *)pool); }
static void queue_init_(void *l, CmpFn c, FreeFn f, void *pool) { Queue *s = (Queue *)l; queue_init(s, c, f, (Pool *)pool); }
static void queue_destroy_(void *l) { Queue *s = (Queue *)l; queue_destroy(s); }
static void queue_release_(void *l) { Queue *s = (Queue *)l; queue_free(s); }
static void queue_push_(void *l, void *d) { Queue *s = (Queue *)l; queue_push(s, d); }
static bool queue_pop_(void *l, void **d) { Queue *s = (Queue *)l; return queue_pop(s, d); }
static void queue_clear_(void *l) { Queue *s = (Queue *)l; queue_clear(s); }
static size_t queue_count_(void *l) { Queue *s = (Queue *)l; return queue_count(s); }
static bool queue_head_(const void *l, void **d) { const Queue *s = (const Queue *)l; return queue_head(s, d); }
const LineOps shim_queue = { "queue", true, false, sizeof(Queue), sizeof(SListItem), queue_make_, queue_init_, queue_destroy_, queue_release_,
	queue_push_, queue_pop_, 0, queue_head_, queue_clear_, queue_count_ };

static void *async_queue_make_(CmpFn c, FreeFn f, void *pool) { return async_queue_new(c, f, (Pool *)pool); }
static void async_queue_init_(void *l, CmpFn c, FreeFn f, void *pool) { AsyncQueue *s = (AsyncQueue *)l; async_queue_init(s, c, f, (Pool *)pool); }
static void async_queue_destroy_(void *l) { AsyncQueue *s = (AsyncQueue *)l; async_queue_destroy(s); }
static void async_queue_release_(void *l) { AsyncQueue *s = (AsyncQueue *)l; async_queue_free(s); }
static void async_queue_push_(void *l, void *d) { AsyncQueue *s = (AsyncQueue *)l; async_queue_push(s, d); }
static bool async_queue_pop_(void *l, void **d) { AsyncQueue *s = (AsyncQueue *)l; return async_queue_pop(s, d); }
static void async_queue_clear_(void *l) { AsyncQueue *s = (AsyncQueue *)l; async_queue_clear(s); }
static size_t async_queue_count_(void *l) { AsyncQueue *s = (AsyncQueue *)l; return async_queue_count(s); }
static bool async_queue_pop_timeout_(void *l, void **d, uint32_t ms) { return async_queue_pop_timeout((AsyncQueue *)l, d, ms); }
const LineOps shim_async = { "async", true, true, sizeof(AsyncQueue), sizeof(SListItem), async_queue_make_, async_queue_init_, async_queue_destroy_, async_queue_release_,
	async_queue_push_, async_queue_pop_, async_queue_pop_timeout_, 0, async_queue_clear_, async_queue_count_ };

static void *hashtable_make_(const MapCfg *c) { return hashtable_new(c->size, c->hash, c->eq, c->free_key, c->free_value); }
static void hashtable_init_(void *m, const MapCfg *c) { hashtable_init((HashTable *)m, c->size, c->hash, c->eq, c->free_key, c->free_value); }
static void hashtable_destroy_(void *m) { hashtable_destroy((HashTable *)m); }
static void hashtable_release_(void *m) { hashtable_free((HashTable *)m); }
static void hashtable_clear_(void *m) { hashtable_clear((HashTable *)m); }
static int hashtable_set_(void *m, void *k, void *v, bool ow)
{
	switch(hashtable_set((HashTable *)m, k, v, ow))
	{
		case HASHTABLE_INSERT_RESULT_NEW: return SHIM_NEW;
		case HASHTABLE_INSERT_RESULT_REPLACED: return SHIM_REPLACED;
		default: return SHIM_FAILED;
	}
}
static int hashtable_remove_(void *m, const void *k) { hashtable_remove((HashTable *)m, k); return -1; }
static void *hashtable_lookup_(void *m, const void *k) { return hashtable_lookup((HashTable *)m, k); }
static void *hashtable_pair_key_(const void *q) { return hashtable_pair_get_key((const HashTablePair *)q); }
static void *hashtable_pair_value_(const void *q) { return hashtable_pair_get_value((const HashTablePair *)q); }
static void *hashtable_pair_key_m_(void *q) { HashTablePair *r = (HashTablePair *)q; return hashtable_pair_key(r); }
static void *hashtable_pair_value_m_(void *q) { HashTablePair *r = (HashTablePair *)q; return hashtable_pair_value(r); }
static void hashtable_pair_set_(void *q, void *v) { hashtable_pair_set_value((HashTablePair *)q, v); }
static void hashtable_pair_assign_m_(void *q, void *v) { HashTablePair *r = (HashTablePair *)q; hashtable_pair_value(r) = v; }
static bool hashtable_exists_(const void *m, const void *k) { return hashtable_key_exists((const HashTable *)m, k); }
static size_t hashtable_count_(const void *m) { return hashtable_count((const HashTable *)m); }
static size_t hashtable_capacity_(const void *m) { (void)m; return 0; }
static void hashtable_iter_init_(const void *m, void *i) { hashtable_iter_init((const HashTable *)m, (HashTableIter *)i); }
static void hashtable_iter_free_(void *i) { (void)i; }
static void hashtable_iter_reuse_(const void *m, void *i) { hashtable_iter_init((const HashTable *)m, (HashTableIter *)i); }
static bool hashtable_iter_next_(void *i) { return hashtable_iter_next((HashTableIter *)i); }
static void *hashtable_iter_key_(const void *i) { return hashtable_iter_get_key((const HashTableIter *)i); }
static void *hashtable_iter_value_(const void *i) { return hashtable_iter_get_value((const HashTableIter *)i); }
static void *hashtable_iter_key_m_(void *i) { HashTableIter *r = (HashTableIter *)i; return hashtable_iter_key((*r)); }
static void *hashtable_iter_value_m_(void *i) { HashTableIter *r = (HashTableIter *)i; return hashtable_iter_value((*r)); }
const MapOps shim_hashtable = { "hashtable", false, false, false, true,
	sizeof(HashTable), sizeof(HashTableIter), 0, hashtable_make_, hashtable_init_, hashtable_destroy_, hashtable_release_, hashtable_clear_, hashtable_set_, hashtable_remove_,
	hashtable_lookup_, hashtable_pair_key_, hashtable_pair_value_, hashtable_pair_key_m_, hashtable_pair_value_m_, hashtable_pair_set_, hashtable_pair_assign_m_, hashtable_exists_, hashtable_count_, hashtable_capacity_,
	hashtable_iter_init_, hashtable_iter_free_, hashtable_iter_reuse_, hashtable_iter_next_, hashtable_iter_key_, hashtable_iter_value_, hashtable_iter_key_m_, hashtable_iter_value_m_ };

static void *rbtree_make_(const MapCfg *c) { return rbtree_new(c->cmp, c->free_key, c->free_value, (Pool *)c->pool); }
static void rbtree_init_(void *m, const MapCfg *c) { rbtree_init((RBTree *)m, c->cmp, c->free_key, c->free_value, (Pool *)c->pool); }
static void rbtree_destroy_(void *m) { rbtree_destroy((RBTree *)m); }
static void rbtree_release_(void *m) { rbtree_free((RBTree *)m); }
static void rbtree_clear_(void *m) { rbtree_clear((RBTree *)m); }
static int rbtree_set_(void *m, void *k, void *v, bool ow)
{
	switch(rbtree_set((RBTree *)m, k, v, ow))
	{
		case RBTREE_INSERT_RESULT_NEW: return SHIM_NEW;
		case RBTREE_INSERT_RESULT_REPLACED: return SHIM_REPLACED;
		default: return SHIM_FAILED;
	}
}
static int rbtree_remove_(void *m, const void *k) { return rbtree_remove((RBTree *)m, k) ? 1 : 0; }
static void *rbtree_lookup_(void *m, const void *k) { return rbtree_lookup((RBTree *)m, k); }
static void *rbtree_pair_key_(const void *q) { return rbtree_pair_get_key((const RBTreePair *)q); }
static void *rbtree_pair_value_(const void *q) { return rbtree_pair_get_value((const RBTreePair *)q); }
static void *rbtree_pair_key_m_(void *q) { RBTreePair *r = (RBTreePair *)q; return rbtree_pair_key(r); }
static void *rbtree_pair_value_m_(void *q) { RBTreePair *r = (RBTreePair *)q; return rbtree_pair_value(r); }
static void rbtree_pair_set_(void *q, void *v) { rbtree_pair_set_value((RBTreePair *)q, v); }
static void rbtree_pair_assign_m_(void *q, void *v) { RBTreePair *r = (RBTreePair *)q; rbtree_pair_value(r) = v; }
static bool rbtree_exists_(const void *m, const void *k) { return rbtree_key_exists((const RBTree *)m, k); }
static size_t rbtree_count_(const void *m) { return rbtree_count((const RBTree *)m); }
static size_t rbtree_capacity_(const void *m) { (void)m; return 0; }
static void rbtree_iter_init_(const void *m, void *i) { rbtree_iter_init((const RBTree *)m, (RBTreeIter *)i); }
static void rbtree_iter_free_(void *i) { rbtree_iter_free((RBTreeIter *)i); }
static void rbtree_iter_reuse_(const void *m, void *i) { rbtree_iter_reuse((const RBTree *)m, (RBTreeIter *)i); }
static bool rbtree_iter_next_(void *i) { return rbtree_iter_next((RBTreeIter *)i); }
static void *rbtree_iter_key_(const void *i) { return rbtree_iter_get_key((const RBTreeIter *)i); }
static void *rbtree_iter_value_(const void *i) { return rbtree_iter_get_value((const RBTreeIter *)i); }
static void *rbtree_iter_key_m_(void *i) { RBTreeIter *r = (RBTreeIter *)i; return rbtree_iter_key((*r)); }
static void *rbtree_iter_value_m_(void *i) { RBTreeIter *r = (RBTreeIter *)i; return rbtree_iter_value((*r)); }
const MapOps shim_rbtree = { "rbtree", true, true, true, false,
	sizeof(RBTree), sizeof(RBTreeIter), sizeof(RBNode), rbtree_make_, rbtree_init_, rbtree_destroy_, rbtree_release_, rbtree_clear_, rbtree_set_, rbtree_remove_,
	rbtree_lookup_, rbtree_pair_key_, rbtree_pair_value_, rbtree_pair_key_m_, rbtree_pair_value_m_, rbtree_pair_set_, rbtree_pair_assign_m_, rbtree_exists_, rbtree_count_, rbtree_capacity_,
	rbtree_iter_init_, rbtree_iter_free_, rbtree_iter_reuse_, rbtree_iter_next_, rbtree_iter_key_, rbtree_iter_value_, rbtree_iter_key_m_, rbtree_iter_value_m_ };

static void *assoc_array_make_(const MapCfg *c) { return assoc_array_new(c->cmp, c->free_key, c->free_value); }
static void assoc_array_init_(void *m, const MapCfg *c) { assoc_array_init((AssocArray *)m, c->cmp, c->free_key, c->free_value); }
static void assoc_array_destroy_(void *m) { assoc_array_destroy((AssocArray *)m); }
static void assoc_array_release_(void *m) { assoc_array_free((AssocArray *)m); }
static void assoc_array_clear_(void *m) { assoc_array_clear((AssocArray *)m); }
static int assoc_array_set_(void *m, void *k, void *v, bool ow)
{
	switch(assoc_array_set((AssocArray *)m, k, v, ow))
	{
		case ASSOCARRAY_INSERT_RESULT_NEW: return SHIM_NEW;
		case ASSOCARRAY_INSERT_RESULT_REPLACED: return SHIM_REPLACED;
		default: return SHIM_FAILED;
	}
}
static int assoc_array_remove_(void *m, const void *k) { assoc_array_remove((AssocArray *)m, k); return -1; }
static void *assoc_array_lookup_(void *m, const void *k) { return assoc_array_lookup((AssocArray *)m, k); }
static void *assoc_array_pair_key_(const void *q) { return assoc_array_pair_get_key((const AssocArrayPair *)q); }
static void *assoc_array_pair_value_(const void *q) { return assoc_array_pair_get_value((const AssocArrayPair *)q); }
static void *assoc_array_pair_key_m_(void *q) { AssocArrayPair *r = (AssocArrayPair *)q; return assoc_array_pair_key(r); }
static void *assoc_array_pair_value_m_(void *q) { AssocArrayPair *r = (AssocArrayPair *)q; return assoc_array_pair_value(r); }
static void assoc_array_pair_set_(void *q, void *v) { assoc_array_pair_set_value((AssocArrayPair *)q, v); }
static void assoc_array_pair_assign_m_(void *q, void *v) { AssocArrayPair *r = (AssocArrayPair *)q; assoc_array_pair_value(r) = v; }
static bool assoc_array_exists_(const void *m, const void *k) { return assoc_array_key_exists((const AssocArray *)m, k); }
static size_t assoc_array_count_(const void *m) { return assoc_array_count((const AssocArray *)m); }
static size_t assoc_array_capacity_(const void *m) { return assoc_array_size((const AssocArray *)m); }
static void assoc_array_iter_init_(const void *m, void *i) { assoc_array_iter_init((const AssocArray *)m, (AssocArrayIter *)i); }
static void assoc_array_iter_free_(void *i) { (void)i; }
static void assoc_array_iter_reuse_(const void *m, void *i) { assoc_array_iter_init((const AssocArray *)m, (AssocArrayIter *)i); }
static bool assoc_array_iter_next_(void *i) { return assoc_array_iter_next((AssocArrayIter *)i); }
static void *assoc_array_iter_key_(const void *i) { return assoc_array_iter_get_key((const AssocArrayIter *)i); }
static void *assoc_array_iter_value_(const void *i) { return assoc_array_iter_get_value((const AssocArrayIter *)i); }
static void *assoc_array_iter_key_m_(void *i) { AssocArrayIter *r = (AssocArrayIter *)i; return assoc_array_iter_key((*r)); }
static void *assoc_array_iter_value_m_(void *i) { AssocArrayIter *r = (AssocArrayIter *)i; return assoc_array_iter_value((*r)); }
const MapOps shim_assoc = { "assoc", false, false, false, false,
	sizeof(AssocArray), sizeof(AssocArrayIter), 0, assoc_array_make_, assoc_array_init_, assoc_array_destroy_, assoc_array_release_, assoc_array_clear_, assoc_array_set_, assoc_array_remove_,
	assoc_array_lookup_, assoc_array_pair_key_, assoc_array_pair_value_, assoc_array_pair_key_m_, assoc_array_pair_value_m_, assoc_array_pair_set_, assoc_array_pair_assign_m_, assoc_array_exists_, assoc_array_count_, assoc_array_capacity_,
	assoc_array_iter_init_, assoc_array_iter_free_, assoc_array_iter_reuse_, assoc_array_iter_next_, assoc_array_iter_key_, assoc_array_iter_value_, assoc_array_iter_key_m_, assoc_array_iter_value_m_ };

const size_t shim_sizeof_buffer = sizeof(Buffer);
void *shim_buffer_new(size_t max) { return buffer_new(max); }
void shim_buffer_init(void *b, size_t max) { buffer_init((Buffer *)b, max); }
void shim_buffer_free(void *b) { buffer_free((Buffer *)b); }
void shim_buffer_destroy(void *b) { buffer_destroy((Buffer *)b); }
void shim_buffer_clear(void *b) { buffer_clear((Buffer *)b); }
size_t shim_buffer_len(const void *b) { return buffer_len((const Buffer *)b); }
bool shim_buffer_is_valid(const void *b) { return buffer_is_valid((const Buffer *)b); }
bool shim_buffer_is_empty(const void *b) { return buffer_is_empty((const Buffer *)b); }
bool shim_buffer_fill(void *b, const char *d, size_t n) { return buffer_fill((Buffer *)b, d, n); }
ssize_t shim_buffer_fill_from_fd(void *b, int fd, size_t n) { return buffer_fill_from_fd((Buffer *)b, fd, n); }
bool shim_buffer_read_line(void *b, char **dst, size_t *len) { return buffer_read_line((Buffer *)b, dst, len); }
bool shim_buffer_flush(const void *b, char **dst, size_t *len) { return buffer_flush((const Buffer *)b, dst, len); }
char *shim_buffer_to_string(const void *b) { return buffer_to_string((const Buffer *)b); }

void *shim_pool_new(size_t item, size_t block) { return memory_pool_new(item, block); }
void shim_pool_destroy(void *p) { memory_pool_destroy((MemoryPool *)p); }
void *shim_pool_alloc(void *p) { return ((Pool *)p)->alloc((Pool *)p); }
void shim_pool_free(void *p, void *i) { ((Pool *)p)->free((Pool *)p, i); }

int32_t shim_str_compare(const void *a, const void *b) { CompareFunc f = str_compare; return f(a, b); }
bool shim_str_equal(const void *a, const void *b) { return str_equal(a, b); }
uint32_t shim_str_hash(const void *a) { return str_hash(a); }
int32_t shim_direct_compare(const void *a, const void *b) { return direct_compare(a, b); }
bool shim_direct_equal(const void *a, const void *b) { return direct_equal(a, b); }
uint32_t shim_direct_hash(const void *a) { return direct_hash(a); }
const CmpFn shim_str_compare_fn = str_compare, shim_direct_compare_fn = direct_compare;
const EqFn shim_str_equal_fn = str_equal, shim_direct_equal_fn = direct_equal;
const HashFn shim_str_hash_fn = str_hash, shim_direct_hash_fn = direct_hash;
