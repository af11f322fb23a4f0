#!/usr/bin/env python3
# Generates shim.c (repetitive tables).
out = []
w = out.append
w('/* generated by genshim.py */')
w('#include <datatypes.h>\n#include "shim.h"')
w('_Static_assert(sizeof(ShimPool) == sizeof(Pool), "pool interface");')
for p, T, I, dbl in (("slist", "SList", "SListItem", False), ("list", "List", "ListItem", True)):
    w(f'''
static void *{p}_make_(CmpFn c, FreeFn f, void *pool) {{ return {p}_new(c, f, (Pool *)pool); }}
static void {p}_init_(void *l, CmpFn c, FreeFn f, void *pool) {{ {p}_init(({T} *)l, c, f, (Pool *)pool); }}
static void {p}_destroy_(void *l) {{ {p}_destroy(({T} *)l); }}
static void {p}_release_(void *l) {{ {p}_free(({T} *)l); }}
static void *{p}_append_(void *l, void *d) {{ return {p}_append(({T} *)l, d); }}
static void *{p}_prepend_(void *l, void *d) {{ return {p}_prepend(({T} *)l, d); }}
static void *{p}_insert_sorted_(void *l, void *d) {{ return {p}_insert_sorted(({T} *)l, d); }}
static void *{p}_head_(const void *l) {{ return {p}_head((const {T} *)l); }}
static void *{p}_tail_(const void *l) {{ return {'list_tail((const List *)l)' if dbl else '((const SList *)l)->tail'}; }}
static size_t {p}_count_(const void *l) {{ return {p}_count((const {T} *)l); }}
static bool {p}_empty_(const void *l) {{ return {p}_empty((const {T} *)l); }}
static void {p}_remove_(void *l, void *i) {{ {p}_remove(({T} *)l, ({I} *)i); }}
static void {p}_remove_by_data_(void *l, void *d, bool all) {{ {p}_remove_by_data(({T} *)l, d, all); }}
static void *{p}_pop_(void *l) {{ return {p}_pop(({T} *)l); }}
static bool {p}_contains_(const void *l, const void *d) {{ return {p}_contains((const {T} *)l, d); }}
static void {p}_clear_(void *l) {{ {p}_clear(({T} *)l); }}
static void *{p}_find_(const void *l, void *o, const void *d) {{ return {p}_find((const {T} *)l, ({I} *)o, d); }}
static void *{p}_next_(void *i) {{ {I} *it = ({I} *)i; return {p}_item_next(it); }}
static void *{p}_prev_(void *i) {{ {I} *it = ({I} *)i; (void)it; return {'list_item_prev(it)' if dbl else '(void *)0'}; }}
static void *{p}_data_(void *i) {{ {I} *it = ({I} *)i; return {p}_item_get_data(it); }}
static void {p}_set_data_(void *i, void *d) {{ {I} *it = ({I} *)i; {p}_item_set_data(it, d); }}
static void {p}_free_data_(const void *l, void *i) {{ {p}_item_free_data((const {T} *)l, ({I} *)i); }}
static void *{p}_f_head_(const void *l) {{ return ((const {T} *)l)->head; }}
static void *{p}_f_tail_(const void *l) {{ return ((const {T} *)l)->tail; }}
static size_t {p}_f_count_(const void *l) {{ return ((const {T} *)l)->count; }}
const SeqOps shim_{p} = {{ "{p}", {'true' if dbl else 'false'}, sizeof({T}), sizeof({I}), {p}_make_, {p}_init_, {p}_destroy_, {p}_release_,
	{p}_append_, {p}_prepend_, {p}_insert_sorted_, {p}_head_, {p}_tail_, {p}_count_, {p}_empty_, {p}_remove_, {p}_remove_by_data_,
	{p}_pop_, {p}_contains_, {p}_clear_, {p}_find_, {p}_next_, {p}_prev_, {p}_data_, {p}_set_data_, {p}_free_data_,
	{p}_f_head_, {p}_f_tail_, {p}_f_count_ }};''')
for p, T, fifo, asy in (("stack", "Stack", 0, 0), ("queue", "Queue", 1, 0), ("async_queue", "AsyncQueue", 1, 1)):
    w(f'''
static void *{p}_make_(CmpFn c, FreeFn f, void *pool) {{ return {p}_new(c, f, (Pool *)pool); }}
static void {p}_init_(void *l, CmpFn c, FreeFn f, void *pool) {{ {T} *s = ({T} *)l; {p}_init(s, c, f, (Pool *)pool); }}
static void {p}_destroy_(void *l) {{ {T} *s = ({T} *)l; {p}_destroy(s); }}
static void {p}_release_(void *l) {{ {T} *s = ({T} *)l; {p}_free(s); }}
static void {p}_push_(void *l, void *d) {{ {T} *s = ({T} *)l; {p}_push(s, d); }}
static bool {p}_pop_(void *l, void **d) {{ {T} *s = ({T} *)l; return {p}_pop(s, d); }}
static void {p}_clear_(void *l) {{ {T} *s = ({T} *)l; {p}_clear(s); }}
static size_t {p}_count_(void *l) {{ {T} *s = ({T} *)l; return {p}_count(s); }}''')
    if asy:
        w('static bool async_queue_pop_timeout_(void *l, void **d, uint32_t ms) { return async_queue_pop_timeout((AsyncQueue *)l, d, ms); }')
    else:
        w(f'static bool {p}_head_(const void *l, void **d) {{ const {T} *s = (const {T} *)l; return {p}_head(s, d); }}')
    n = "async" if asy else p
    w(f'''const LineOps shim_{n} = {{ "{n}", {'true' if fifo else 'false'}, {'true' if asy else 'false'}, sizeof({T}), sizeof(SListItem), {p}_make_, {p}_init_, {p}_destroy_, {p}_release_,
	{p}_push_, {p}_pop_, {'async_queue_pop_timeout_' if asy else '0'}, {'0' if asy else p + '_head_'}, {p}_clear_, {p}_count_ }};''')
for p, T, n in (("hashtable", "HashTable", "hashtable"), ("rbtree", "RBTree", "rbtree"), ("assoc_array", "AssocArray", "assoc")):
    args = {"hashtable": "c->size, c->hash, c->eq, c->free_key, c->free_value",
            "rbtree": "c->cmp, c->free_key, c->free_value, (Pool *)c->pool",
            "assoc_array": "c->cmp, c->free_key, c->free_value"}[p]
    rb = p == "rbtree"
    w(f'''
static void *{p}_make_(const MapCfg *c) {{ return {p}_new({args}); }}
static void {p}_init_(void *m, const MapCfg *c) {{ {p}_init(({T} *)m, {args}); }}
static void {p}_destroy_(void *m) {{ {p}_destroy(({T} *)m); }}
static void {p}_release_(void *m) {{ {p}_free(({T} *)m); }}
static void {p}_clear_(void *m) {{ {p}_clear(({T} *)m); }}
static int {p}_set_(void *m, void *k, void *v, bool ow)
{{
	switch({p}_set(({T} *)m, k, v, ow))
	{{
		case {p.upper().replace('_', '')}_INSERT_RESULT_NEW: return SHIM_NEW;
		case {p.upper().replace('_', '')}_INSERT_RESULT_REPLACED: return SHIM_REPLACED;
		default: return SHIM_FAILED;
	}}
}}
static int {p}_remove_(void *m, const void *k) {{ {'return rbtree_remove((RBTree *)m, k) ? 1 : 0;' if rb else f'{p}_remove(({T} *)m, k); return -1;'} }}
static void *{p}_lookup_(void *m, const void *k) {{ return {p}_lookup(({T} *)m, k); }}
static void *{p}_pair_key_(const void *q) {{ return {p}_pair_get_key((const {T}Pair *)q); }}
static void *{p}_pair_value_(const void *q) {{ return {p}_pair_get_value((const {T}Pair *)q); }}
static void *{p}_pair_key_m_(void *q) {{ {T}Pair *r = ({T}Pair *)q; return {p}_pair_key(r); }}
static void *{p}_pair_value_m_(void *q) {{ {T}Pair *r = ({T}Pair *)q; return {p}_pair_value(r); }}
static void {p}_pair_set_(void *q, void *v) {{ {p}_pair_set_value(({T}Pair *)q, v); }}
static void {p}_pair_assign_m_(void *q, void *v) {{ {T}Pair *r = ({T}Pair *)q; {p}_pair_value(r) = v; }}
static bool {p}_exists_(const void *m, const void *k) {{ return {p}_key_exists((const {T} *)m, k); }}
static size_t {p}_count_(const void *m) {{ return {p}_count((const {T} *)m); }}
static size_t {p}_capacity_(const void *m) {{ {'return assoc_array_size((const AssocArray *)m);' if n == 'assoc' else '(void)m; return 0;'} }}
static void {p}_iter_init_(const void *m, void *i) {{ {p}_iter_init((const {T} *)m, ({T}Iter *)i); }}
static void {p}_iter_free_(void *i) {{ {'rbtree_iter_free((RBTreeIter *)i);' if rb else '(void)i;'} }}
static void {p}_iter_reuse_(const void *m, void *i) {{ {'rbtree_iter_reuse((const RBTree *)m, (RBTreeIter *)i);' if rb else f'{p}_iter_init((const {T} *)m, ({T}Iter *)i);'} }}
static bool {p}_iter_next_(void *i) {{ return {p}_iter_next(({T}Iter *)i); }}
static void *{p}_iter_key_(const void *i) {{ return {p}_iter_get_key((const {T}Iter *)i); }}
static void *{p}_iter_value_(const void *i) {{ return {p}_iter_get_value((const {T}Iter *)i); }}
static void *{p}_iter_key_m_(void *i) {{ {T}Iter *r = ({T}Iter *)i; return {p}_iter_key((*r)); }}
static void *{p}_iter_value_m_(void *i) {{ {T}Iter *r = ({T}Iter *)i; return {p}_iter_value((*r)); }}
const MapOps shim_{n} = {{ "{n}", {'true' if rb else 'false'}, {'true' if rb else 'false'}, {'true' if rb else 'false'}, {'true' if n == 'hashtable' else 'false'},
	sizeof({T}), sizeof({T}Iter), {'sizeof(RBNode)' if rb else '0'}, {p}_make_, {p}_init_, {p}_destroy_, {p}_release_, {p}_clear_, {p}_set_, {p}_remove_,
	{p}_lookup_, {p}_pair_key_, {p}_pair_value_, {p}_pair_key_m_, {p}_pair_value_m_, {p}_pair_set_, {p}_pair_assign_m_, {p}_exists_, {p}_count_, {p}_capacity_,
	{p}_iter_init_, {p}_iter_free_, {p}_iter_reuse_, {p}_iter_next_, {p}_iter_key_, {p}_iter_value_, {p}_iter_key_m_, {p}_iter_value_m_ }};''')
w('''
const size_t shim_sizeof_buffer = sizeof(Buffer);
void *shim_buffer_new(size_t max) { return buffer_new(max); }
void shim_buffer_init(void *b, size_t max) { buffer_init((Buffer *)b, max); }
void shim_buffer_free(void *b) { buffer_free((Buffer *)b); }
void shim_buffer_destroy(void *b) { buffer_destroy((Buffer *)b); }
void shim_buffer_clear(void *b) { buffer_clear((Buffer *)b); }
size_t shim_buffer_len(const void *b) { return buffer_len((const Buffer *)b); }
bool shim_buffer_is_valid(const void *b) { return buffer_is_valid((const Buffer *)b); }
bool shim_buffer_is_empty(const void *b) { return buffer_is_empty((const Buffer *)b); }
bool shim_buffer_fill(void *b, const char *d, size_t n) { return buffer_fill((Buffer *)b, d, n); }
ssize_t shim_buffer_fill_from_fd(void *b, int fd, size_t n) { return buffer_fill_from_fd((Buffer *)b, fd, n); }
bool shim_buffer_read_line(void *b, char **dst, size_t *len) { return buffer_read_line((Buffer *)b, dst, len); }
bool shim_buffer_flush(const void *b, char **dst, size_t *len) { return buffer_flush((const Buffer *)b, dst, len); }
char *shim_buffer_to_string(const void *b) { return buffer_to_string((const Buffer *)b); }

void *shim_pool_new(size_t item, size_t block) { return memory_pool_new(item, block); }
void shim_pool_destroy(void *p) { memory_pool_destroy((MemoryPool *)p); }
void *shim_pool_alloc(void *p) { return ((Pool *)p)->alloc((Pool *)p); }
void shim_pool_free(void *p, void *i) { ((Pool *)p)->free((Pool *)p, i); }

int32_t shim_str_compare(const void *a, const void *b) { CompareFunc f = str_compare; return f(a, b); }
bool shim_str_equal(const void *a, const void *b) { return str_equal(a, b); }
uint32_t shim_str_hash(const void *a) { return str_hash(a); }
int32_t shim_direct_compare(const void *a, const void *b) { return direct_compare(a, b); }
bool shim_direct_equal(const void *a, const void *b) { return direct_equal(a, b); }
uint32_t shim_direct_hash(const void *a) { return direct_hash(a); }
const CmpFn shim_str_compare_fn = str_compare, shim_direct_compare_fn = direct_compare;
const EqFn shim_str_equal_fn = str_equal, shim_direct_equal_fn = direct_equal;
const HashFn shim_str_hash_fn = str_hash, shim_direct_hash_fn = direct_hash;''')
import sys
open(sys.argv[1], "w").write("\n".join(out) + "\n")
