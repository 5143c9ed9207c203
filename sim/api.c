#define _GNU_SOURCE
#include <limits.h>
#include <datatypes.h>
#include "api.h"

size_t api_sizeof(int w)
{
	switch(w)
	{
		case SZ_ASYNC: return sizeof(AsyncQueue);
		case SZ_HASH: return sizeof(HashTable);
		case SZ_RB: return sizeof(RBTree);
		case SZ_ASSOC: return sizeof(AssocArray);
		case SZ_LIST: return sizeof(List);
		case SZ_SLIST: return sizeof(SList);
		case SZ_BUFFER: return sizeof(Buffer);
		case SZ_LISTITEM: return sizeof(ListItem);
		case SZ_SLISTITEM: return sizeof(SListItem);
		case SZ_RBNODE: return sizeof(RBNode);
		case SZ_HITER: return sizeof(HashTableIter);
		case SZ_RITER: return sizeof(RBTreeIter);
		case SZ_AITER: return sizeof(AssocArrayIter);
	}
	return 0;
}
CmpFn api_str_compare(void) { return (CmpFn)str_compare; }
CmpFn api_direct_compare(void) { return direct_compare; }
EqFn api_str_equal(void) { return str_equal; }
EqFn api_direct_equal(void) { return direct_equal; }
HashFn api_str_hash(void) { return str_hash; }
HashFn api_direct_hash(void) { return direct_hash; }

void *aq_new(CmpFn c, FreeFn f, void *pool) { return async_queue_new(c, f, (Pool *)pool); }
void aq_init(void *q, CmpFn c, FreeFn f, void *pool) { async_queue_init((AsyncQueue *)q, c, f, (Pool *)pool); }
void aq_destroy(void *q) { async_queue_destroy((AsyncQueue *)q); }
void aq_free(void *q) { async_queue_free((AsyncQueue *)q); }
void aq_push(void *q, void *d) { async_queue_push((AsyncQueue *)q, d); }
bool aq_pop(void *q, void **d) { return async_queue_pop((AsyncQueue *)q, d); }
bool aq_pop_timeout(void *q, void **d, uint32_t ms) { return async_queue_pop_timeout((AsyncQueue *)q, d, ms); }
void aq_clear(void *q) { async_queue_clear((AsyncQueue *)q); }
size_t aq_count(void *q) { return async_queue_count((AsyncQueue *)q); }

void *mp_new(size_t item, size_t block) { return memory_pool_new(item, block); }
void mp_destroy(void *p) { memory_pool_destroy((MemoryPool *)p); }
void *mp_alloc(void *p) { return ((Pool *)p)->alloc((Pool *)p); }
void mp_free(void *p, void *item) { ((Pool *)p)->free((Pool *)p, item); }

#define H(m) ((HashTable *)(m))
#define R(m) ((RBTree *)(m))
#define A(m) ((AssocArray *)(m))
void *map_new(int kind, const MapParams *p)
{
	switch(kind)
	{
		case 0: return hashtable_new(p->hsize, p->hash, p->eq, p->fk, p->fv);
		case 1: return rbtree_new(p->cmp, p->fk, p->fv, (Pool *)p->pool);
		default: return assoc_array_new(p->cmp, p->fk, p->fv);
	}
}
void map_init(int kind, void *m, const MapParams *p)
{
	switch(kind)
	{
		case 0: hashtable_init(H(m), p->hsize, p->hash, p->eq, p->fk, p->fv); break;
		case 1: rbtree_init(R(m), p->cmp, p->fk, p->fv, (Pool *)p->pool); break;
		default: assoc_array_init(A(m), p->cmp, p->fk, p->fv); break;
	}
}
void map_destroy(int k, void *m) { if(k == 0) hashtable_destroy(H(m)); else if(k == 1) rbtree_destroy(R(m)); else assoc_array_destroy(A(m)); }
void map_free(int k, void *m) { if(k == 0) hashtable_free(H(m)); else if(k == 1) rbtree_free(R(m)); else assoc_array_free(A(m)); }
void map_clear(int k, void *m) { if(k == 0) hashtable_clear(H(m)); else if(k == 1) rbtree_clear(R(m)); else assoc_array_clear(A(m)); }
int map_set(int k, void *m, void *key, void *v, bool ow)
{
	if(k == 0)
	{
		HashTableInsertResult r = hashtable_set(H(m), key, v, ow);
		return r == HASHTABLE_INSERT_RESULT_NEW ? 0 : r == HASHTABLE_INSERT_RESULT_REPLACED ? 1 : 2;
	}
	else if(k == 1)
	{
		RBTreeInsertResult r = rbtree_set(R(m), key, v, ow);
		return r == RBTREE_INSERT_RESULT_NEW ? 0 : r == RBTREE_INSERT_RESULT_REPLACED ? 1 : 2;
	}
	AssocArrayInsertResult r = assoc_array_set(A(m), key, v, ow);
	return r == ASSOCARRAY_INSERT_RESULT_NEW ? 0 : r == ASSOCARRAY_INSERT_RESULT_REPLACED ? 1 : 2;
}
int map_remove(int k, void *m, const void *key)
{
	if(k == 0) { hashtable_remove(H(m), key); return -1; }
	if(k == 1) return rbtree_remove(R(m), key) ? 1 : 0;
	assoc_array_remove(A(m), key);
	return -1;
}
void *map_lookup(int k, void *m, const void *key)
{
	if(k == 0) return hashtable_lookup(H(m), key);
	if(k == 1) return rbtree_lookup(R(m), key);
	return assoc_array_lookup(A(m), key);
}
void *map_pair_key(int k, void *p, bool macro)
{
	if(k == 0) { HashTablePair *q = p; return macro ? hashtable_pair_key(q) : hashtable_pair_get_key(q); }
	if(k == 1) { RBTreePair *q = p; return macro ? rbtree_pair_key(q) : rbtree_pair_get_key(q); }
	AssocArrayPair *q = p;
	return macro ? assoc_array_pair_key(q) : assoc_array_pair_get_key(q);
}
void *map_pair_value(int k, void *p, bool macro)
{
	if(k == 0) { HashTablePair *q = p; return macro ? hashtable_pair_value(q) : hashtable_pair_get_value(q); }
	if(k == 1) { RBTreePair *q = p; return macro ? rbtree_pair_value(q) : rbtree_pair_get_value(q); }
	AssocArrayPair *q = p;
	return macro ? assoc_array_pair_value(q) : assoc_array_pair_get_value(q);
}
void map_pair_set(int k, void *p, void *v)
{
	if(k == 0) hashtable_pair_set_value((HashTablePair *)p, v);
	else if(k == 1) rbtree_pair_set_value((RBTreePair *)p, v);
	else assoc_array_pair_set_value((AssocArrayPair *)p, v);
}
bool map_exists(int k, const void *m, const void *key)
{
	if(k == 0) return hashtable_key_exists((const HashTable *)m, key);
	if(k == 1) return rbtree_key_exists((const RBTree *)m, key);
	return assoc_array_key_exists((const AssocArray *)m, key);
}
size_t as_size(const void *m) { return assoc_array_size((const AssocArray *)m); }
size_t map_count(int k, const void *m)
{
	if(k == 0) return hashtable_count((const HashTable *)m);
	if(k == 1) return rbtree_count((const RBTree *)m);
	return assoc_array_count((const AssocArray *)m);
}
void map_iter_init(int k, const void *m, void *it)
{
	if(k == 0) hashtable_iter_init((const HashTable *)m, (HashTableIter *)it);
	else if(k == 1) rbtree_iter_init((const RBTree *)m, (RBTreeIter *)it);
	else assoc_array_iter_init((const AssocArray *)m, (AssocArrayIter *)it);
}
bool map_iter_next(int k, void *it)
{
	if(k == 0) return hashtable_iter_next((HashTableIter *)it);
	if(k == 1) return rbtree_iter_next((RBTreeIter *)it);
	return assoc_array_iter_next((AssocArrayIter *)it);
}
void *map_iter_key(int k, void *p, bool macro)
{
	if(k == 0) { HashTableIter *it = p; return macro ? hashtable_iter_key((*it)) : hashtable_iter_get_key(it); }
	if(k == 1) { RBTreeIter *it = p; return macro ? rbtree_iter_key((*it)) : rbtree_iter_get_key(it); }
	AssocArrayIter *it = p;
	return macro ? assoc_array_iter_key((*it)) : assoc_array_iter_get_key(it);
}
void *map_iter_value(int k, void *p, bool macro)
{
	if(k == 0) { HashTableIter *it = p; return macro ? hashtable_iter_value((*it)) : hashtable_iter_get_value(it); }
	if(k == 1) { RBTreeIter *it = p; return macro ? rbtree_iter_value((*it)) : rbtree_iter_get_value(it); }
	AssocArrayIter *it = p;
	return macro ? assoc_array_iter_value((*it)) : assoc_array_iter_get_value(it);
}
void rb_iter_free(void *it) { rbtree_iter_free((RBTreeIter *)it); }
void rb_iter_reuse(const void *m, void *it) { rbtree_iter_reuse((const RBTree *)m, (RBTreeIter *)it); }

#define L(l) ((List *)(l))
#define S(l) ((SList *)(l))
void *ls_new(bool d, CmpFn c, FreeFn f, void *pool) { return d ? (void *)list_new(c, f, (Pool *)pool) : (void *)slist_new(c, f, (Pool *)pool); }
void ls_init(bool d, void *l, CmpFn c, FreeFn f, void *pool) { if(d) list_init(L(l), c, f, (Pool *)pool); else slist_init(S(l), c, f, (Pool *)pool); }
void ls_destroy(bool d, void *l) { if(d) list_destroy(L(l)); else slist_destroy(S(l)); }
void ls_free(bool d, void *l) { if(d) list_free(L(l)); else slist_free(S(l)); }
void *ls_append(bool d, void *l, void *x) { return d ? (void *)list_append(L(l), x) : (void *)slist_append(S(l), x); }
void *ls_prepend(bool d, void *l, void *x) { return d ? (void *)list_prepend(L(l), x) : (void *)slist_prepend(S(l), x); }
void *ls_insert_sorted(bool d, void *l, void *x) { return d ? (void *)list_insert_sorted(L(l), x) : (void *)slist_insert_sorted(S(l), x); }
void *ls_head(bool d, const void *l) { return d ? (void *)list_head(L(l)) : (void *)slist_head(S(l)); }
void *ls_tail(const void *l) { return list_tail(L(l)); }
size_t ls_count(bool d, const void *l) { return d ? list_count(L(l)) : slist_count(S(l)); }
bool ls_empty(bool d, const void *l) { return d ? list_empty(L(l)) : slist_empty(S(l)); }
void ls_remove(bool d, void *l, void *i) { if(d) list_remove(L(l), (ListItem *)i); else slist_remove(S(l), (SListItem *)i); }
void ls_remove_by_data(bool d, void *l, void *x, bool all) { if(d) list_remove_by_data(L(l), x, all); else slist_remove_by_data(S(l), x, all); }
void *ls_pop(bool d, void *l) { return d ? list_pop(L(l)) : slist_pop(S(l)); }
bool ls_contains(bool d, const void *l, const void *x) { return d ? list_contains(L(l), x) : slist_contains(S(l), x); }
void ls_clear(bool d, void *l) { if(d) list_clear(L(l)); else slist_clear(S(l)); }
void *ls_find(bool d, const void *l, void *off, const void *x) { return d ? (void *)list_find(L(l), (ListItem *)off, x) : (void *)slist_find(S(l), (SListItem *)off, x); }
void *ls_next(bool d, void *i) { return d ? (void *)list_item_next(((ListItem *)i)) : (void *)slist_item_next(((SListItem *)i)); }
void *ls_prev(void *i) { return list_item_prev(((ListItem *)i)); }
void *ls_data(bool d, void *i) { return d ? list_item_get_data(((ListItem *)i)) : slist_item_get_data(((SListItem *)i)); }
void ls_set_data(bool d, void *i, void *x) { if(d) list_item_set_data(((ListItem *)i), x); else slist_item_set_data(((SListItem *)i), x); }
void ls_item_free_data(bool d, const void *l, void *i) { if(d) list_item_free_data(L(l), (ListItem *)i); else slist_item_free_data(S(l), (SListItem *)i); }

#define K(s) ((Stack *)(s))
#define Q(s) ((Queue *)(s))
void *sq_new(bool q, CmpFn c, FreeFn f, void *pool) { return q ? (void *)queue_new(c, f, (Pool *)pool) : (void *)stack_new(c, f, (Pool *)pool); }
void sq_init(bool q, void *s, CmpFn c, FreeFn f, void *pool) { if(q) queue_init(Q(s), c, f, (Pool *)pool); else stack_init(K(s), c, f, (Pool *)pool); }
void sq_destroy(bool q, void *s) { if(q) queue_destroy(Q(s)); else stack_destroy(K(s)); }
void sq_free(bool q, void *s) { if(q) queue_free(Q(s)); else stack_free(K(s)); }
void sq_push(bool q, void *s, void *d) { if(q) queue_push(Q(s), d); else stack_push(K(s), d); }
bool sq_pop(bool q, void *s, void **d) { return q ? queue_pop(Q(s), d) : stack_pop(K(s), d); }
bool sq_head(bool q, void *s, void **d) { return q ? queue_head(Q(s), d) : stack_head(K(s), d); }
void sq_clear(bool q, void *s) { if(q) queue_clear(Q(s)); else stack_clear(K(s)); }
size_t sq_count(bool q, const void *s) { return q ? queue_count(Q(s)) : stack_count(K(s)); }

#define B(b) ((Buffer *)(b))
void *bf_new(size_t m) { return buffer_new(m); }
void bf_init(void *b, size_t m) { buffer_init(B(b), m); }
void bf_free(void *b) { buffer_free(B(b)); }
void bf_destroy(void *b) { buffer_destroy(B(b)); }
void bf_clear(void *b) { buffer_clear(B(b)); }
size_t bf_len(const void *b) { return buffer_len((const Buffer *)b); }
bool bf_valid(const void *b) { return buffer_is_valid((const Buffer *)b); }
bool bf_empty(const void *b) { return buffer_is_empty((const Buffer *)b); }
bool bf_fill(void *b, const char *d, size_t n) { return buffer_fill(B(b), d, n); }
ssize_t bf_fill_fd(void *b, int fd, size_t n) { return buffer_fill_from_fd(B(b), fd, n); }
bool bf_read_line(void *b, char **dst, size_t *len) { return buffer_read_line(B(b), dst, len); }
bool bf_flush(const void *b, char **dst, size_t *len) { return buffer_flush((const Buffer *)b, dst, len); }
char *bf_to_string(const void *b) { return buffer_to_string((const Buffer *)b); }
