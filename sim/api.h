/* Thin C layer over the public API of libdatatypes: the harness is C++ and the
 * library's headers are C, so every call of the harness goes through here.
 * Compiled as plain C against /repo's headers; nothing here is simulated. */
#ifndef API_H
#define API_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int32_t (*CmpFn)(const void *, const void *);
typedef bool (*EqFn)(const void *, const void *);
typedef uint32_t (*HashFn)(const void *);
typedef void (*FreeFn)(void *);
typedef struct PoolLike { void *(*alloc)(struct PoolLike *); void (*free)(struct PoolLike *, void *); } PoolLike;

enum { SZ_ASYNC, SZ_HASH, SZ_RB, SZ_ASSOC, SZ_LIST, SZ_SLIST, SZ_BUFFER, SZ_LISTITEM, SZ_SLISTITEM, SZ_RBNODE, SZ_HITER, SZ_RITER, SZ_AITER };
size_t api_sizeof(int what);
CmpFn api_str_compare(void);
CmpFn api_direct_compare(void);
EqFn api_str_equal(void);
EqFn api_direct_equal(void);
HashFn api_str_hash(void);
HashFn api_direct_hash(void);

/* async queue */
void *aq_new(CmpFn c, FreeFn f, void *pool);
void aq_init(void *q, CmpFn c, FreeFn f, void *pool);
void aq_destroy(void *q);
void aq_free(void *q);
void aq_push(void *q, void *d);
bool aq_pop(void *q, void **d);
bool aq_pop_timeout(void *q, void **d, uint32_t ms);
void aq_clear(void *q);
size_t aq_count(void *q);

/* memory pool */
void *mp_new(size_t item, size_t block);
void mp_destroy(void *p);
void *mp_alloc(void *p);
void mp_free(void *p, void *item);

/* maps: kind 0 hash table, 1 red-black tree, 2 associative array */
typedef struct MapParams { size_t hsize; HashFn hash; EqFn eq; CmpFn cmp; FreeFn fk, fv; void *pool; } MapParams;
void *map_new(int kind, const MapParams *p);
void map_init(int kind, void *m, const MapParams *p);
void map_destroy(int kind, void *m);
void map_free(int kind, void *m);
void map_clear(int kind, void *m);
int map_set(int kind, void *m, void *k, void *v, bool ow); /* 0 new 1 replaced 2 failed */
int map_remove(int kind, void *m, const void *k);          /* tree: 0/1, others -1 */
void *map_lookup(int kind, void *m, const void *k);        /* pair or NULL */
void *map_pair_key(int kind, void *pair, bool macro);
void *map_pair_value(int kind, void *pair, bool macro);
void map_pair_set(int kind, void *pair, void *v);
bool map_exists(int kind, const void *m, const void *k);
size_t as_size(const void *m);
size_t map_count(int kind, const void *m);
void map_iter_init(int kind, const void *m, void *it);
bool map_iter_next(int kind, void *it);
void *map_iter_key(int kind, void *it, bool macro);
void *map_iter_value(int kind, void *it, bool macro);
void rb_iter_free(void *it);
void rb_iter_reuse(const void *m, void *it);

/* lists: dbl = doubly linked */
void *ls_new(bool dbl, CmpFn c, FreeFn f, void *pool);
void ls_init(bool dbl, void *l, CmpFn c, FreeFn f, void *pool);
void ls_destroy(bool dbl, void *l);
void ls_free(bool dbl, void *l);
void *ls_append(bool dbl, void *l, void *d);
void *ls_prepend(bool dbl, void *l, void *d);
void *ls_insert_sorted(bool dbl, void *l, void *d);
void *ls_head(bool dbl, const void *l);
void *ls_tail(const void *l); /* doubly linked only */
size_t ls_count(bool dbl, const void *l);
bool ls_empty(bool dbl, const void *l);
void ls_remove(bool dbl, void *l, void *item);
void ls_remove_by_data(bool dbl, void *l, void *d, bool all);
void *ls_pop(bool dbl, void *l);
bool ls_contains(bool dbl, const void *l, const void *d);
void ls_clear(bool dbl, void *l);
void *ls_find(bool dbl, const void *l, void *off, const void *d);
void *ls_next(bool dbl, void *item);
void *ls_prev(void *item);
void *ls_data(bool dbl, void *item);
void ls_set_data(bool dbl, void *item, void *d);
void ls_item_free_data(bool dbl, const void *l, void *item);

/* stack (q = false) and queue (q = true) */
void *sq_new(bool q, CmpFn c, FreeFn f, void *pool);
void sq_init(bool q, void *s, CmpFn c, FreeFn f, void *pool);
void sq_destroy(bool q, void *s);
void sq_free(bool q, void *s);
void sq_push(bool q, void *s, void *d);
bool sq_pop(bool q, void *s, void **d);
bool sq_head(bool q, void *s, void **d);
void sq_clear(bool q, void *s);
size_t sq_count(bool q, const void *s);

/* buffer */
void *bf_new(size_t max);
void bf_init(void *b, size_t max);
void bf_free(void *b);
void bf_destroy(void *b);
void bf_clear(void *b);
size_t bf_len(const void *b);
bool bf_valid(const void *b);
bool bf_empty(const void *b);
bool bf_fill(void *b, const char *d, size_t n);
ssize_t bf_fill_fd(void *b, int fd, size_t n);
bool bf_read_line(void *b, char **dst, size_t *len);
bool bf_flush(const void *b, char **dst, size_t *len);
char *bf_to_string(const void *b);
#ifdef __cplusplus
}
#endif
#endif
