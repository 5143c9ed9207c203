/* World 2: client tasks around maps, lists, stacks, queues, pools and buffers, each with a
 * reference model that is compared after every call; and the differential world, in which
 * the same scripts run one after the other and then all at once. */
#include "world.h"
#include <algorithm>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <ctime>

enum Kd { KH, KR, KA, KL, KS, KT, KQ, KP, KB, KC, KF, KN };
static const char *const kd_name[] = { "hashtable", "rbtree", "assocarray", "list", "slist", "stack", "queue", "pool", "buffer", "node pool", "stream" };
enum OpC
{
	O_SET, O_REMOVE, O_LOOKUP, O_PAIRSET, O_EXISTS, O_COUNT, O_CLEAR, O_ITER, O_ITER2, O_RITER, O_ITERUSE, O_BULKSET, O_BULKDEL, O_BULKGET, O_CHURN,
	O_APPEND, O_PREPEND, O_SORTED, O_RMITEM, O_RMDATA, O_LPOP, O_FIND, O_CONTAINS, O_SETDATA, O_FREEDATA, O_LCLEAR, O_WALK, O_LBULK, O_LCHURN,
	O_PUSH, O_POP, O_HEAD, O_SCLEAR, O_SCOUNT, O_SBULK,
	O_PALLOC, O_PFREE, O_PCHECK, O_PCHURN,
	O_FILL, O_FILLFD, O_READLINE, O_FLUSH, O_TOSTR, O_QUERY, O_BCLEAR, O_BCHURN,
	O_WRITE, O_CLOSE, O_SLEEP, O_RECREATE, O_N
};
static const char *const o_name[] =
{
	"set", "remove", "lookup", "pair_set_value", "key_exists", "count", "clear", "iterate", "iterate_two", "iterator_reuse", "iterate_and_use", "bulk_set", "bulk_remove", "bulk_get", "churn",
	"append", "prepend", "insert_sorted", "remove", "remove_by_data", "pop", "find", "contains", "set_data", "free_data", "clear", "walk", "bulk_add", "churn",
	"push", "pop", "head", "clear", "count", "bulk_push",
	"alloc", "free", "check", "churn",
	"fill", "fill_from_fd", "read_line", "flush", "to_string", "query", "clear", "churn",
	"write", "close", "sleep", "recreate"
};
enum { P_OBJ, P_HEAP, P_KM, P_HMODE, P_OWN, P_POOL, P_P0, P_P1, P_OWNER, P_NUM };
enum { KM_INT, KM_STR, KM_OBJ };
static const u64 MAGIC = 0x6b65794f626a2121ull;
struct Kobj { u64 magic; i64 ord; u32 hash; u32 id; };
struct Tok { u8 type; u8 state; int obj; int id; int refs = 1; Tok() {} Tok(int t, int s, int o, int i) : type((u8)t), state((u8)s), obj(o), id(i) {} }; /* type: 0 key 1 value 2 data; state: 0 with the user 1 in the container */
struct Ent { void *key, *val; };
struct Nod { void *item, *data; };
struct PItem { char *p; u8 pat; };
struct FStream { std::string data; size_t pos = 0; bool closed = false, nonblock = false; };
struct Obj
{
	int idx, kind; bool heap, shared; int km, hmode; bool fk, fv; int pool; i64 p0, p1; int owner, lock;
	void *h = NULL; bool gone = false; u64 nops = 0;
	std::map<int, Ent> m; std::unordered_map<void *, int> byptr; u64 eqc = 0, eqo = 0;
	std::vector<Nod> seq; bool last_sorted = false, alias = false;
	std::deque<void *> dq;
	std::vector<PItem> live; std::map<char *, int> by_addr; i64 avail = 0; u8 nextpat = 1;
	std::string buf; bool valid = true; size_t max = 0; char *dst = NULL; size_t dlen = 0;
	size_t peak = 0; u64 tot_cost = 0, tot_ops = 0, tot_bytes = 0, last_add = 0;
	FStream st;
	PoolState *sp = NULL; void *mp = NULL; void *pool_h = NULL; /* node pools */
};
struct Ctx { int script; std::vector<void *> freed; void *rit; bool rit_live; int fd_calls; i64 fd_last; bool fd_result; i64 fd_bytes; bool fd_multi; size_t fd_req; int fd_eintr, fd_errno; std::string rd; int held = -1; };
static std::vector<Obj> ob;
static std::unordered_map<void *, Tok> toks;
static Ctx cx[MAXT];
static bool nolock, readonly_phase;
static u64 valseq;
static Ctx &ctx() { return cx[S.cur->id]; }

static bool is_map(const Obj &o) { return o.kind <= KA; }
static bool is_list(const Obj &o) { return o.kind == KL || o.kind == KS; }
static bool is_sq(const Obj &o) { return o.kind == KT || o.kind == KQ; }
static Cls own_cls(const Obj &o) { return is_map(o) ? C_OWNMAP : C_OWNLIST; }
static Cls main_cls(const Obj &o) { return is_map(o) ? C_MAP : is_list(o) ? C_LIST : is_sq(o) ? C_SQ : o.kind == KP ? C_POOLOV : C_STREAM; }
#define NAME(o) kd_name[(o).kind], (o).idx

/* ---------------------------------------------------------------- keys and data */
static i64 ord_of(int id) { return (i64)id; }
static i64 int_of(const Obj &o, int id)
{
	switch(cfg(G_W1) % 4)
	{
		case 0: return (i64)id + 1;
		case 1: return ((i64)id + 1) * 0x100000001ll;
		case 2: return (i64)((u64)(id + 1) * 0x0400000000000000ull) | (id + 1); /* spread over the whole range */
		default: return (i64)(id + 1) << 12;
	}
}
static std::string str_of(int id)
{
	char b[64];
	switch(cfg(G_W1) % 4)
	{
		case 0: snprintf(b, sizeof b, "key-%05d", id); break;
		case 1: if(!id) return ""; snprintf(b, sizeof b, "%0*d", 1 + id % 9, id); { std::string s = b; return s + std::to_string(id); }
		case 2: { std::string s; for(int x = id + 1; x; x /= 7) s += (char)(0x7d + x % 7); return s; } /* around the sign bit */
		default: { std::string s((size_t)(id % 40 + (id % 13 == 5 ? 260 : 0)), 'a'); return s + "#" + std::to_string(id); }
	}
	return b;
}
static u32 hash_of(const Obj &o, int id)
{
	switch(o.hmode)
	{
		case 1: return 42;
		case 2: return (u32)id % 3;
		case 3: return (u32)id * 257u;
		case 4: return (u32)(id % 7) | 0xffff0000u;
		default: { u32 x = (u32)id * 0x9e3779b1u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; return x; }
	}
}
static void *new_tok(Obj &o, u8 type, int id, bool heapobj)
{
	void *p;
	if(type != 0 || heapobj)
	{
		Kobj *k = (Kobj *)heap_alloc(sizeof(Kobj), TAG_USER, false);
		race_access(k, sizeof *k, true, "element written by its owner");
		k->magic = MAGIC; k->ord = ord_of(id); k->hash = hash_of(o, id); k->id = (u32)id;
		p = k;
	}
	else
	{
		std::string s = str_of(id);
		p = heap_alloc(s.size() + 1, TAG_USER, false);
		race_access(p, s.size() + 1, true, "key written by its owner");
		memcpy(p, s.c_str(), s.size() + 1);
	}
	toks[p] = { type, 0, o.idx, id };
	return p;
}
static void *mk_key(Obj &o, int id) { return o.km == KM_INT ? (void *)int_of(o, id) : new_tok(o, 0, id, o.km == KM_OBJ); }
static void user_free(void *p)
{
	auto i = toks.find(p);
	if(i == toks.end() || --i->second.refs > 0) return;
	toks.erase(i);
	Block *b = heap_block(p);
	if(b) race_access(p, b->size, true, "released by its owner");
	heap_free(p, TAG_USER, "owner");
}
static void drop_key(Obj &o, void *k) { if(o.km != KM_INT) user_free(k); }
static void *mk_val(Obj &o, int id, bool null)
{
	if(null) return NULL;
	if(o.fv) return new_tok(o, 1, id, true);
	return (void *)(0x6f00000000000000ull | ++valseq << 4);
}
static void set_state(void *p, u8 st) { auto i = toks.find(p); if(i != toks.end() && i->second.refs == 1) i->second.state = st; }
/* list data */
static void *mk_data(Obj &o, int id, bool null)
{
	if(null) return NULL;
	if(o.km == KM_INT) return (void *)int_of(o, id);
	if(o.km == KM_STR) { std::string s = str_of(id); void *p = heap_alloc(s.size() + 1, TAG_USER, false); race_access(p, s.size() + 1, true, "data written by its owner"); memcpy(p, s.c_str(), s.size() + 1); toks[p] = { 2, 0, o.idx, id }; return p; }
	return new_tok(o, 2, id, true);
}
static int pure_cmp(const Obj &o, const void *a, const void *b)
{
	if(o.km == KM_INT) return (u64)a < (u64)b ? -1 : (u64)a > (u64)b;
	if(!a || !b) return !a && !b ? 0 : !a ? -1 : 1;
	if(o.km == KM_STR) return strcmp((const char *)a, (const char *)b);
	i64 x = ((const Kobj *)a)->ord, y = ((const Kobj *)b)->ord;
	return x < y ? -1 : x > y;
}
/* ---------------------------------------------------------------- callbacks */
static bool nest_on; static int nest_left; static std::vector<int> busy; /* containers with a call in progress, when callbacks use other containers */
static void nest();
static void cbp() { cb_point(); if(nest_on) nest(); }
static void bad_arg(const char *what)
{
	int i = S.cur->api_obj;
	Cls c = i >= 0 && i < (int)ob.size() ? main_cls(ob[i]) : C_MAP;
	if(i < 0 || i >= (int)ob.size()) { fail_any({ C_MEM, C_ITER }, "the %s function was called with something that is not in use", what); end_run(O_FOREIGN); }
	fail_any({ C_MEM, c, C_SORT, own_cls(ob[i]), C_ITER }, "the %s function of %s %d was called with something that is not in use", what, NAME(ob[i]));
	end_run(O_FOREIGN);
}
static const Kobj *kobj(const void *p, const char *what)
{
	if(!heap_live(p, sizeof(Kobj)) || ((const Kobj *)p)->magic != MAGIC) bad_arg(what);
	race_access(p, sizeof(Kobj), false, "element read by a callback");
	return (const Kobj *)p;
}
static int32_t cb_cmp_obj(const void *a, const void *b)
{
	S.cur->cmp_calls++;
	if(!a || !b) return !a && !b ? 0 : !a ? -1 : 1;
	i64 x = kobj(a, "compare")->ord, y = kobj(b, "compare")->ord;
	cbp();
	i64 d = x - y;
	switch(cfg(G_W2) % 4)
	{
		case 0: return d < 0 ? -1 : d > 0;
		case 1: return (int32_t)d;
		case 2: return d < 0 ? INT32_MIN : d > 0 ? INT32_MAX : 0;
		default: return (int32_t)(d * 1000);
	}
}
static bool cb_eq_obj(const void *a, const void *b)
{
	S.cur->cmp_calls++;
	const Kobj *x = kobj(a, "equality"), *y = kobj(b, "equality");
	cbp();
	return x->id == y->id;
}
static u32 cb_hash_obj(const void *a) { u32 h = kobj(a, "hash")->hash; cbp(); return h; }
static void chk_str(const void *a, const char *w)
{
	const char *p = (const char *)a;
	if(!heap_live(p, 1)) bad_arg(w);
	Block *b = heap_block(p);
	if(!b || b->tag != TAG_USER || !memchr(p, 0, b->size - (size_t)(p - b->p))) bad_arg(w);
}
static int32_t cb_cmp_str(const void *a, const void *b)
{
	S.cur->cmp_calls++;
	if(!a || !b) return !a && !b ? 0 : !a ? -1 : 1;
	chk_str(a, "compare"); chk_str(b, "compare"); cbp();
	return api_str_compare()(a, b);
}
static bool cb_eq_str(const void *a, const void *b) { S.cur->cmp_calls++; chk_str(a, "equality"); chk_str(b, "equality"); cbp(); return api_str_equal()(a, b); }
static u32 cb_hash_str(const void *a) { chk_str(a, "hash"); cbp(); return api_str_hash()(a); }
static int32_t cb_cmp_int(const void *a, const void *b) { S.cur->cmp_calls++; cbp(); return api_direct_compare()(a, b); }
static bool cb_eq_int(const void *a, const void *b) { S.cur->cmp_calls++; cbp(); return api_direct_equal()(a, b); }
static u32 cb_hash_int(const void *a) { cbp(); return api_direct_hash()(a); }
static CmpFn cmp_fn(const Obj &o) { return o.km == KM_INT ? cb_cmp_int : o.km == KM_STR ? cb_cmp_str : cb_cmp_obj; }

static void freed_by_lib(void *p, int type, const char *what)
{
	int oi = S.cur->api_obj;
	if(oi < 0) { fail_any({ C_OWNMAP, C_ITER }, "an iterator called a free function"); end_run(O_FOREIGN); }
	Obj &o = ob[oi];
	Cls c = own_cls(o);
	cbp();
	if(!p) { fail(c, "%s %d passed NULL to the %s function", NAME(o), what); return; }
	auto i = toks.find(p);
	if(i == toks.end())
	{
		fail(c, "%s %d freed a %s that %s", NAME(o), what, heap_block(p) && !heap_block(p)->live ? "was freed before" : "it never got");
		return;
	}
	Tok t = i->second;
	if(t.obj != oi) { fail(c, "%s %d freed a %s of another container", NAME(o), what); }
	if(t.type != type) { fail(c, "%s %d freed a %s with the wrong function", NAME(o), t.type == 0 ? "key" : t.type == 1 ? "value" : "datum"); }
	if(t.state != 1) { fail(c, "%s %d freed a %s it does not own", NAME(o), what); }
	ctx().freed.push_back(p);
	if(--i->second.refs > 0) { probe(83); return; } /* the same data is still stored elsewhere */
	toks.erase(i);
	Block *b = heap_block(p);
	race_access(p, b->size, true, "freed by the container");
	heap_free(p, TAG_USER, "free function");
}
static void cb_free_key(void *p) { freed_by_lib(p, 0, "key"); }
static void cb_free_val(void *p) { freed_by_lib(p, 1, "value"); }
static void cb_free_data(void *p) { freed_by_lib(p, 2, "datum"); }
/* the frees of the call that just ended must be exactly these */
static void settle(Obj &o, std::vector<void *> &want, const char *call)
{
	std::vector<void *> &got = ctx().freed;
	std::sort(want.begin(), want.end());
	std::vector<void *> g = got; std::sort(g.begin(), g.end());
	got.clear();
	if(g == want) return;
	for(void *p : want) if(!std::binary_search(g.begin(), g.end(), p)) fail(own_cls(o), "%s of %s %d did not free what it gave up", call, NAME(o));
	for(void *p : g) if(!std::binary_search(want.begin(), want.end(), p)) fail(own_cls(o), "%s of %s %d freed something that is still in use", call, NAME(o));
	fail(own_cls(o), "%s of %s %d freed the wrong things", call, NAME(o));
}
/* ---------------------------------------------------------------- locks, calls */
static void lock(Obj &o, bool w) { if(!o.owner && !nolock) rw_lock(o.lock, w); }
static void unlock(Obj &o) { if(!o.owner && !nolock) rw_unlock(o.lock); }
struct Hold { Obj &o; int prev; bool skip; Hold(Obj &x, bool w) : o(x), prev(ctx().held), skip(prev == x.idx) { if(!skip) lock(o, w); ctx().held = o.idx; } ~Hold() { ctx().held = prev; if(!skip) unlock(o); } };
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
/* bulk operations meet other operations at every size on their way */
static bool poked(const Op &op, i64 n, i64 i, u64 &h) { if(op.a[4] & 3 || n > 7000) return false; h = mix((u64)op.a[4] * 8191 + (u64)i); bool hit = h % (2 + (u64)(op.a[4] >> 2) % 8) == 0; h >>= 8; return hit; }
static void step_check(Obj &o, int op, u64 steps, u64 copy);
struct Call
{
	Obj &o; int op; Api a;
	Call(Obj &x, int p, int obj) : o(x), op(p), a((u32)(x.kind * 64 + p), obj) {}
	~Call() { if(S.fine && (S.prop->mask & M(C_STEPS))) step_check(o, op, S.cur->api_steps, S.cur->api_copy); }
};
#define CALL(o, op) Call api_((o), (op), (o).idx)
#define CALLI(o, op) Call api_((o), (op), -1) /* iterators: their memory is not the map's */
static bool refused() { return S.cur->alloc_failed; }
static void check_pool(Obj &o)
{
	if(o.pool < 0 || !ob[o.pool].sp || !busy.empty()) return;
	size_t want = 0;
	for(auto &x : ob) if(x.pool == o.pool && !x.gone) want += is_map(x) ? x.m.size() : is_list(x) ? x.seq.size() : x.dq.size();
	if((size_t)ob[o.pool].sp->live != want) fail(C_POOLUSE, "%d nodes of the pool are in use, but the containers hold %zu elements", ob[o.pool].sp->live, want);
}
static void note_peak(Obj &o, size_t n) { if(n > 65535 && o.peak <= 65535) probe(79); if(n > o.peak) o.peak = n; }
static void check_bound()
{
	if(!busy.empty()) return;
	size_t lim = 16384;
	for(auto &o : ob)
	{
		if(o.kind == KB) lim += 1024 + 8 * (o.peak + 64);
		else if(o.kind == KP) lim += 1024 + (size_t)(4 * ((i64)o.peak + 2 * o.p1) * (o.p0 + 24));
		else if(o.kind == KC) lim += 1024 + (size_t)(2 * (o.p1 + 1) * 120);
		else if(o.kind == KH) lim += 16384 + 160 * o.peak + (o.p0 ? 16 * (size_t)o.p0 : 0);
		else if(o.kind != KF) lim += 1024 + 320 * o.peak;
	}
	if(heap_lib_bytes() > lim) fail(C_BOUND, "the library holds %zu bytes; the containers never needed more than %zu", heap_lib_bytes(), lim);
}
/* Steps are basic blocks of library code, plus bytes moved or cleared for it. Callbacks do not count. */
static u64 lg2(u64 n) { u64 l = 0; while(n) { ++l; n >>= 1; } return l; }
static const char *op_label(int op) { return op < O_N ? o_name[op] : op == 60 ? "create" : op == 61 ? "destroy" : "a call"; }
static void step_fail(Obj &o, int op, u64 steps, u64 lim, size_t n)
{
	fail(C_STEPS, "%s on %s %d with %zu elements took %llu steps, at most %llu are expected", op_label(op), NAME(o), n, (unsigned long long)steps, (unsigned long long)lim);
}
static u64 step_max[KN][64][2];
static void step_check(Obj &o, int op, u64 steps, u64 copy)
{
	if(S.ended) return;
	u64 n = is_map(o) ? o.m.size() : is_list(o) ? o.seq.size() : is_sq(o) ? o.dq.size() : o.kind == KP ? o.live.size() : o.buf.size();
	u64 C = 200 + (o.pool >= 0 ? 8 * (u64)ob[o.pool].p1 : 0), lin = 64 * (n + 1), lg = 96 * (lg2(n + 1) + 1), lim = 0;
	u64 cost = steps + copy / 16;
	if(o.kind >= KC) return;
	if(op == 60) lim = C + 8 * (u64)(is_map(o) || o.kind == KP ? o.p0 + o.p1 * 4 : 0);
	else if(op == 61) lim = C + 64 * (std::max<u64>(o.peak, n) + 1) + (o.kind == KH ? 64 * (1024 + (u64)o.p0 + 8 * o.peak) : 0);
	else switch(o.kind)
	{
		case KL: case KS:
			switch(op)
			{
				case O_SORTED: case O_FIND: case O_CONTAINS: case O_RMDATA: case O_LCLEAR: lim = C + lin; break;
				case O_RMITEM: lim = o.kind == KL ? C : C + lin; break;
				default: lim = C;
			}
			break;
		case KT: case KQ: lim = op == O_SCLEAR ? C + lin : C; break;
		case KP: lim = C + 8 * (u64)o.p1; break;
		case KR:
			switch(op)
			{
				case O_CLEAR: lim = C + lin; break;
				case O_COUNT: case O_PAIRSET: lim = C; break;
				case O_ITER: case O_RITER: cost = steps; lim = C + lg; break; /* the iterator's stack may be moved when it grows */
				default: lim = C + lg;
			}
			break;
		case KA:
			switch(op)
			{
				case O_SET: case O_REMOVE: case O_CLEAR: lim = C + lin; break;
				case O_EXISTS: case O_LOOKUP: lim = C + lg; break;
				default: lim = C;
			}
			break;
		case KH:
			if(o.p0 || o.hmode || o.km != KM_OBJ) return;
			if(op == O_ITER || op == O_RITER || op == O_CLEAR) { lim = C + 64 * (1024 + 8 * o.peak); break; }
			/* growing: the total over the life of the table */
			if(op == O_COUNT || op == O_PAIRSET) { lim = C; break; }
			o.tot_cost += cost; o.tot_ops++;
			cost = o.tot_cost; lim = 16 * 1024 + 80 * o.tot_ops;
			break;
		case KB:
			switch(op)
			{
				case O_FILL: case O_FILLFD: /* in total proportional to what was added */
					o.tot_cost += cost; o.tot_ops++; o.tot_bytes += op == O_FILL ? o.last_add : (u64)ctx().fd_bytes + ctx().fd_req / 8; /* room made for what was asked for may be copied */
					cost = o.tot_cost; lim = C + 128 * o.tot_ops + o.tot_bytes;
					break;
				case O_BCLEAR: case O_QUERY: lim = C; break;
				default: lim = C + 24 * n;
			}
			break;
		default: return;
	}
	u64 *m = step_max[o.kind][op & 63];
	u64 q = cost * 1000 / lim; if(q > m[0]) { m[0] = q; m[1] = n; }
	if(cost > lim) step_fail(o, op, cost, lim, n);
}
void step_report()
{
	for(int k = 0; k < KN; ++k) for(int p = 0; p < 64; ++p) if(step_max[k][p][0]) fprintf(stderr, "%s %s: %llu/1000 at %llu\n", kd_name[k], op_label(p), (unsigned long long)step_max[k][p][0], (unsigned long long)step_max[k][p][1]);
}
/* ---------------------------------------------------------------- creation */
static bool create(Obj &o)
{
	void *pool = o.pool >= 0 ? ob[o.pool].pool_h : NULL;
	ctx().freed.clear();
	tr("create %s %d", NAME(o));
	static const int szs[] = { SZ_HASH, SZ_RB, SZ_ASSOC, SZ_LIST, SZ_SLIST, SZ_SLIST, SZ_SLIST };
	o.m.clear(); o.byptr.clear(); o.seq.clear(); o.dq.clear(); o.live.clear(); o.by_addr.clear(); o.avail = 0; o.buf.clear(); o.valid = true; o.last_sorted = false;
	o.gone = false;
	if(is_map(o))
	{
		MapParams p = {};
		p.hsize = (size_t)o.p0;
		p.hash = o.km == KM_INT ? cb_hash_int : o.km == KM_STR ? cb_hash_str : cb_hash_obj;
		p.eq = o.km == KM_INT ? cb_eq_int : o.km == KM_STR ? cb_eq_str : cb_eq_obj;
		p.cmp = cmp_fn(o); p.fk = o.fk ? cb_free_key : NULL; p.fv = o.fv ? cb_free_val : NULL; p.pool = pool;
		if(o.heap) { CALL(o, 60); o.h = map_new(o.kind, &p); }
		else { o.h = heap_alloc(api_sizeof(szs[o.kind]), TAG_USER, false); CALL(o, 60); map_init(o.kind, o.h, &p); }
	}
	else if(is_list(o) || is_sq(o))
	{
		FreeFn f = o.fv ? cb_free_data : NULL;
		if(!o.heap) o.h = heap_alloc(api_sizeof(szs[o.kind]), TAG_USER, false);
		CALL(o, 60);
		if(is_list(o)) { if(o.heap) o.h = ls_new(o.kind == KL, cmp_fn(o), f, pool); else ls_init(o.kind == KL, o.h, cmp_fn(o), f, pool); }
		else { if(o.heap) o.h = sq_new(o.kind == KQ, cmp_fn(o), f, pool); else sq_init(o.kind == KQ, o.h, cmp_fn(o), f, pool); }
	}
	else if(o.kind == KP) { CALL(o, 60); o.h = mp_new((size_t)o.p0, (size_t)o.p1); }
	else if(o.kind == KB)
	{
		o.max = (size_t)o.p0;
		if(o.heap) { CALL(o, 60); o.h = bf_new(o.max); } else { o.h = heap_alloc(api_sizeof(SZ_BUFFER), TAG_USER, false); CALL(o, 60); bf_init(o.h, o.max); }
	}
	else if(o.kind == KC)
	{
		static const int nodes[] = { SZ_LISTITEM, SZ_SLISTITEM, SZ_RBNODE };
		size_t node = 0;
		if(o.p0 == 3) for(int s : nodes) node = std::max(node, api_sizeof(s)); else node = api_sizeof(nodes[o.p0 % 3]);
		int fl = o.hmode;
		if(fl == PF_LIB || fl == PF_SIMLIB) { CALL(o, 60); o.mp = mp_new(node, (size_t)o.p1); o.pool_h = o.mp; }
		if(fl == PF_SIM || fl == PF_SIMLIB) { o.sp = simpool_new(node, o.mp); o.pool_h = o.sp->p; }
		o.h = o.pool_h;
	}
	if(!o.h && o.kind != KF) { if(!refused()) fail(main_cls(o), "%s %d could not be created", NAME(o)); o.gone = true; return false; }
	return true;
}
static void collect_owned(Obj &o, std::vector<void *> &want)
{
	if(is_map(o)) for(auto &e : o.m) { if(o.fk) want.push_back(e.second.key); if(o.fv && e.second.val) want.push_back(e.second.val); }
	if(is_list(o) && o.fv) for(auto &n : o.seq) if(n.data) want.push_back(n.data);
	if(is_sq(o) && o.fv) for(void *p : o.dq) if(p) want.push_back(p);
}
static void release_user(Obj &o) /* what the container leaves to its user */
{
	if(is_map(o) && !o.fk) for(auto &e : o.m) drop_key(o, e.second.key);
	if(!o.fv && o.km != KM_INT) { for(auto &n : o.seq) if(n.data) user_free(n.data); for(void *p : o.dq) if(p) user_free(p); }
	o.m.clear(); o.byptr.clear(); o.seq.clear(); o.dq.clear();
}
static void destroy(Obj &o)
{
	if(o.gone) return;
	tr("destroy %s %d", NAME(o));
	std::vector<void *> want; collect_owned(o, want);
	if(!o.m.empty() || !o.seq.empty() || !o.dq.empty()) probe(73);
	if(is_map(o)) { CALL(o, 61); if(o.heap) map_destroy(o.kind, o.h); else map_free(o.kind, o.h); }
	else if(is_list(o)) { CALL(o, 61); if(o.heap) ls_destroy(o.kind == KL, o.h); else ls_free(o.kind == KL, o.h); }
	else if(is_sq(o)) { CALL(o, 61); if(o.heap) sq_destroy(o.kind == KQ, o.h); else sq_free(o.kind == KQ, o.h); }
	else if(o.kind == KP) { if(!o.live.empty()) probe(68); CALL(o, 61); mp_destroy(o.h); }
	else if(o.kind == KB) { CALL(o, 61); if(o.heap) bf_destroy(o.h); else bf_free(o.h); }
	else if(o.kind == KC) { if(o.mp) { CALL(o, 61); mp_destroy(o.mp); } if(o.sp) simpool_dispose(o.sp); o.sp = NULL; o.mp = NULL; }
	if(is_map(o) || is_list(o) || is_sq(o)) settle(o, want, "destroying");
	release_user(o);
	o.gone = true;
	check_pool(o);
	if(!o.heap && o.kind <= KQ) heap_free(o.h, TAG_USER, "container");
	if(!o.heap && o.kind == KB) heap_free(o.h, TAG_USER, "container");
	if(o.dst) { heap_free(o.dst, TAG_NODE, "destination"); o.dst = NULL; o.dlen = 0; }
	o.h = NULL; o.live.clear(); o.by_addr.clear();
	if(o.pool < 0 && o.kind != KC && heap_obj_bytes(o.idx)) fail_any({ o.kind == KP ? C_LEAK : C_LEAK }, "destroying %s %d left %zu bytes behind", NAME(o), heap_obj_bytes(o.idx));
}
/* ---------------------------------------------------------------- maps */
static bool exists(Obj &o, int id)
{
	void *k = mk_key(o, id); bool r;
	{ CALL(o, O_EXISTS); r = map_exists(o.kind, o.h, k); }
	drop_key(o, k);
	return r;
}
/* a hash that spreads: the harness's own, or the supplied ones on numbered names and consecutive integers */
static bool spreads(const Obj &o) { return !o.p0 && !o.hmode && (o.km == KM_OBJ || cfg(G_W1) % 4 == 0); }
static void cost(Obj &o, size_t n, const char *call)
{
	u64 c = S.cur->cmp_calls;
	if(o.kind == KH)
	{
		if(!spreads(o)) return;
		o.eqc += c; o.eqo++;
		if(o.eqo >= 256) { if(o.eqc > 4 * o.eqo) fail(C_COST, "hashtable %d needed %llu key comparisons for %llu operations at about %zu entries", o.idx, (unsigned long long)o.eqc, (unsigned long long)o.eqo, n); o.eqc = o.eqo = 0; }
		return;
	}
	size_t m = n + 1, lg = 0; /* floor(2*log2(n+1)) */
	{ __uint128_t q = (__uint128_t)m * m; while(q > 1) { q >>= 1; ++lg; } }
	if(*call == 's' || *call == 'r') lg = 2 * lg + 2; /* set and remove may search first */
	if(c > lg + 2) fail(C_COST, "%s on %s %d with %zu entries needed %llu key comparisons", call, NAME(o), n, (unsigned long long)c);
}
static void map_touch(Obj &o, int id, bool lookup)
{
	auto it = o.m.find(id); bool in = it != o.m.end();
	if(exists(o, id) != in) fail(C_MAP, "key %d is %s %s %d", id, in ? "missing from" : "still in", NAME(o));
	cost(o, o.m.size(), "key_exists");
	if(!lookup) return;
	bool al = in && o.alias; void *k = al ? it->second.key : mk_key(o, id), *p, *pk = NULL, *pv = NULL; bool mac = o.nops & 1;
	{ CALL(o, O_LOOKUP); p = map_lookup(o.kind, o.h, k); }
	cost(o, o.m.size(), "lookup");
	if((p != NULL) != in) fail(C_MAP, "lookup of key %d in %s %d %s", id, NAME(o), in ? "found nothing" : "found something");
	if(p) { { CALL(o, O_LOOKUP); pk = map_pair_key(o.kind, p, mac); pv = map_pair_value(o.kind, p, mac); } if(pk != it->second.key) fail(C_MAP, "%s %d holds another key object for key %d", NAME(o), id); if(pv != it->second.val) fail(C_MAP, "%s %d holds another value for key %d", NAME(o), id); }
	if(!al) drop_key(o, k);
}
static bool state_ok(Obj &o)
{
	size_t n; { CALL(o, O_COUNT); n = map_count(o.kind, o.h); }
	if(n != o.m.size()) return false;
	for(auto &e : o.m) { void *k = mk_key(o, e.first); bool r; { CALL(o, O_EXISTS); r = map_exists(o.kind, o.h, k); } drop_key(o, k); if(!r) return false; }
	return true;
}
static void iter_bad(Obj &o, const char *msg)
{
	if((S.prop->mask & M(C_ITER)) || !(S.prop->mask & M(C_MAP))) { fail(C_ITER, "%s %d: %s", NAME(o), msg); return; }
	if(o.kind == KA || !state_ok(o)) fail(C_MAP, "%s %d: %s", NAME(o), msg);
	else fail(C_ITER, "%s %d: %s", NAME(o), msg);
	end_run(O_FOREIGN);
}
struct Iter
{
	Obj &o; void *it; std::set<int> seen; void *prev = NULL; bool ended = false;
	Iter(Obj &x, void *i) : o(x), it(i) {}
	bool next()
	{
		bool r, mac = (o.nops ^ seen.size()) & 1; void *k = NULL, *v = NULL;
		{ CALLI(o, O_ITER); r = map_iter_next(o.kind, it); }
		if(!r)
		{
			if(seen.size() != o.m.size()) { char b[96]; snprintf(b, sizeof b, "iteration ended after %zu of %zu entries", seen.size(), o.m.size()); iter_bad(o, b); }
			ended = true;
			return false;
		}
		if(ended) iter_bad(o, "an iterator came back to life after it had reported the end");
		{ CALLI(o, O_ITER); k = map_iter_key(o.kind, it, mac); v = map_iter_value(o.kind, it, mac); }
		auto i = o.byptr.find(k);
		if(i == o.byptr.end()) { iter_bad(o, "iteration yields a key that is not in the map"); end_run(O_FOREIGN); }
		if(!seen.insert(i->second).second) { iter_bad(o, "iteration yields an entry twice"); end_run(O_FOREIGN); }
		if(v != o.m[i->second].val) iter_bad(o, "iteration yields an outdated value");
		if(o.kind == KA && prev && pure_cmp(o, prev, k) >= 0) fail_any({ C_MAP, C_ITER }, "assocarray %d does not iterate in ascending order", o.idx);
		prev = k;
		return true;
	}
	void rest() { while(next()) yield(K_CBK); next(); next(); }
};
static void *iter_mem(int kind) { static const int sz[] = { SZ_HITER, SZ_RITER, SZ_AITER }; return heap_alloc(api_sizeof(sz[kind]), TAG_USER, false); }
static void *iter_begin(Obj &o) { void *it = iter_mem(o.kind); { CALLI(o, O_ITER); map_iter_init(o.kind, o.h, it); } return it; }
static void iter_end(Obj &o, void *it) { if(o.kind == KR) { CALLI(o, O_ITER); rb_iter_free(it); } heap_free(it, TAG_USER, "iterator"); }
static void iterate(Obj &o)
{
	void *it = iter_begin(o);
	Iter i(o, it); i.rest();
	probe(o.m.empty() ? 40 : 41);
	iter_end(o, it);
}
static void map_check(Obj &o, bool full)
{
	size_t n; { CALL(o, O_COUNT); n = map_count(o.kind, o.h); }
	if(o.kind == KA) { size_t z; { CALL(o, O_COUNT); z = as_size(o.h); } if(z < n) fail(C_MAP, "%s %d reports a size of %zu although it holds %zu entries", NAME(o), z, n); }
	if(n != o.m.size()) fail(C_MAP, "%s %d counts %zu entries instead of %zu", NAME(o), n, o.m.size());
	if(full)
	{
		for(auto &e : o.m) map_touch(o, e.first, true);
		for(int id = 0; id < 12; ++id) if(!o.m.count(id)) map_touch(o, id, false);
		iterate(o);
	}
	check_pool(o);
	note_peak(o, o.m.size());
	check_bound();
	if(o.m.size() > 1000) probe(71);
	if(o.m.size() > 5000) probe(72);
}
static void map_set1(Obj &o, int id, bool nullv, bool ow)
{
	auto it = o.m.find(id); bool had = it != o.m.end(); size_t n = o.m.size();
	/* the caller may pass the very key the map holds, as long as it is not asked to free it */
	bool al = had && o.alias && !(ow && o.fk);
	void *k = al ? it->second.key : mk_key(o, id), *v = mk_val(o, id, nullv);
	if(al) { probe(81); ow = ow && !o.fk; }
	std::vector<void *> want; void *oldk = NULL;
	if(had)
	{
		oldk = it->second.key;
		if(ow && o.fk) want.push_back(oldk);
		if(o.fv && it->second.val) want.push_back(it->second.val);
	}
	tr("set %s %d key %d %s%s", NAME(o), id, ow ? "overwrite key" : "", nullv ? " NULL" : "");
	note_peak(o, n + 1);
	int r; { CALL(o, O_SET); r = map_set(o.kind, o.h, k, v, ow); }
	ev(200, o.idx, id, r);
	if(r == 2)
	{
		if(!refused()) fail(C_MAP, "set on %s %d reports failure", NAME(o));
		want.clear(); settle(o, want, "a refused set"); probe(77);
		if(!al) drop_key(o, k); if(v) user_free(v);
		return;
	}
	cost(o, n, "set");
	if(r != (had ? 1 : 0)) fail(C_MAP, "set of %s key %d on %s %d reports %s", had ? "an existing" : "a new", id, NAME(o), r ? "replaced" : "new");
	settle(o, want, "set");
	if(had)
	{
		if(al) ;
		else if(ow)
		{
			o.byptr.erase(oldk);
			if(!o.fk) { if(oldk != k) drop_key(o, oldk); }
			it->second.key = k; o.byptr[k] = id; set_state(k, 1); probe(34);
		}
		else drop_key(o, k);
		it->second.val = v; probe(33);
	}
	else { o.m[id] = { k, v }; o.byptr[k] = id; set_state(k, 1); probe(32); }
	if(v) set_state(v, 1); else probe(70);
}
static void map_del1(Obj &o, int id)
{
	auto it = o.m.find(id); bool had = it != o.m.end(); size_t n = o.m.size();
	std::vector<void *> want; void *oldk = NULL;
	if(had) { oldk = it->second.key; if(o.fk) want.push_back(oldk); if(o.fv && it->second.val) want.push_back(it->second.val); }
	bool al = had && o.alias; void *k = al ? oldk : mk_key(o, id); if(al) probe(81);
	tr("remove %s %d key %d%s", NAME(o), id, al ? ", passing the stored key" : "");
	int r; { CALL(o, O_REMOVE); r = map_remove(o.kind, o.h, k); }
	ev(201, o.idx, id, (u64)r);
	cost(o, n, "remove");
	if(!al) drop_key(o, k);
	if(r >= 0 && r != (had ? 1 : 0)) fail(C_MAP, "remove of %s key %d on %s %d reports %s", had ? "an existing" : "a missing", id, NAME(o), r ? "success" : "failure");
	settle(o, want, "remove");
	probe(had ? 35 : 36);
	if(had) { o.byptr.erase(oldk); if(!o.fk) drop_key(o, oldk); o.m.erase(it); }
}
static bool map_pairset1(Obj &o, int id, bool nullv)
{
	void *k = mk_key(o, id), *p; auto it = o.m.find(id);
	{ CALL(o, O_LOOKUP); p = map_lookup(o.kind, o.h, k); }
	drop_key(o, k);
	if((p != NULL) != (it != o.m.end())) fail(C_MAP, "lookup of key %d in %s %d %s", id, NAME(o), p ? "found something" : "found nothing");
	if(!p) return false;
	void *v = mk_val(o, id, nullv); std::vector<void *> want;
	if(o.fv && it->second.val) want.push_back(it->second.val);
	{ CALL(o, O_PAIRSET); map_pair_set(o.kind, p, v); }
	settle(o, want, "pair_set_value");
	it->second.val = v; if(v) set_state(v, 1);
	return true;
}
/* a map is used while an iterator runs over it: lookups, value updates and other iterators do not disturb it */
static void iterate_use(Obj &o, u64 seed)
{
	void *it = iter_begin(o); Iter x(o, it); probe(82);
	int top = o.m.empty() ? 1 : o.m.rbegin()->first + 2;
	for(u64 i = 0; x.next(); ++i)
	{
		u64 q = mix(seed + i * 77); void *cur = x.prev;
		if(i > 150 || q % 3 == 0) continue;
		auto j = o.m.lower_bound((int)((q >> 8) % (u64)top)); if(j == o.m.end()) j = o.m.begin();
		int id = j->first, other = (int)((q >> 20) % (u64)top);
		switch((q >> 4) % 7)
		{
			case 0: map_touch(o, id, true); break;
			case 1: map_touch(o, other, true); break;
			case 2: map_pairset1(o, id, q >> 40 & 1); break;
			case 3: map_pairset1(o, o.byptr[cur], q >> 40 & 1); break;
			case 4: { void *b = iter_begin(o); Iter y(o, b); for(u64 n = (q >> 40) % 9; n > 0 && y.next(); --n) ; fault(F_ABANDON); iter_end(o, b); break; }
			case 5: { size_t n; { CALL(o, O_COUNT); n = map_count(o.kind, o.h); } if(n != o.m.size()) fail(C_MAP, "%s %d counts %zu entries instead of %zu", NAME(o), n, o.m.size()); break; }
			default:
			{
				void *k = mk_key(o, id), *p, *pk, *pv; { CALL(o, O_LOOKUP); p = map_lookup(o.kind, o.h, k); } drop_key(o, k);
				if(!p) fail(C_MAP, "lookup of key %d in %s %d found nothing", id, NAME(o));
				exists(o, other); { CALL(o, O_COUNT); map_count(o.kind, o.h); }
				if(q >> 41 & 1) { void *b = iter_begin(o); Iter y(o, b); y.next(); iter_end(o, b); }
				{ CALL(o, O_LOOKUP); pk = map_pair_key(o.kind, p, false); pv = map_pair_value(o.kind, p, false); }
				if(pk != j->second.key || pv != j->second.val) fail(C_MAP, "the pair of key %d of %s %d changed although only read operations followed", id, NAME(o));
			}
		}
		void *k, *v; { CALLI(o, O_ITER); k = map_iter_key(o.kind, it, i & 1); v = map_iter_value(o.kind, it, i & 1); }
		if(k != cur || v != o.m[o.byptr[cur]].val) iter_bad(o, "the entry an iterator stands on changed although only other operations followed");
		yield(K_CBK);
	}
	x.next(); iter_end(o, it);
}
static void do_map(Obj &o, const Op &op);
static void map_poke(Obj &o, int base, int stride, i64 i, i64 cnt, u64 h)
{
	int old = base + (int)((h >> 8) % (u64)(i + 1)) * stride, miss = base + (int)(cnt + 1) * stride; bool big = o.m.size() > 400;
	probe(80);
	switch(h % 10)
	{
		case 0: case 1: map_set1(o, old, h >> 40 & 1, h >> 41 & 1); break;
		case 2: map_del1(o, old); map_touch(o, old, true); map_set1(o, old, false, false); break;
		case 3: map_del1(o, miss); break;
		case 4: map_touch(o, old, true); map_touch(o, miss, false); break;
		case 5: map_del1(o, old); break;
		default:
		{
			static const int ops[] = { O_SET, O_REMOVE, O_PAIRSET, O_PAIRSET, O_LOOKUP, O_EXISTS, O_COUNT, O_ITER, O_ITER2, O_RITER, O_RITER };
			u64 q = (h >> 8) % 11; if(q >= 7 && big && h >> 50 & 7) q = 2;
			do_map(o, { ops[q], { o.idx, (i64)(h >> 20) % 4096, (i64)(h >> 12) % 65536, (i64)(h >> 30) % 65536, (i64)(h >> 24) % 65536 } });
		}
	}
	if(!big || h >> 44 & 31) return;
	map_check(o, true);
}
static void do_map(Obj &o, const Op &op)
{
	int uni = 1 + (int)((u64)o.p1 % 64), id = (int)((u64)op.a[1] % uni);
	o.nops++; if(!readonly_phase) o.alias = ((u64)op.a[4] >> 5) % 4 == 0;
	if(readonly_phase && op.code != O_EXISTS && op.code != O_COUNT && op.code != O_ITER && op.code != O_ITER2 && op.code != O_BULKGET && op.code != O_RITER) return;
	i64 base = 100 + (i64)((u64)op.a[1] % 4000), cnt = (i64)((u64)op.a[2] % 400000), stride = 1 + (i64)((u64)op.a[3] % 7);
	switch(op.code)
	{
		case O_SET: { Hold g(o, true); if(o.gone) return; map_set1(o, id, op.a[2] % 8 == 7, op.a[3] & 1); map_touch(o, id, true); map_check(o, o.m.size() <= 24); break; }
		case O_REMOVE: { Hold g(o, true); if(o.gone) return; map_del1(o, id); map_touch(o, id, true); map_check(o, o.m.size() <= 24); break; }
		case O_LOOKUP: { Hold g(o, true); if(o.gone) return; map_touch(o, id, true); probe(o.m.count(id) ? 37 : 38); break; }
		case O_PAIRSET:
		{
			Hold g(o, true); if(o.gone) return;
			if(!map_pairset1(o, id, op.a[2] % 8 == 7)) break;
			map_touch(o, id, true); map_check(o, o.m.size() <= 24); probe(39);
			break;
		}
		case O_EXISTS: { Hold g(o, false); if(o.gone) return; map_touch(o, id, false); break; }
		case O_COUNT: { Hold g(o, false); if(o.gone) return; size_t n; { CALL(o, O_COUNT); n = map_count(o.kind, o.h); } if(n != o.m.size()) fail(C_MAP, "%s %d counts %zu entries instead of %zu", NAME(o), n, o.m.size()); break; }
		case O_CLEAR:
		{
			Hold g(o, true); if(o.gone) return;
			std::vector<void *> want; collect_owned(o, want);
			if(o.m.size()) probe(74);
			tr("clear %s %d", NAME(o));
			{ CALL(o, O_CLEAR); map_clear(o.kind, o.h); }
			settle(o, want, "clear"); release_user(o); map_check(o, true);
			break;
		}
		case O_ITER: { Hold g(o, false); if(o.gone) return; iterate(o); break; }
		case O_ITER2:
		{
			Hold g(o, false); if(o.gone) return;
			void *a = iter_begin(o), *b = iter_begin(o); Iter x(o, a), y(o, b); probe(43);
			for(u64 i = 0; i < o.m.size() * 2 + 4; ++i) { if((op.a[2] >> (i % 60)) & 1) { if(!x.ended) x.next(); } else if(!y.ended) y.next(); yield(K_CBK); }
			x.rest(); y.rest();
			iter_end(o, a); iter_end(o, b);
			break;
		}
		case O_RITER:
		{
			if(o.kind != KR) { Hold g(o, false); if(o.gone) return; void *a = iter_begin(o); Iter x(o, a); for(i64 i = op.a[2] % 20; i > 0 && x.next(); --i) yield(K_CBK); fault(F_ABANDON); iter_end(o, a); break; }
			/* the task keeps one tree iterator for its whole life and moves it from tree to tree */
			Ctx &c = ctx(); Hold g(o, false); if(o.gone) return;
			if(!c.rit_live) { if(!c.rit) c.rit = iter_mem(KR); { CALLI(o, O_RITER); map_iter_init(KR, o.h, c.rit); } c.rit_live = true; }
			else { CALLI(o, O_RITER); rb_iter_reuse(o.h, c.rit); probe(42); }
			Iter x(o, c.rit);
			i64 n = op.a[2] % 3 ? (i64)((u64)op.a[3] % 40) : (i64)o.m.size() + 3;
			if(n > (i64)o.m.size()) x.rest(); else { while(n-- > 0 && x.next()) yield(K_CBK); fault(F_ABANDON); }
			if(op.a[4] % 3 == 0) { CALLI(o, O_RITER); rb_iter_free(c.rit); c.rit_live = false; }
			break;
		}
		case O_ITERUSE: { Hold g(o, true); if(o.gone) return; iterate_use(o, (u64)op.a[2]); break; }
		case O_BULKSET: { Hold g(o, true); if(o.gone) return; for(i64 i = 0; i < cnt; ++i) { map_set1(o, (int)(base + i * stride), i % 16 == 5, i & 1); u64 h; if(poked(op, cnt, i, h)) map_poke(o, (int)base, (int)stride, i, cnt, h); } map_check(o, true); break; }
		case O_BULKDEL: { Hold g(o, true); if(o.gone) return; for(i64 i = cnt - 1; i >= 0; --i) { map_del1(o, (int)(base + i * stride)); u64 h; if(i && poked(op, cnt, i, h)) map_poke(o, (int)base, (int)stride, i - 1, cnt, h); } map_check(o, true); break; }
		case O_BULKGET: { Hold g(o, false); if(o.gone) return; for(i64 i = 0; i < cnt; ++i) map_touch(o, (int)(base + i * stride), false); break; }
		case O_CHURN:
		{
			Hold g(o, true); if(o.gone) return;
			for(i64 i = 0; i < cnt; ++i) { map_set1(o, 100 + (int)(i * stride), false, false); if(i >= 3) map_del1(o, 100 + (int)((i - 3) * stride)); }
			for(i64 i = std::max<i64>(0, cnt - 3); i < cnt; ++i) map_del1(o, 100 + (int)(i * stride));
			map_check(o, true); probe(78);
			break;
		}
		default: break;
	}
}
/* ---------------------------------------------------------------- lists */
static void list_bad(Obj &o, Cls first, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void list_bad(Obj &o, Cls first, const char *fmt, ...)
{
	char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if(first == C_SORT || o.last_sorted) fail_any({ C_SORT, C_LIST }, "%s %d: %s", NAME(o), b);
	else fail_any({ C_LIST }, "%s %d: %s", NAME(o), b);
	end_run(O_FOREIGN);
}
static bool item_live(Obj &o, void *it) { return heap_live(it, api_sizeof(o.kind == KL ? SZ_LISTITEM : SZ_SLISTITEM)); }
static void list_check(Obj &o, bool walk)
{
	bool d = o.kind == KL; size_t n; bool e; void *h, *t = NULL;
	{ CALL(o, O_WALK); n = ls_count(d, o.h); e = ls_empty(d, o.h); h = ls_head(d, o.h); if(d) t = ls_tail(o.h); }
	if(n != o.seq.size()) list_bad(o, C_LIST, "counts %zu elements instead of %zu", n, o.seq.size());
	if(e != o.seq.empty()) list_bad(o, C_LIST, "reports to be %s", e ? "empty" : "not empty");
	if(h != (o.seq.empty() ? NULL : o.seq[0].item)) list_bad(o, C_LIST, "has the wrong head");
	if(d && t != (o.seq.empty() ? NULL : o.seq.back().item)) list_bad(o, C_LIST, "has the wrong tail");
	note_peak(o, n); check_pool(o); check_bound();
	if(!walk) return;
	void *it = h;
	for(size_t i = 0; i < o.seq.size(); ++i)
	{
		if(it != o.seq[i].item) list_bad(o, C_LIST, "element %zu of %zu is not the expected one when walking forwards", i, o.seq.size());
		if(!item_live(o, it)) list_bad(o, C_LIST, "element %zu is not allocated any more", i);
		void *x; { CALL(o, O_WALK); x = ls_data(d, it); it = ls_next(d, it); }
		if(x != o.seq[i].data) list_bad(o, C_LIST, "element %zu of %zu holds the wrong data", i, o.seq.size());
		if(i < 64) yield(K_CBK);
	}
	if(it) list_bad(o, C_LIST, "goes on behind its last element");
	if(!d) return;
	it = t;
	for(size_t i = o.seq.size(); i-- > 0;)
	{
		if(it != o.seq[i].item) list_bad(o, C_LIST, "element %zu of %zu is not the expected one when walking backwards", i, o.seq.size());
		{ CALL(o, O_WALK); it = ls_prev(it); }
	}
	if(it) list_bad(o, C_LIST, "goes on before its first element");
}
static bool is_sorted(Obj &o) { for(size_t i = 1; i < o.seq.size(); ++i) if(pure_cmp(o, o.seq[i - 1].data, o.seq[i].data) > 0) return false; return true; }
static void *mk_free_data(Obj &o, int id, bool null)
{
	/* counted data may be stored more than once; every stored element is released once */
	if(!null && o.shared && o.km != KM_INT && id % 3 == 0)
	{
		void *p = NULL; size_t n = is_list(o) ? o.seq.size() : o.dq.size();
		if(n) p = is_list(o) ? o.seq[id % n].data : o.dq[id % n];
		if(n && id % 2) { p = is_list(o) ? o.seq[n - 1].data : o.dq[n - 1]; }
		auto i = p ? toks.find(p) : toks.end();
		if(i != toks.end() && i->second.state == 1 && i->second.obj == o.idx) { i->second.refs++; return p; }
	}
	void *p = mk_data(o, id, null); if(p) set_state(p, 1); return p;
}
static bool adopt_refused(Obj &o, void *item, void *data)
{
	if(item) return false;
	if(!refused()) list_bad(o, C_LIST, "adding an element returned nothing");
	std::vector<void *> w; settle(o, w, "a refused insertion");
	if(data && o.km != KM_INT) user_free(data);
	probe(77);
	return true;
}
static void list_add(Obj &o, int code, int id, bool null)
{
	bool d = o.kind == KL; void *x = mk_free_data(o, id, null), *it; std::vector<void *> none;
	tr("%s %s %d element %d%s", o_name[code], NAME(o), id, null ? " NULL" : "");
	note_peak(o, o.seq.size() + 1);
	{ CALL(o, code); it = code == O_APPEND ? ls_append(d, o.h, x) : ls_prepend(d, o.h, x); }
	if(adopt_refused(o, it, x)) return;
	settle(o, none, o_name[code]);
	if(code == O_APPEND) o.seq.push_back({ it, x }); else o.seq.insert(o.seq.begin(), { it, x });
	ev(210 + code, o.idx, id);
}
static void list_sorted(Obj &o, int id, bool null)
{
	bool d = o.kind == KL; std::vector<void *> none;
	if(!is_sorted(o)) { list_add(o, O_APPEND, id, null); list_check(o, o.seq.size() < 200); o.last_sorted = false; return; }
	void *x = mk_free_data(o, id, null), *it;
	tr("insert_sorted %s %d element %d%s", NAME(o), id, null ? " NULL" : "");
	o.last_sorted = true;
	note_peak(o, o.seq.size() + 1);
	{ CALL(o, O_SORTED); it = ls_insert_sorted(d, o.h, x); }
	if(adopt_refused(o, it, x)) return;
	settle(o, none, "insert_sorted");
	/* find out where it went: somewhere among its equals */
	size_t lo = 0, hi = o.seq.size();
	while(lo < o.seq.size() && pure_cmp(o, o.seq[lo].data, x) < 0) ++lo;
	hi = lo; while(hi < o.seq.size() && pure_cmp(o, o.seq[hi].data, x) == 0) ++hi;
	probe(lo == o.seq.size() ? 46 : lo == 0 ? 45 : 44);
	void *w; { CALL(o, O_WALK); w = ls_head(d, o.h); }
	size_t pos = 0;
	for(; pos <= hi && w != it; ++pos)
	{
		if(!w || !item_live(o, w)) { list_bad(o, C_SORT, "lost the element that was inserted in order"); }
		if(pos < o.seq.size() && w != o.seq[pos].item) { list_bad(o, C_SORT, "lost an element or its order when another one was inserted in order"); }
		CALL(o, O_WALK); w = ls_next(d, w);
	}
	if(w != it || pos < lo || pos > hi) list_bad(o, C_SORT, "an element inserted in order went to position %zu instead of %zu to %zu", pos, lo, hi);
	o.seq.insert(o.seq.begin() + pos, { it, x });
	list_check(o, true);
	ev(230, o.idx, id, pos);
}
static void list_forget(Obj &o, Nod n, std::vector<void *> &want)
{
	if(!n.data) return;
	if(o.fv) want.push_back(n.data);
}
static void list_user(Obj &o, void *data) { if(data && o.km != KM_INT) { set_state(data, 0); user_free(data); } }
static void do_list(Obj &o, const Op &op)
{
	bool d = o.kind == KL; int uni = 1 + (int)((u64)o.p1 % 40), id = (int)((u64)op.a[1] % uni); bool null = o.km == KM_OBJ && op.a[2] % 10 == 9;
	o.nops++;
	bool small = o.seq.size() < 200 || o.nops % 16 == 0;
	if(readonly_phase && op.code != O_FIND && op.code != O_CONTAINS && op.code != O_WALK) return;
	std::vector<void *> want;
	switch(op.code)
	{
		case O_APPEND: case O_PREPEND: { Hold g(o, true); if(o.gone) return; list_add(o, op.code, id, null); list_check(o, small); o.last_sorted = false; break; }
		case O_SORTED: { Hold g(o, true); if(o.gone) return; list_sorted(o, id, null); break; }
		case O_RMITEM:
		{
			Hold g(o, true); if(o.gone || o.seq.empty()) return;
			size_t k = (u64)op.a[1] % o.seq.size(); Nod n = o.seq[k];
			list_forget(o, n, want);
			probe(k + 1 == o.seq.size() ? 48 : 47);
			tr("remove element at %zu of %zu from %s %d", k, o.seq.size(), NAME(o));
			{ CALL(o, O_RMITEM); ls_remove(d, o.h, n.item); }
			settle(o, want, "remove");
			if(!o.fv) list_user(o, n.data);
			o.seq.erase(o.seq.begin() + k); ev(240, o.idx, k);
			list_check(o, small);
			break;
		}
		case O_RMDATA:
		{
			Hold g(o, true); if(o.gone) return;
			bool all = op.a[3] & 1, al = !o.seq.empty() && (!all || !o.fv) && ((u64)op.a[4] >> 5) % 4 == 0; void *x = al ? o.seq[(u64)op.a[2] % o.seq.size()].data : mk_data(o, id, null); size_t hits = 0; if(al) probe(81);
			std::vector<Nod> keep; std::vector<void *> lost;
			for(auto &n : o.seq)
			{
				if((all || !hits) && pure_cmp(o, n.data, x) == 0) { ++hits; list_forget(o, n, want); lost.push_back(n.data); }
				else keep.push_back(n);
			}
			if(all && hits > 1) probe(49);
			tr("remove %s elements equal to %d from %s %d", all ? "all" : "the first of the", id, NAME(o));
			{ CALL(o, O_RMDATA); ls_remove_by_data(d, o.h, x, all); }
			settle(o, want, "remove_by_data");
			if(!o.fv) for(void *p : lost) list_user(o, p);
			o.seq = keep; ev(241, o.idx, hits);
			if(x && !al && o.km != KM_INT) user_free(x);
			list_check(o, small);
			break;
		}
		case O_LPOP:
		{
			Hold g(o, true); if(o.gone) return;
			void *x; { CALL(o, O_LPOP); x = ls_pop(d, o.h); }
			settle(o, want, "pop");
			void *exp = o.seq.empty() ? NULL : o.seq[0].data;
			if(o.seq.empty()) probe(52);
			if(x != exp) list_bad(o, C_LIST, "pop returned the wrong data");
			if(!o.seq.empty()) o.seq.erase(o.seq.begin());
			list_user(o, x); ev(242, o.idx, o.seq.size());
			list_check(o, small);
			break;
		}
		case O_FIND:
		{
			Hold g(o, false); if(o.gone) return;
			size_t from = o.seq.empty() || op.a[3] % 3 == 0 ? 0 : (u64)op.a[3] % o.seq.size();
			void *off = o.seq.empty() || op.a[3] % 3 == 0 ? NULL : o.seq[from].item;
			bool al = !o.seq.empty() && ((u64)op.a[4] >> 5) % 4 == 0; void *x = al ? o.seq[(u64)op.a[2] % o.seq.size()].data : mk_data(o, id, null), *f;
			{ CALL(o, O_FIND); f = ls_find(d, o.h, off, x); }
			size_t first = from; while(first < o.seq.size() && pure_cmp(o, o.seq[first].data, x)) ++first;
			bool hit = first < o.seq.size(); probe(hit ? 50 : 51);
			if(hit && !f) list_bad(o, C_LIST, "does not find an element that is there");
			if(!hit && f) list_bad(o, C_LIST, "finds an element that is not there");
			if(hit && !d && f != o.seq[first].item) list_bad(o, C_LIST, "does not find the first matching element");
			if(hit && d) { bool ok = false; for(size_t i = from; i < o.seq.size(); ++i) if(o.seq[i].item == f && pure_cmp(o, o.seq[i].data, x) == 0) ok = true; if(!ok) list_bad(o, C_LIST, "finds an element that does not match or lies before the start position"); }
			if(x && !al && o.km != KM_INT) user_free(x);
			break;
		}
		case O_CONTAINS:
		{
			Hold g(o, false); if(o.gone) return;
			bool al = !o.seq.empty() && ((u64)op.a[4] >> 5) % 4 == 0; void *x = al ? o.seq[(u64)op.a[2] % o.seq.size()].data : mk_data(o, id, null); bool r; { CALL(o, O_CONTAINS); r = ls_contains(d, o.h, x); }
			bool hit = false; for(auto &n : o.seq) if(!pure_cmp(o, n.data, x)) hit = true;
			if(r != hit) list_bad(o, C_LIST, "contains reports %s", r ? "something that is not there" : "nothing although the element is there");
			if(x && !al && o.km != KM_INT) user_free(x);
			break;
		}
		case O_SETDATA: case O_FREEDATA:
		{
			Hold g(o, true); if(o.gone || o.seq.empty()) return;
			size_t k = (u64)op.a[2] % o.seq.size(); void *old = o.seq[k].data;
			if(op.code == O_SETDATA)
			{
				void *x = mk_free_data(o, id, null);
				{ CALL(o, O_SETDATA); ls_set_data(d, o.seq[k].item, x); }
				settle(o, want, "item_set_data"); list_user(o, old); o.seq[k].data = x;
			}
			else
			{
				if(o.fv && old) want.push_back(old);
				{ CALL(o, O_FREEDATA); ls_item_free_data(d, o.h, o.seq[k].item); }
				settle(o, want, "item_free_data"); if(!o.fv) list_user(o, old); o.seq[k].data = NULL; probe(53);
			}
			list_check(o, small);
			break;
		}
		case O_LCLEAR:
		{
			Hold g(o, true); if(o.gone) return;
			collect_owned(o, want); if(o.seq.size()) probe(74);
			tr("clear %s %d", NAME(o));
			{ CALL(o, O_LCLEAR); ls_clear(d, o.h); }
			settle(o, want, "clear"); release_user(o); list_check(o, true);
			break;
		}
		case O_WALK: { Hold g(o, false); if(o.gone) return; list_check(o, true); break; }
		case O_LBULK:
		{
			Hold g(o, true); if(o.gone) return;
			i64 n = (i64)((u64)op.a[2] % 400000);
			if(n > 5000 && o.seq.size() > 100) return;
			for(i64 i = 0; i < n; ++i)
			{
				int x = n > 5000 && op.a[4] & 1 ? (int)(i * 97 / n) : (int)((u64)(op.a[1] + i * 7) % 97);
				if(op.a[3] % 3 == 0) { if(i < 150) list_sorted(o, x, false); } else { list_add(o, op.a[3] % 3 == 1 ? O_APPEND : O_PREPEND, x, false); o.last_sorted = false; }
				static const int ops[] = { O_RMITEM, O_RMITEM, O_RMDATA, O_RMDATA, O_LPOP, O_LPOP, O_FIND, O_CONTAINS, O_SETDATA, O_FREEDATA, O_APPEND, O_PREPEND, O_WALK };
				u64 h; if(poked(op, n, i, h)) { probe(80); int code = ops[h % 13]; if(op.a[3] % 3 == 0 && code >= O_APPEND && code <= O_PREPEND) code = O_RMITEM; if(op.a[3] % 3 == 0 && code == O_SETDATA) continue; do_list(o, { code, { o.idx, (i64)(h >> 16) % 4096, (i64)(h >> 12) % 65536, (i64)(h >> 30) % 65536, 0 } }); }
			}
			list_check(o, true);
			break;
		}
		case O_LCHURN:
		{
			Hold g(o, true); if(o.gone) return;
			i64 n = (i64)((u64)op.a[2] % 6200);
			for(i64 i = 0; i < n; ++i)
			{
				list_add(o, i & 1 ? O_APPEND : O_PREPEND, id, false);
				if(o.seq.empty()) continue;
				want.clear(); Nod f = o.seq[0];
				if(i % 3) { list_forget(o, f, want); { CALL(o, O_RMITEM); ls_remove(d, o.h, f.item); } settle(o, want, "remove"); if(!o.fv) list_user(o, f.data); }
				else { void *x; { CALL(o, O_LPOP); x = ls_pop(d, o.h); } settle(o, want, "pop"); if(x != f.data) list_bad(o, C_LIST, "pop returned the wrong data"); list_user(o, x); }
				o.seq.erase(o.seq.begin());
				list_check(o, false);
			}
			list_check(o, true); probe(78);
			break;
		}
		default: break;
	}
}
/* ---------------------------------------------------------------- stack, queue */
static void sq_check(Obj &o)
{
	bool q = o.kind == KQ; size_t n; bool r; void **out = (void **)heap_alloc(8, TAG_USER, false); *out = (void *)0x5a5a;
	{ CALL(o, O_SCOUNT); n = sq_count(q, o.h); }
	if(n != o.dq.size()) fail(C_SQ, "%s %d counts %zu elements instead of %zu", NAME(o), n, o.dq.size());
	{ CALL(o, O_HEAD); r = sq_head(q, o.h, out); }
	if(r != !o.dq.empty()) fail(C_SQ, "looking at the head of %s %d with %zu elements reports %s", NAME(o), o.dq.size(), r ? "success" : "failure");
	if(r && *out != o.dq.front()) fail(C_SQ, "the head of %s %d is not what the next pop should return", NAME(o));
	heap_free(out, TAG_USER, "out");
	check_pool(o); note_peak(o, n); check_bound();
}
static void sq_push1(Obj &o, int id, bool null)
{
	void *x = mk_free_data(o, id, null); std::vector<void *> none;
	tr("push %s %d element %d", NAME(o), id);
	note_peak(o, o.dq.size() + 1);
	{ CALL(o, O_PUSH); sq_push(o.kind == KQ, o.h, x); }
	settle(o, none, "push");
	if(o.kind == KQ) o.dq.push_back(x); else o.dq.push_front(x);
}
static void sq_pop1(Obj &o)
{
	std::vector<void *> none; void **out = (void **)heap_alloc(8, TAG_USER, false); *out = (void *)0x5a5a; bool r;
	{ CALL(o, O_POP); r = sq_pop(o.kind == KQ, o.h, out); }
	tr("pop %s %d: %d", NAME(o), r);
	settle(o, none, "pop");
	if(r != !o.dq.empty()) fail(C_SQ, "pop of %s %d with %zu elements reports %s", NAME(o), o.dq.size(), r ? "success" : "failure");
	if(r) { if(*out != o.dq.front()) { fail(C_SQ, "pop of %s %d returned the wrong element", NAME(o)); end_run(O_FOREIGN); } o.dq.pop_front(); list_user(o, *out); }
	else probe(52);
	heap_free(out, TAG_USER, "out");
	ev(250, o.idx, o.dq.size());
}
static void do_sq(Obj &o, const Op &op)
{
	int id = (int)((u64)op.a[1] % 40); bool null = o.km == KM_OBJ && op.a[2] % 10 == 9;
	o.nops++;
	if(readonly_phase && op.code != O_HEAD && op.code != O_SCOUNT) return;
	switch(op.code)
	{
		case O_PUSH: { Hold g(o, true); if(o.gone) return; sq_push1(o, id, null); sq_check(o); break; }
		case O_POP: { Hold g(o, true); if(o.gone) return; sq_pop1(o); sq_check(o); break; }
		case O_HEAD: case O_SCOUNT: { Hold g(o, false); if(o.gone) return; sq_check(o); break; }
		case O_SCLEAR:
		{
			Hold g(o, true); if(o.gone) return;
			std::vector<void *> want; collect_owned(o, want); if(o.dq.size()) probe(74);
			{ CALL(o, O_SCLEAR); sq_clear(o.kind == KQ, o.h); }
			settle(o, want, "clear"); release_user(o); sq_check(o);
			break;
		}
		case O_SBULK:
		{
			Hold g(o, true); if(o.gone) return;
			i64 n = (i64)((u64)op.a[2] % 400000);
			if(n > 5000) { for(i64 i = 0; i < n; ++i) sq_push1(o, (int)(i % 40), false); sq_check(o); for(i64 i = 0; i < n * (op.a[4] % 3) / 2; ++i) sq_pop1(o); }
			else if(op.a[3] & 1) { for(i64 i = 0; i < n; ++i) { sq_push1(o, (int)(i % 40), false); if(i % 2) { sq_pop1(o); sq_pop1(o); } } probe(78); }
			else { n %= 400; for(i64 i = 0; i < n; ++i) sq_push1(o, (int)(i % 40), false); for(i64 i = 0; i < n * (op.a[4] % 3) / 2; ++i) sq_pop1(o); }
			sq_check(o);
			break;
		}
		default: break;
	}
}
/* ---------------------------------------------------------------- memory pool */
static void pat_check(Obj &o, const PItem &i)
{
	race_access(i.p, (size_t)o.p0, false, "pool item read by its owner");
	for(i64 k = 0; k < o.p0; ++k) if((u8)i.p[k] != i.pat) fail(C_POOLOV, "byte %lld of a live item of pool %d changed although only other items were written", (long long)k, o.idx);
}
static void pool_alloc1(Obj &o)
{
	size_t before = heap_obj_bytes(o.idx); void *p;
	note_peak(o, o.live.size() + 1);
	{ CALL(o, O_PALLOC); p = mp_alloc(o.h); }
	if(!p) { if(!refused()) fail_any({ C_POOLOV, C_POOLREUSE }, "pool %d has no item although memory is not exhausted", o.idx); probe(77); return; }
	size_t after = heap_obj_bytes(o.idx), n = (size_t)o.p0; char *c = (char *)p;
	ev(260, o.idx, (u64)(c - arena));
	if(after > before) probe(67);
	if(o.avail > 0)
	{
		if(after > before) fail(C_POOLREUSE, "pool %d took more memory although %lld returned items were available", o.idx, (long long)o.avail);
		o.avail--; probe(66);
	}
	Block *b = heap_block(c);
	if(!heap_live(c, n) || !b || b->tag != TAG_LIB || b->obj != o.idx) fail(C_POOLOV, "pool %d handed out an item that is not inside its own memory", o.idx);
	if((uintptr_t)c & (n & 1 ? 0 : n & 2 ? 1 : n & 4 ? 3 : 7)) fail(C_POOLOV, "pool %d handed out an item of %zu bytes at an address that is not aligned for a member of such an item", o.idx, n);
	auto it = o.by_addr.lower_bound(c);
	if(it != o.by_addr.end() && it->first < c + n) fail(C_POOLOV, "pool %d handed out memory that overlaps a live item", o.idx);
	if(it != o.by_addr.begin()) { --it; if(it->first + n > c) fail(C_POOLOV, "pool %d handed out memory that overlaps a live item", o.idx); }
	if(!heap_live(c, n)) end_run(O_FOREIGN);
	u8 pat = o.nextpat++; if(!o.nextpat) o.nextpat = 1;
	race_access(c, n, true, "pool item written by its owner");
	memset(c, pat, n);
	o.by_addr[c] = 1; o.live.push_back({ c, pat });
	note_peak(o, o.live.size());
}
static void pool_free1(Obj &o, u64 k)
{
	if(o.live.empty()) return;
	k %= o.live.size(); PItem i = o.live[k];
	pat_check(o, i);
	if(o.live.size() > 2000) { o.live[k] = o.live.back(); o.live.pop_back(); } else o.live.erase(o.live.begin() + (long)k);
	o.by_addr.erase(i.p);
	{ CALL(o, O_PFREE); mp_free(o.h, i.p); }
	o.avail++; ev(261, o.idx, k);
}
static void pool_bound(Obj &o)
{
	size_t n = (size_t)o.p0, bl = (size_t)o.p1, lim = 4096 + 2 * (o.peak + 2 * bl) * (n + 24) + (o.peak / bl + 4) * 64;
	if(heap_obj_bytes(o.idx) > lim) fail_any({ C_POOLREUSE, C_BOUND }, "pool %d holds %zu bytes for at most %zu live items of %zu bytes", o.idx, heap_obj_bytes(o.idx), o.peak, n);
	check_bound();
}
static void do_pool(Obj &o, const Op &op)
{
	o.nops++;
	if(readonly_phase) return;
	Hold g(o, true); if(o.gone) return;
	i64 n = 1 + (i64)((u64)op.a[1] % 6), big = op.a[2] >= 10000 ? (i64)((u64)op.a[2] % 400000) : (i64)((u64)op.a[2] % 900);
	switch(op.code)
	{
		case O_PALLOC: if(op.a[3] % 6 == 0) n = big; for(i64 i = 0; i < n; ++i) { pool_alloc1(o); if(i < 8) yield(K_CBK); } break;
		case O_PFREE:
			if(op.a[3] % 6 == 0) n = big;
			for(i64 i = 0; i < n; ++i) pool_free1(o, op.a[4] % 3 == 0 ? o.live.size() - 1 : op.a[4] % 3 == 1 ? 0 : (u64)op.a[2] * 31 + (u64)i * 17);
			break;
		case O_PCHECK: for(auto &i : o.live) pat_check(o, i); break;
		case O_PCHURN: for(i64 i = 0; i < big * 4; ++i) { pool_alloc1(o); if(i % 5 != 4) pool_free1(o, (u64)i * 13); else { pool_free1(o, (u64)i); pool_free1(o, (u64)i * 5); } } for(auto &i : o.live) pat_check(o, i); probe(78); break;
		default: break;
	}
	if(o.live.size() < 64) for(auto &i : o.live) pat_check(o, i);
	pool_bound(o);
}
/* ---------------------------------------------------------------- buffers, streams */
static std::string gen_bytes(i64 style, u64 seed, size_t n)
{
	std::string s; s.resize(n); Rng r; r.seed(seed * 977 + (u64)style);
	for(size_t i = 0; i < n; ++i)
		switch(style)
		{
			case 0: s[i] = r.one_in(12) ? '\n' : (char)('a' + r.below(26)); break;
			case 1: s[i] = (char)('A' + r.below(26)); break;
			case 2: { static const char t[] = { 0, '\n', '\r', (char)0xff, (char)0x80, ' ', 'x', (char)0x8a }; s[i] = r.one_in(3) ? t[r.below(8)] : (char)r.below(256); break; }
			case 3: s[i] = '\n'; break;
			default: s[i] = r.one_in(100) ? '\n' : (char)('0' + i % 10); break;
		}
	return s;
}
static void buf_bad(Obj &o, Cls c, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void buf_bad(Obj &o, Cls c, const char *fmt, ...)
{
	char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	fail(c, "buffer %d: %s", o.idx, b);
}
static void buf_query(Obj &o)
{
	size_t n; bool v, e;
	{ CALL(o, O_QUERY); v = bf_valid(o.h); n = bf_len(o.h); e = bf_empty(o.h); }
	if(v != o.valid) { fail_any({ C_LIMIT, C_STREAM, C_FDREAD }, "buffer %d is %s although %s", o.idx, v ? "valid" : "invalid", o.valid ? "its limit was respected" : "its limit was exceeded"); end_run(O_FOREIGN); }
	if(!v) { if(n) buf_bad(o, C_LIMIT, "an invalid buffer reports length %zu", n); if(e) buf_bad(o, C_LIMIT, "an invalid buffer reports to be empty"); }
	else { if(n != o.buf.size()) fail_any({ C_STREAM, C_TEXT, C_FDREAD }, "buffer %d: reports length %zu instead of %zu", o.idx, n, o.buf.size()); if(e != o.buf.empty()) fail_any({ C_STREAM, C_LIMIT }, "buffer %d: reports to be %s with %zu bytes", o.idx, e ? "empty" : "not empty", o.buf.size()); }
	note_peak(o, o.buf.size()); check_bound();
}
static void grow_probe(Obj &o) { if(o.buf.size() > 64) probe(58); if(o.valid && o.buf.size() == o.max) probe(57); }
static void buf_fill1(Obj &o, const std::string &d)
{
	char *src = (char *)heap_alloc(d.size(), TAG_USER, false);
	memcpy(src, d.data(), d.size()); race_access(src, d.size(), true, "data to add");
	bool want = o.valid && d.size() <= o.max - o.buf.size(), r;
	tr("fill buffer %d with %zu bytes (has %zu of %zu%s)", o.idx, d.size(), o.buf.size(), o.max, o.valid ? "" : ", invalid");
	note_peak(o, d.size() + o.buf.size());
	o.last_add = d.size();
	{ CALL(o, O_FILL); r = bf_fill(o.h, src, d.size()); }
	heap_free(src, TAG_USER, "source");
	ev(270, o.idx, d.size(), r);
	if(!r && want && refused()) { probe(77); return; }
	if(r != want) { fail_any({ C_LIMIT, C_STREAM }, "buffer %d: adding %zu bytes to %zu of %zu reports %s", o.idx, d.size(), o.buf.size(), o.max, r ? "success" : "failure"); end_run(O_FOREIGN); }
	if(r) o.buf += d; else if(o.valid) { o.valid = false; probe(56); }
	grow_probe(o);
}
static void check_text(Obj &o, const char *p, const std::string &want, const char *what)
{
	race_access(p, want.size() + 1, false, "text read by the caller");
	if(memcmp(p, want.data(), want.size())) fail_any({ C_TEXT, C_STREAM, C_FDREAD }, "buffer %d: %s returned other bytes than the next %zu of the stream", o.idx, what, want.size());
	if(p[want.size()]) fail_any({ C_TEXT }, "buffer %d: the text from %s is not terminated", o.idx, what);
}
static void buf_extract(Obj &o, bool line, const Op &op)
{
	int mode = (int)((u64)op.a[2] % 4);
	/* the caller's variables live in checked memory */
	struct Box { char *d; size_t n; } *box = (Box *)heap_alloc(sizeof(Box), TAG_USER, false);
	bool keep = mode == 0 && !readonly_phase;
	if(mode < 2) { box->d = keep ? o.dst : NULL; box->n = keep ? o.dlen : 0; if(box->d) probe(60); }
	else
	{
		size_t cap = 1 + (size_t)((u64)op.a[3] % (o.buf.size() < 4000 ? o.buf.size() + 20 : 4000));
		box->d = (char *)heap_alloc(cap, TAG_NODE, false); box->n = mode == 2 ? cap : cap - cap / 3;
	}
	if(keep) { o.dst = NULL; o.dlen = 0; }
	char *in = box->d; size_t inlen = box->n;
	race_access(box, sizeof *box, true, "result variables");
	size_t nl = o.valid && line ? o.buf.find('\n') : std::string::npos;
	bool want = o.valid && (line ? nl != std::string::npos : !o.buf.empty()), r;
	std::string text = want ? (line ? o.buf.substr(0, nl) : o.buf) : "";
	tr("%s buffer %d into %s of %zu bytes", line ? "read_line" : "flush", o.idx, in ? "a destination" : "NULL", inlen);
	{ CALL(o, line ? O_READLINE : O_FLUSH); r = line ? bf_read_line(o.h, &box->d, &box->n) : bf_flush(o.h, &box->d, &box->n); }
	ev(280 + line, o.idx, r, text.size());
	char *d = box->d; size_t n = box->n;
	if(d) heap_handover(d);
	bool skip = false;
	if(r != want)
	{
		if(!r && refused()) { probe(77); skip = true; }
		else
		{
			if(!o.valid) fail_any({ C_LIMIT, C_STREAM }, "buffer %d: an invalid buffer yields %s", o.idx, line ? "a line" : "its content");
			fail_any({ C_STREAM, C_TEXT, C_FDREAD }, "buffer %d: %s reports %s", o.idx, line ? "read_line" : "flush", r ? (line ? "a line without a newline" : "content of an empty buffer") : (line ? "no line although a newline is there" : "nothing although there is content"));
			end_run(O_FOREIGN);
		}
	}
	if(want && !skip)
	{
		Block *b = heap_block(d);
		if(!d || !b || !b->live || b->p != d) { fail_any({ C_TEXT }, "buffer %d: the destination is not a live block after %s", o.idx, line ? "read_line" : "flush"); end_run(O_FOREIGN); }
		if(b->size < text.size() + 1) { fail_any({ C_TEXT }, "buffer %d: a text of %zu bytes was written to a destination of %zu bytes", o.idx, text.size() + 1, b->size); end_run(O_FOREIGN); }
		check_text(o, d, text, line ? "read_line" : "flush");
		if(n > b->size) fail_any({ C_TEXT }, "buffer %d: the reported length %zu exceeds the destination of %zu bytes", o.idx, n, b->size);
		if(d != in || n != inlen) probe(59);
		if(line) { o.buf.erase(0, nl + 1); probe(54); if(text.empty()) probe(75); }
	}
	else if(line && o.valid && !o.buf.empty()) probe(55);
	heap_free(box, TAG_USER, "result variables");
	if(keep) { o.dst = d; o.dlen = n; } else if(d) heap_free(d, TAG_NODE, "destination");
	if(o.dst && o.dlen > 20000) { heap_free(o.dst, TAG_NODE, "destination"); o.dst = NULL; o.dlen = 0; }
}
static void buf_tostr(Obj &o)
{
	char *p; { CALL(o, O_TOSTR); p = bf_to_string(o.h); }
	if(!o.valid) { if(p) fail_any({ C_LIMIT }, "buffer %d: an invalid buffer yields a string", o.idx); }
	else if(!p) { if(!o.buf.empty() && !refused()) fail_any({ C_TEXT, C_STREAM }, "buffer %d: no string although there are %zu bytes", o.idx, o.buf.size()); return; }
	if(!p) return;
	Block *b = heap_block(p);
	if(!b || !b->live || b->p != p || b->size < o.buf.size() + 1) { fail_any({ C_TEXT }, "buffer %d: the string is not in a large enough block of its own", o.idx); end_run(O_FOREIGN); }
	check_text(o, p, o.buf, "to_string");
	heap_handover(p); heap_free(p, TAG_NODE, "string");
}
static i64 sim_read(int fd, void *buf, size_t n)
{
	Ctx &c = ctx(); Task *t = S.cur;
	int si = fd - 100;
	if(!t->in_api || si < 0 || si >= (int)ob.size() || ob[si].kind != KF) { errno = EBADF; fail_any({ C_FDREAD, C_STREAM }, "read() from a descriptor the caller did not give"); return -1; }
	FStream &s = ob[si].st;
	c.fd_calls++;
	Obj &o = ob[t->api_obj];
	if(c.fd_result) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: read() again although a read already produced a result", o.idx);
	if(!o.valid) fail_any({ C_LIMIT, C_FDREAD }, "buffer %d: an invalid buffer reads from a descriptor", o.idx);
	if(n > c.fd_req) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: read() of %zu bytes although only %zu were requested", o.idx, n, c.fd_req);
	if(!n) { c.fd_result = true; c.fd_last = 0; return 0; }
	u32 e = S.draining ? 0 : choose(K_RDERR, t->id, 4, cfg(G_RDERR));
	if(e == 1 && c.fd_eintr > 5) e = 2;
	if(e)
	{
		static const int en[] = { 0, EINTR, EIO, EAGAIN };
		fault(e == 1 ? F_RDEINTR : e == 2 ? F_RDERR : F_RDAGAIN); tr("fault: read fails with %s", e == 1 ? "EINTR" : e == 2 ? "EIO" : "EAGAIN");
		probe(62);
		if(e != 1) { c.fd_result = true; } else c.fd_eintr++;
		c.fd_last = -1;
		errno = c.fd_errno = en[e]; return -1;
	}
	while(s.pos >= s.data.size() && !s.closed)
	{
		if(s.nonblock) { errno = c.fd_errno = EAGAIN; c.fd_result = true; c.fd_last = -1; fault(F_RDAGAIN); return -1; }
		fault(F_RDBLOCK); tr("read blocks");
		t->wfd = si; block_on(T_FD);
		if(s.pos < s.data.size()) probe(64);
	}
	size_t av = std::min(s.data.size() - s.pos, n);
	if(!av) { fault(F_EOF); probe(61); c.fd_result = true; c.fd_last = 0; tr("read: end of file"); return 0; }
	u32 sh = S.draining ? 0 : choose(K_RDLEN, t->id, (u32)std::min<size_t>(av, 1u << 20), cfg(G_RDSHORT));
	if(sh) { av = sh; fault(F_RDSHORT); probe(63); }
	if(!heap_live(buf, av) && (uintptr_t)buf - (uintptr_t)arena < ARENA) { fail(C_MEM, "read() into %zu bytes that are not allocated", av); fail_any({ C_FDREAD, C_STREAM }, "buffer %d: read() into memory that is not allocated", o.idx); end_run(O_FOREIGN); }
	race_access(buf, av, true, "read()");
	memcpy(buf, s.data.data() + s.pos, av); c.rd.assign(s.data, s.pos, av);
	s.pos += av; c.fd_result = true; c.fd_last = (i64)av; c.fd_bytes += (i64)av;
	tr("read: %zu bytes", av);
	return (i64)av;
}
static void buf_fillfd(Obj &o, const Op &op)
{
	std::vector<int> fds; for(auto &x : ob) if(x.kind == KF && (!x.owner || x.owner == ctx().script)) fds.push_back(x.idx);
	if(fds.empty()) return;
	int si = fds[(u64)op.a[1] % fds.size()];
	size_t cnt = (size_t)op.a[2];
	if(op.a[3] % 4 == 0) cnt = o.max; else if(op.a[3] % 4 == 1) cnt = o.max - o.buf.size();
	if(cnt > o.max) cnt = o.max;
	if(cnt > (1u << 19)) probe(65);
	Ctx &c = ctx();
	c.fd_calls = 0; c.fd_result = false; c.fd_last = 0; c.fd_bytes = 0; c.fd_req = cnt; c.fd_eintr = 0;
	c.rd.clear();
	note_peak(o, cnt + o.buf.size());
	tr("fill_from_fd buffer %d (%zu of %zu%s) from stream %d: %zu bytes", o.idx, o.buf.size(), o.max, o.valid ? "" : ", invalid", si, cnt);
	i64 r; int en; { CALL(o, O_FILLFD); r = bf_fill_fd(o.h, 100 + si, cnt); en = errno; }
	ev(290, o.idx, (u64)r, (u64)c.fd_bytes);
	tr("fill_from_fd returns %lld", (long long)r);
	if(!o.valid)
	{
		if(c.fd_calls) fail_any({ C_LIMIT, C_FDREAD }, "buffer %d: an invalid buffer reads from a descriptor", o.idx);
		if(r > 0) fail_any({ C_LIMIT, C_FDREAD }, "buffer %d: an invalid buffer reports %lld bytes added", o.idx, (long long)r);
		return;
	}
	if(refused() && r == -1 && !c.fd_bytes) { probe(77); return; }
	std::string got = c.rd;
	if(c.fd_bytes > 0)
	{
		if(got.size() <= o.max - o.buf.size())
		{
			if(r == -1 && refused()) fail_any({ C_STREAM, C_FDREAD }, "buffer %d: %lld bytes taken from the descriptor were lost", o.idx, (long long)c.fd_bytes);
			o.buf += got;
			if(r != c.fd_bytes) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: fill_from_fd returned %lld although %lld bytes were read", o.idx, (long long)r, (long long)c.fd_bytes);
		}
		else
		{
			o.valid = false; probe(56);
			if(r != -1) fail_any({ C_FDREAD, C_LIMIT }, "buffer %d: fill_from_fd returned %lld although the limit was exceeded", o.idx, (long long)r);
		}
	}
	else if(c.fd_result || c.fd_eintr)
	{
		i64 want = c.fd_last;
		if(r != want) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: fill_from_fd returned %lld although read() %s", o.idx, (long long)r, want ? "failed" : "reported the end of the file");
		if(want == -1 && en != c.fd_errno) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: fill_from_fd failed, but errno does not say why (%d instead of %d)", o.idx, en, c.fd_errno);
	}
	else if(r != 0 || cnt) fail_any({ C_FDREAD, C_STREAM }, "buffer %d: fill_from_fd returned %lld without reading", o.idx, (long long)r);
	grow_probe(o);
}
static void do_buf(Obj &o, const Op &op)
{
	o.nops++;
	if(readonly_phase && op.code != O_FLUSH && op.code != O_TOSTR && op.code != O_QUERY) return;
	bool rd = op.code == O_FLUSH || op.code == O_TOSTR || op.code == O_QUERY;
	if(rd && op.code == O_FLUSH && op.a[2] % 4 == 0) rd = false; /* uses the shared destination */
	Hold g(o, !rd); if(o.gone) return;
	switch(op.code)
	{
		case O_FILL:
		{
			size_t n = (size_t)op.a[1];
			if(op.a[3] % 6 == 0 && o.valid) n = o.max - o.buf.size(); else if(op.a[3] % 6 == 1 && o.valid) n = o.max - o.buf.size() + 1; else if(op.a[3] % 6 == 2 && o.valid) n = o.max - o.buf.size() - (o.max > o.buf.size());
			if(n > 20000 && op.a[1] < 50000) n = 20000;
			if(n > (1u << 20)) n = 1u << 20;
			buf_fill1(o, gen_bytes(op.a[4] % 5, (u64)op.a[2], n));
			break;
		}
		case O_FILLFD: buf_fillfd(o, op); break;
		case O_READLINE: { i64 n = op.a[1] % 3 ? 1 : (i64)((u64)op.a[1] % 40); size_t work = 0; do { size_t b = o.buf.size(); work += b; buf_extract(o, true, op); if(o.buf.size() == b) break; } while(--n > 0 && work < 300000); break; }
		case O_FLUSH: buf_extract(o, false, op); break;
		case O_TOSTR: buf_tostr(o); break;
		case O_BCLEAR: { tr("clear buffer %d", o.idx); { CALL(o, O_BCLEAR); bf_clear(o.h); } o.buf.clear(); o.valid = true; break; }
		case O_BCHURN:
			if(o.buf.size() > 2000) { CALL(o, O_BCLEAR); bf_clear(o.h); o.buf.clear(); o.valid = true; }
			for(i64 i = 0; i < (i64)((u64)op.a[1] % 1500); ++i)
			{
				if(op.a[3] & 1) /* pile up small pieces */
				{
					size_t k = std::min<size_t>((16 + (size_t)((u64)op.a[4] % 50)) << (op.a[3] & 2 ? 3 : 0), o.max);
					if(!o.valid || o.max - o.buf.size() < k) break;
					buf_fill1(o, gen_bytes(0, (u64)i, k));
					continue;
				}
				buf_fill1(o, gen_bytes(0, (u64)i, std::min<size_t>(24, o.max)));
				while(o.valid && o.buf.find('\n') != std::string::npos) { size_t b = o.buf.size(); Op x = op; x.a[2] = i & 1; buf_extract(o, true, x); if(o.buf.size() == b) break; }
				if(!o.valid || o.buf.size() > 200) { { CALL(o, O_BCLEAR); bf_clear(o.h); } o.buf.clear(); o.valid = true; }
			}
			probe(78);
			break;
		default: break;
	}
	buf_query(o);
	if(!readonly_phase && (o.buf.size() < 2000 || o.nops % 8 == 0)) buf_tostr(o);
}
static void do_stream(Obj &o, const Op &op)
{
	yield(K_SYN);
	if(op.code == O_WRITE && !o.st.closed)
	{
		size_t n = (size_t)op.a[1]; if(n > 4u << 20) n = 4u << 20;
		if(o.st.pos > (1u << 20) && o.st.pos == o.st.data.size()) { o.st.data.clear(); o.st.pos = 0; }
		o.st.data += gen_bytes(op.a[4] % 5, (u64)op.a[2], n); ev(300, o.idx, n); tr("stream %d gets %zu bytes", o.idx, n);
	}
	if(op.code == O_CLOSE) { o.st.closed = true; tr("stream %d closed", o.idx); ev(301, o.idx); }
}
/* ---------------------------------------------------------------- scripts */
static void check_final(Obj &o)
{
	if(o.gone) return;
	if(is_map(o)) map_check(o, true);
	else if(is_list(o)) list_check(o, true);
	else if(is_sq(o)) sq_check(o);
	else if(o.kind == KP) { for(auto &i : o.live) pat_check(o, i); pool_bound(o); }
	else if(o.kind == KB) { buf_query(o); buf_tostr(o); Op op = { O_READLINE, { 0, 0, 1, 0, 0 } }; size_t work = 0; while(o.valid && work < 300000 && o.buf.find('\n') != std::string::npos) { size_t b = o.buf.size(); work += b; buf_extract(o, true, op); if(o.buf.size() == b) break; } buf_extract(o, true, op); op.code = O_FLUSH; buf_extract(o, false, op); buf_query(o); }
}
static int fam(int code) { return code <= O_CHURN ? 0 : code <= O_LCHURN ? 1 : code <= O_SBULK ? 2 : code <= O_PCHURN ? 3 : code <= O_BCHURN ? 4 : code <= O_CLOSE ? 5 : 6; }
static void run_op(const Op &op, int script)
{
	if(op.code == O_SLEEP) { sim_sleep(op.a[1] < 0 ? 0 : op.a[1]); return; }
	if(ob.empty()) return;
	Obj &o = ob[(u64)op.a[0] % ob.size()];
	if(o.owner && o.owner != script) return;
	int f = fam(op.code);
	yield(K_SYN);
	if(op.code == O_RECREATE)
	{
		if(o.kind >= KC || readonly_phase) return;
		if(o.kind == KR && cx[S.cur->id].rit_live) { /* iterators of a dead tree may still be reused or freed */ }
		Hold g(o, true); if(o.gone) return;
		check_final(o); destroy(o); create(o);
		return;
	}
	if(f == 0 && is_map(o)) do_map(o, op);
	else if(f == 1 && is_list(o)) do_list(o, op);
	else if(f == 2 && is_sq(o)) do_sq(o, op);
	else if(f == 3 && o.kind == KP) do_pool(o, op);
	else if(f == 4 && o.kind == KB) do_buf(o, op);
	else if(f == 5 && o.kind == KF) do_stream(o, op);
	yield(K_SYN);
}
/* inside a callback, use some container that has no call in progress */
static void nest()
{
	static const int mops[] = { O_SET, O_SET, O_SET, O_REMOVE, O_REMOVE, O_LOOKUP, O_ITERUSE, O_PAIRSET, O_ITER, O_ITER2, O_CLEAR, O_RECREATE };
	static const int lops[] = { O_APPEND, O_PREPEND, O_SORTED, O_SORTED, O_RMITEM, O_RMDATA, O_LPOP, O_FIND, O_CONTAINS, O_SETDATA, O_FREEDATA, O_LCLEAR, O_WALK, O_RECREATE };
	static const int sops[] = { O_PUSH, O_PUSH, O_PUSH, O_POP, O_POP, O_HEAD, O_SCLEAR, O_SCOUNT, O_RECREATE };
	static const int pops[] = { O_PALLOC, O_PALLOC, O_PFREE, O_PCHECK, O_RECREATE };
	static const int bops[] = { O_FILL, O_FILL, O_READLINE, O_READLINE, O_FLUSH, O_TOSTR, O_QUERY, O_BCLEAR, O_RECREATE };
	Task *t = S.cur;
	if(busy.size() >= 3 || nest_left <= 0 || t->api_obj < 0) return;
	u32 v = choose(K_NEST, t->id, 1u << 28, cfg(G_W5));
	if(!v) return;
	u64 x = v; auto nx = [&x]() { x += 0x9e3779b97f4a7c15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (z ^ (z >> 31)) >> 8; };
	busy.push_back(t->api_obj);
	std::vector<int> c; for(auto &o : ob) if(o.kind < KC && !o.gone && std::find(busy.begin(), busy.end(), o.idx) == busy.end()) c.push_back(o.idx);
	if(c.empty()) { busy.pop_back(); return; }
	--nest_left; fault(F_NEST);
	struct { int obj; u32 kind; u64 steps, copy, cmps, sw; bool l, w, s, i, a; int err; } k = { t->api_obj, t->api_kind, t->api_steps, t->api_copy, t->cmp_calls, t->switches_in_api, t->lock_failed, t->wait_failed, t->sig_failed, t->init_failed, t->alloc_failed, t->err };
	std::vector<void *> freed; freed.swap(ctx().freed);
	int n = 1 + (int)(nx() % 3 == 0 ? nx() % 4 : 0);
	while(n--)
	{
		Obj &o = ob[c[nx() % c.size()]];
		if(o.gone) continue;
		Op op = { 0, { o.idx, (i64)(nx() % 4096), (i64)(nx() % (1 << 20)), (i64)(nx() % (1 << 20)), (i64)(nx() % (1 << 20)) } };
		u64 q = nx();
		op.code = is_map(o) ? mops[q % 12] : is_list(o) ? lops[q % 14] : is_sq(o) ? sops[q % 9] : o.kind == KP ? pops[q % 5] : bops[q % 9];
		if(o.kind == KP) { op.a[2] = op.a[2] % 20; op.a[3] = 1; }
		if(op.code == O_FILL) { op.a[1] = 1 + op.a[1] % 60; op.a[3] = 5; }
		if(op.code == O_READLINE) op.a[1] = 1;
		tr("a callback of %s %d uses %s %d", NAME(ob[busy.back()]), NAME(o));
		run_op(op, o.owner);
	}
	busy.pop_back();
	freed.swap(ctx().freed);
	t->api_obj = k.obj; t->api_kind = k.kind; t->api_steps = k.steps; t->api_copy = k.copy; t->cmp_calls = k.cmps; t->switches_in_api = k.sw; t->lock_failed = k.l; t->wait_failed = k.w; t->sig_failed = k.s; t->init_failed = k.i; t->alloc_failed = k.a; t->err = k.err;
}
static void end_script()
{
	Ctx &c = ctx();
	if(c.rit_live) { Api a(KR * 64 + O_RITER, -1); rb_iter_free(c.rit); c.rit_live = false; }
	if(c.rit) { heap_free(c.rit, TAG_USER, "iterator"); c.rit = NULL; }
}
static void run_script(const std::vector<Op> &ops, int script)
{
	Ctx &c = ctx(); c = Ctx(); c.script = script; c.rit = NULL; c.rit_live = false;
	for(auto &o : ops) run_op(o, script);
	end_script();
}
static void setup()
{
	Spec &s = *S.spec;
	ob.clear(); toks.clear(); valseq = 0; simpools_reset();
	for(auto &c : cx) c = Ctx();
	for(auto &p : s.objs)
	{
		Obj o; o.idx = (int)ob.size();
		auto g = [&](int i) { return i < (int)p.size() ? p[i] : 0; };
		o.kind = (int)((u64)g(P_OBJ) % KN); o.heap = g(P_HEAP) & 1; o.shared = g(P_HEAP) & 2; o.km = (int)((u64)g(P_KM) % 3); o.hmode = (int)((u64)g(P_HMODE) % 5);
		o.fk = (g(P_OWN) & 1) && o.km != KM_INT; o.fv = g(P_OWN) & 2; if(!is_map(o)) o.fv = o.fv && o.km != KM_INT;
		o.pool = (int)g(P_POOL); o.p0 = g(P_P0); o.p1 = g(P_P1); o.owner = (int)g(P_OWNER); o.lock = o.idx;
		if(o.pool >= 0) { if(o.pool >= o.idx || ob[o.pool].kind != KC || !(o.kind == KR || is_list(o) || is_sq(o))) o.pool = -1; else { o.lock = ob[o.pool].idx; o.owner = ob[o.pool].owner; } }
		if(o.kind == KC) o.hmode = 1 + (int)((u64)g(P_HMODE) % 3);
		if(o.kind == KF) o.st.nonblock = o.p0 & 1;
		ob.push_back(o);
	}
	std::map<int, int> users; for(auto &o : ob) if(o.pool >= 0 && ++users[o.pool] > 1) probe(69);
	for(auto &o : ob) create(o);
	S.fd_ready = [](int i) { return ob[i].st.closed || ob[i].st.pos < ob[i].st.data.size(); };
	fdops.read = sim_read;
}
static void teardown()
{
	for(auto &o : ob) if(o.kind != KC) check_final(o);
	bool rev = cfg(G_W3) & 1;
	std::vector<int> order; for(auto &o : ob) if(o.kind < KC) order.push_back(o.idx);
	if(rev) std::reverse(order.begin(), order.end());
	for(int i : order) { destroy(ob[i]); for(int j : order) if(!ob[j].gone && ob[j].pool >= 0 && ob[j].pool == ob[i].pool) check_final(ob[j]); }
	for(auto &o : ob) if(o.kind == KC && !o.gone) destroy(o);
	if(heap_lib_blocks()) fail(C_LEAK, "%zu blocks (%zu bytes) of library memory were not released", heap_lib_blocks(), heap_lib_bytes());
}
static void close_streams() { for(auto &o : ob) if(o.kind == KF) o.st.closed = true; }
static void finish_tasks(int n)
{
	wait_quiet();
	for(int round = 0; round < 4; ++round)
	{
		bool blocked = false;
		for(int i = 1; i <= n; ++i) if(S.t[i].st != T_DONE) blocked = true;
		if(!blocked) return;
		if(round) { for(int i = 1; i <= n; ++i) if(S.t[i].st != T_DONE && S.t[i].in_api) fail_any({ C_STUCK, C_FDREAD }, "a library call is blocked forever"); harness_error("tasks stay blocked"); }
		tr("all streams are closed"); close_streams();
		wait_quiet();
	}
}
void cw_main()
{
	nolock = readonly_phase = nest_on = false; busy.clear();
	setup();
	Spec &s = *S.spec;
	for(size_t i = 0; i < s.tasks.size() && i + 1 < MAXT; ++i) { const std::vector<Op> *p = &s.tasks[i]; int k = (int)i + 1; spawn([p, k] { run_script(*p, k); }); }
	finish_tasks(S.nt - 1);
	S.draining = true;
	teardown();
}
/* ---------------------------------------------------------------- differential world */
static void dw_pass(bool together)
{
	Spec &s = *S.spec;
	nolock = cfg(G_W4) == 1; readonly_phase = false;
	setup();
	if(cfg(G_W4) == 1) { run_script(s.tasks[0], 0); readonly_phase = true; for(auto &o : ob) o.lock = 0; }
	size_t first = cfg(G_W4) == 1 ? 1 : 0;
	std::vector<int> ids;
	for(size_t i = first; i < s.tasks.size() && S.nt < MAXT; ++i)
	{
		const std::vector<Op> *p = &s.tasks[i]; int k = (int)i + 1;
		int id = spawn([p, k] { run_script(*p, k); });
		ids.push_back(id);
		if(!together) join(id);
	}
	for(int id : ids) join(id);
	readonly_phase = false; nolock = true;
	teardown();
}
void dw_main()
{
	nest_on = false; busy.clear();
	dw_pass(false);
	if(S.prop->focus == 144)
	{
		tr("from here on callbacks use other containers");
		S.remap = C_NEST; nest_on = true; nest_left = 400;
		dw_pass(false);
		nest_on = false;
		return;
	}
	tr("the serial pass is done");
	S.remap = C_DIFF;
	dw_pass(true);
}
#include "cgen.inc"
