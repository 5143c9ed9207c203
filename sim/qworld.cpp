/* World 1: producers, consumers, clearers and counters around asynchronous queues. */
#include "world.h"
#include <algorithm>

enum { OP_PUSH, OP_POP, OP_POPT, OP_COUNT, OP_CLEAR, OP_SLEEP, OP_PUSHNULL, OP_MANY, OP_N };
static const char *const q_op[] = { "push", "pop", "pop_timeout", "count", "clear", "sleep", "push(NULL)", "many" };
enum { A_NEW = 100, A_INIT, A_FREE, A_DESTROY, A_PUSH, A_POP, A_POPT, A_COUNT, A_CLEAR, A_POOL };

struct Payload { u64 id, check; u64 body[2]; };
struct Item { void *ptr; int q; int task; bool pushed; int state; /* 0 in flight/queue, 1 popped, 2 freed */ i64 push_inv, push_ret, rem_inv; i64 push_ret_t; };
struct HOp { int task, q, type; i64 val; i64 inv, ret; i64 inv_t, ret_t; u32 ms; bool ok, open, hard; std::vector<int> freed; };
struct QObj
{
	void *q; bool heap; int poolkind; bool freefn; PoolState *sp; void *mp;
	i64 pushes, pops, cleared; bool unknown_clear; int clears; bool nullpushed; int nullid;
	bool gone;
};
static std::vector<QObj> qs; static std::vector<Item> items; static std::vector<HOp> hist; static std::unordered_map<void *, int> by_ptr;
static i64 hseq;
static int cur_op[NTASK]; /* history index of the open op of a task */

static u64 chk(u64 id) { return id * 0x9e3779b97f4a7c15ull ^ 0x1234567; }
static int32_t q_cmp(const void *a, const void *b) { return a == b ? 0 : a < b ? -1 : 1; }

static int new_item(int q, bool null)
{
	int id = (int)items.size();
	Item it = {}; it.q = q; it.task = S.cur->id;
	if(null) { qs[q].nullid = id; qs[q].nullpushed = true; }
	else
	{
		Payload *p = (Payload *)heap_alloc(sizeof(Payload), TAG_USER, false);
		race_access(p, sizeof *p, true, "payload written by its producer");
		p->id = (u64)id; p->check = chk((u64)id); p->body[0] = p->body[1] = (u64)id * 3;
		it.ptr = p; by_ptr[p] = id;
	}
	items.push_back(it);
	return id;
}
static int item_of(int q, void *p)
{
	if(!p) return qs[q].nullpushed ? qs[q].nullid : -1;
	auto i = by_ptr.find(p);
	return i == by_ptr.end() ? -1 : i->second;
}
static bool payload_ok(void *p, int id)
{
	if(!p) return true;
	Payload *x = (Payload *)p;
	race_access(x, sizeof *x, false, "payload read by its consumer");
	return x->id == (u64)id && x->check == chk((u64)id) && x->body[0] == (u64)id * 3 && x->body[1] == (u64)id * 3;
}
static void take(int q, void *p, bool freeing)
{
	int id = item_of(q, p);
	if(id < 0) { fail(C_EXACT, "%s something that was never pushed", freeing ? "the queue frees" : "a pop returned"); end_run(O_FOREIGN); }
	Item &it = items[id];
	tr("item %d %s", id, freeing ? "freed by the queue" : "popped");
	if(it.q != q) fail(C_EXACT, "item %d came out of another queue", id);
	if(it.state == 1) { if(freeing) { fail(C_OWNQ, "item %d is freed by the queue although it was popped before", id); } fail(C_EXACT, "item %d handed out %s", id, freeing ? "and freed" : "twice"); }
	if(it.state == 2) { if(freeing) fail(C_OWNQ, "item %d is freed by the queue twice", id); else { fail(C_EXACT, "item %d handed out although it was freed", id); } end_run(O_FOREIGN); }
	it.state = freeing ? 2 : 1;
	int h = cur_op[S.cur->id];
	it.rem_inv = h >= 0 ? hist[h].inv : hseq;
	if(!payload_ok(p, id)) fail(C_EXACT, "the content of item %d is not what its producer wrote", id);
}
static void q_free(void *p)
{
	Task *t = S.cur;
	int q = t->api_obj;
	cb_point();
	if(!p) { fail(C_OWNQ, "the free function was called with NULL"); return; }
	if(t->api_kind != A_CLEAR && t->api_kind != A_FREE && t->api_kind != A_DESTROY)
	{
		fail(C_OWNQ, "an item is freed by a call that must not free anything");
	}
	take(q, p, true);
	int h = cur_op[t->id];
	if(h >= 0) hist[h].freed.push_back(item_of(q, p));
	by_ptr.erase(p);
	race_access(p, sizeof(Payload), true, "item freed");
	heap_free(p, TAG_USER, "free function");
}
static int open_op(int q, int type, i64 val, u32 ms)
{
	HOp h = {}; h.task = S.cur->id; h.q = q; h.type = type; h.val = val; h.inv = ++hseq; h.ret = -1; h.inv_t = real_now(); h.ms = ms; h.open = true;
	hist.push_back(h);
	cur_op[S.cur->id] = (int)hist.size() - 1;
	ev(20 + type, q, (u64)val, ms);
	tr("call %s on queue %d%s", q_op[type], q, type == OP_PUSH ? (" item " + std::to_string(val)).c_str() : type == OP_POPT ? (" " + std::to_string(ms) + "ms").c_str() : "");
	return (int)hist.size() - 1;
}
static void close_op(int h, i64 val, bool ok)
{
	HOp &o = hist[h];
	o.open = false; o.ok = ok; o.ret = ++hseq; o.ret_t = real_now();
	if(o.type != OP_PUSH && o.type != OP_PUSHNULL) o.val = val;
	cur_op[S.cur->id] = -1;
	ev(40 + o.type, (u64)o.val, ok);
	tr("return from %s on queue %d: %s", q_op[o.type], o.q, o.type == OP_COUNT ? std::to_string(val).c_str() : ok ? "ok" : "false");
	Task *t = S.cur;
	if(t->held) { fail(C_LOCK, "%s returned with the mutex still locked", q_op[o.type]); fail(C_WAKE, "%s returned with the mutex still locked", q_op[o.type]); }
	bool success = o.type == OP_POP || o.type == OP_POPT ? ok : true;
	if(t->lock_failed && success) fail(C_NOLOCK, "%s went on although the mutex could not be locked", q_op[o.type]);
}
static void do_push(int q, bool null)
{
	QObj &o = qs[q];
	if(o.gone) return;
	if(null && o.nullpushed) null = false;
	int id = new_item(q, null);
	void *p = items[id].ptr;
	int h = open_op(q, OP_PUSH, id, 0);
	items[id].push_inv = hist[h].inv; items[id].pushed = true;
	yield(K_SYN);
	{ Api a(A_PUSH, q); aq_push(o.q, p); }
	qs[q].pushes++;
	close_op(h, id, true);
	items[id].push_ret = hist[h].ret; items[id].push_ret_t = hist[h].ret_t;
	yield(K_SYN);
}
static bool do_pop(int q, bool timed, u32 ms, bool keep)
{
	if(qs[q].gone) return false;
	/* out parameter in checked memory: the caller's variable */
	void **out = (void **)heap_alloc(sizeof(void *), TAG_USER, false);
	*out = (void *)0x5a5a;
	int h = open_op(q, timed ? OP_POPT : OP_POP, -1, ms);
	yield(K_SYN);
	bool ok;
	bool hard;
	{ Api a(timed ? A_POPT : A_POP, q); ok = timed ? aq_pop_timeout(qs[q].q, out, ms) : aq_pop(qs[q].q, out); hard = S.cur->wait_failed || S.cur->lock_failed; }
	void *p = *out;
	race_access(out, sizeof *out, false, "result of a pop");
	heap_free(out, TAG_USER, "result");
	hist[h].hard = hard;
	int id = -1;
	if(ok)
	{
		take(q, p, false);
		id = item_of(q, p);
		qs[q].pops++;
	}
	close_op(h, id, ok);
	HOp &o = hist[h];
	if(!ok && !timed && !hard) fail(C_BPOP, "a pop without a timeout returned without an item");
	if(timed && !ok && !hard && !cfg(G_JUMP))
	{
		i64 want = (i64)ms * 1000000, el = o.ret_t - o.inv_t;
		if(el < want - 2000) fail(C_TIME, "a pop with timeout %u ms gave up after %lld ns", ms, (long long)el);
		if(S.strict && el > want + 1000000) fail(C_TIME, "a pop with timeout %u ms gave up only after %lld ns", ms, (long long)el);
	}
	if(ok && p && !keep)
	{
		by_ptr.erase(p);
		race_access(p, sizeof(Payload), true, "item released by its consumer");
		heap_free(p, TAG_USER, "consumer");
	}
	yield(K_SYN);
	return ok;
}
static void do_count(int q)
{
	if(qs[q].gone) return;
	int h = open_op(q, OP_COUNT, 0, 0);
	yield(K_SYN);
	size_t n;
	{ Api a(A_COUNT, q); n = aq_count(qs[q].q); }
	close_op(h, (i64)n, true);
	yield(K_SYN);
}
static void do_clear(int q)
{
	if(qs[q].gone) return;
	int h = open_op(q, OP_CLEAR, 0, 0);
	qs[q].clears++;
	yield(K_SYN);
	{ Api a(A_CLEAR, q); aq_clear(qs[q].q); }
	qs[q].cleared += (i64)hist[h].freed.size();
	if(!qs[q].freefn || qs[q].nullpushed) qs[q].unknown_clear = true;
	close_op(h, (i64)hist[h].freed.size(), true);
	if(hist[h].freed.size()) probe(3);
	yield(K_SYN);
}
static i64 known_len(int q) { return qs[q].pushes - qs[q].pops - qs[q].cleared; }

static void check_idle()
{
	for(size_t q = 0; q < qs.size(); ++q)
	{
		if(qs[q].gone) continue;
		int waiters = 0, timed = 0, other = 0, cons = 0; bool unbounded = false;
		for(int i = 0; i < S.nt; ++i)
		{
			Task &t = S.t[i];
			if(cur_op[i] < 0 || hist[cur_op[i]].q != (int)q) continue;
			if(t.st == T_COND && !t.signalled && !t.spur) { waiters++; timed += t.timed; if(hist[cur_op[i]].type == OP_POPT && !t.timed) unbounded = true; }
			else other++;
			if(hist[cur_op[i]].type == OP_POP || hist[cur_op[i]].type == OP_POPT) cons++;
		}
		if(other) continue;
		if(unbounded) fail(C_TIME, "a pop with a timeout waits without a deadline");
		if(!waiters || qs[q].unknown_clear) continue;
		if(known_len((int)q) > 0)
		{
			if(timed == 1 && waiters == 1 && !(S.prop->mask & M(C_WAKE))) fail(C_TIME, "a pop with a timeout sleeps although an item is there");
			fail(C_WAKE, "%d consumer%s asleep although the queue holds %lld item%s", waiters, waiters > 1 ? "s are" : " is", (long long)known_len((int)q), known_len((int)q) > 1 ? "s" : "");
		}
		probe(0);
	}
}
/* ---- linearizability (Wing & Gong with memoisation) ---- */
struct Wgl
{
	std::vector<HOp *> o; std::unordered_set<u64> seen; u64 nodes = 0; bool nullset; int nullid; bool freefn; int n;
	std::vector<int> content;
	bool step(u64 done)
	{
		if(done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
		if(++nodes > 200000) return true; /* inconclusive: counted by the caller */
		u64 h = done * 0x9e3779b97f4a7c15ull; for(int x : content) h = (h ^ (u64)(x + 1)) * 0x100000001b3ull;
		if(!seen.insert(h).second) return false;
		i64 min_ret = INT64_MAX;
		for(int i = 0; i < n; ++i) if(!(done >> i & 1) && o[i]->ret < min_ret) min_ret = o[i]->ret;
		for(int i = 0; i < n; ++i)
		{
			if(done >> i & 1) continue;
			HOp &p = *o[i];
			if(p.inv > min_ret) continue;
			switch(p.type)
			{
				case OP_PUSH:
					content.push_back((int)p.val);
					if(step(done | 1ull << i)) return true;
					content.pop_back();
					break;
				case OP_POP: case OP_POPT:
					if(!p.ok) { if(!content.empty()) break; if(step(done | 1ull << i)) return true; break; }
					if(content.empty() || content[0] != p.val) break;
					content.erase(content.begin());
					if(step(done | 1ull << i)) return true;
					content.insert(content.begin(), (int)p.val);
					break;
				case OP_COUNT:
					if((i64)content.size() != p.val) break;
					if(step(done | 1ull << i)) return true;
					break;
				case OP_CLEAR:
				{
					if(freefn)
					{
						std::vector<int> a; for(int x : content) if(!nullset || x != nullid) a.push_back(x);
						std::vector<int> b = p.freed;
						std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
						if(a != b) break;
					}
					std::vector<int> save; save.swap(content);
					if(step(done | 1ull << i)) return true;
					save.swap(content);
					break;
				}
			}
		}
		return false;
	}
};
static void check_lin(int q)
{
	Wgl w; w.nullset = qs[q].nullpushed; w.nullid = qs[q].nullid; w.freefn = qs[q].freefn;
	for(auto &h : hist)
	{
		if(h.q != q || h.open) continue;
		if((h.type == OP_POP || h.type == OP_POPT) && !h.ok && (h.hard || h.type == OP_POP)) continue;
		w.o.push_back(&h);
	}
	w.n = (int)w.o.size();
	if(w.n <= 60)
	{
		if(!w.step(0)) fail(C_LIN, "no order of the %d calls on queue %d explains their results as a FIFO queue", w.n, q);
		if(w.nodes > 200000) probe(2); else probe(1);
		return;
	}
	probe(4);
	/* necessary conditions for longer histories; the sweeps are linear so that very long ones are covered */
	bool clear = qs[q].clears > 0;
	if(!clear)
	{
		/* a went in before b: a may not come out after b */
		std::vector<i64> pinv(items.size(), -1), pret(items.size(), -1);
		for(auto &h : hist) if(h.q == q && h.ok && !h.open && (h.type == OP_POP || h.type == OP_POPT)) { pinv[(size_t)h.val] = h.inv; pret[(size_t)h.val] = h.ret; }
		std::vector<int> byinv, byret;
		for(size_t i = 0; i < items.size(); ++i) if(items[i].q == q && items[i].state == 1 && items[i].push_ret && pinv[i] >= 0) { byinv.push_back((int)i); byret.push_back((int)i); }
		std::sort(byinv.begin(), byinv.end(), [](int a, int b) { return items[a].push_inv < items[b].push_inv; });
		std::sort(byret.begin(), byret.end(), [](int a, int b) { return items[a].push_ret < items[b].push_ret; });
		size_t j = 0; int late = -1;
		for(int b : byinv)
		{
			for(; j < byret.size() && items[byret[j]].push_ret <= items[b].push_inv; ++j) if(late < 0 || pinv[byret[j]] > pinv[late]) late = byret[j];
			if(late >= 0 && pret[b] < pinv[late]) fail(C_LIN, "item %d was pushed after item %d but popped before it", b, late);
		}
	}
	if(hist.size() > 4000) return;
	for(auto &h : hist) if(h.q == q && !h.open && h.type == OP_POPT && !h.ok && !h.hard && !clear)
	{
		for(auto &a : items) if(a.q == q && a.push_ret && a.push_ret < h.inv && (a.state == 0 || a.rem_inv > h.ret)) fail(C_LIN, "a timed pop reported an empty queue although an item was in it all the time");
	}
	for(auto &h : hist) if(h.q == q && !h.open && h.type == OP_COUNT && !clear)
	{
		i64 lo = 0, hi = 0;
		for(auto &g : hist) if(g.q == q)
		{
			bool pu = g.type == OP_PUSH, po = (g.type == OP_POP || g.type == OP_POPT) && (g.ok || g.open);
			if(pu) { if(!g.open && g.ret < h.inv) ++lo, ++hi; else if(g.inv < h.ret) ++hi; }
			if(po) { if(!g.open && g.ret < h.inv) --lo, --hi; else if(g.inv < h.ret) --lo; }
		}
		if(h.val < lo || h.val > hi) fail(C_LIN, "count returned %lld, which the queue never had", (long long)h.val);
	}
}
static bool known_lens_ok() { return hist.size() <= 4000; }
static void check_available() /* a timed pop may not miss an item nobody else competes for */
{
	if(cfg(G_JUMP) || !known_lens_ok()) return;
	for(auto &h : hist)
	{
		if(h.open || h.type != OP_POPT || h.ok || h.hard) continue;
		i64 dl = h.inv_t + (i64)h.ms * 1000000;
		for(auto &a : items)
		{
			if(a.q != h.q || !a.push_ret || a.push_ret > h.ret || a.push_ret_t > dl - 2000) continue;
			if(!(a.state == 0 || a.rem_inv > h.ret)) continue;
			bool rival = false;
			i64 from = std::min(h.inv, a.push_inv);
			for(auto &g : hist) if(&g != &h && g.q == h.q && (g.type == OP_POP || g.type == OP_POPT || g.type == OP_CLEAR) && (g.open || g.ret > from) && g.inv < h.ret) rival = true;
			if(!rival) fail(C_TIME, "a pop with timeout %u ms reported failure although an item was in the queue before its deadline", h.ms);
		}
	}
}
static void run_task(const std::vector<Op> &ops)
{
	for(auto &o : ops)
	{
		int q = (int)((u64)o.a[0] % qs.size());
		switch(o.code)
		{
			case OP_PUSH: do_push(q, false); break;
			case OP_PUSHNULL: do_push(q, true); break;
			case OP_POP: do_pop(q, false, 0, o.a[2] & 1); break;
			case OP_POPT: do_pop(q, true, (u32)o.a[1], o.a[2] & 1); break;
			case OP_COUNT: do_count(q); break;
			case OP_CLEAR: do_clear(q); break;
			case OP_MANY: /* a: queue, number, 0 push 1 pop 2 timed pop 3 both in turns */
				for(i64 i = 0; i < o.a[1] && !qs[q].gone; ++i) { if(o.a[2] % 4 == 0 || o.a[2] % 4 == 3) do_push(q, false); if(o.a[2] % 4 == 1 || o.a[2] % 4 == 3) do_pop(q, false, 0, false); if(o.a[2] % 4 == 2) do_pop(q, true, (u32)o.a[3], false); if(o.a[4] && i % o.a[4] == 0) do_count(q); }
				break;
			case OP_SLEEP: sim_sleep(o.a[1] < 0 ? 0 : o.a[1]); break;
		}
	}
}
void qw_main()
{
	qs.clear(); items.clear(); hist.clear(); by_ptr.clear(); hseq = 0; simpools_reset();
	for(int &c : cur_op) c = -1;
	Spec &s = *S.spec;
	for(auto &ob : s.objs)
	{
		QObj o = {};
		o.heap = ob[0] & 1; o.poolkind = (int)((u64)ob[1] % 4); o.freefn = ob[2] & 1; o.nullid = -1;
		size_t node = api_sizeof(SZ_SLISTITEM); int id = (int)qs.size();
		void *pool = NULL;
		if(o.poolkind == PF_LIB || o.poolkind == PF_SIMLIB) { Api a(A_POOL, id); o.mp = mp_new(node, 2 + (size_t)((u64)ob[3] % 6)); pool = o.mp; }
		if(o.poolkind == PF_SIM || o.poolkind == PF_SIMLIB) { o.sp = simpool_new(node, o.mp); pool = o.sp->p; }
		FreeFn f = o.freefn ? q_free : NULL;
		if(o.heap) { Api a(A_NEW, id); o.q = aq_new(q_cmp, f, pool); }
		else { o.q = heap_alloc(api_sizeof(SZ_ASYNC), TAG_USER, false); Api a(A_INIT, id); aq_init(o.q, q_cmp, f, pool); }
		if(S.cur->init_failed) fail(C_NOLOCK, "the queue was created although its locks were not");
		qs.push_back(o);
	}
	S.on_idle = check_idle;
	if(s.tasks.size() > 64) probe(6);
	for(auto &t : s.tasks) { const std::vector<Op> *p = &t; spawn([p] { run_task(*p); }); }
	wait_quiet();
	S.draining = true;
	for(int round = 0;; ++round)
	{
		int blocked = -1, q = -1;
		for(int i = 1; i < S.nt; ++i) if(S.t[i].st != T_DONE)
		{
			blocked = i;
			if(cur_op[i] < 0) harness_error("a task is blocked outside the library");
			HOp &h = hist[cur_op[i]];
			if(h.type != OP_POP) { fail(h.type == OP_POPT ? C_TIME : C_STUCK, "a %s call is blocked forever", q_op[h.type]); fail(C_STUCK, "a %s call is blocked forever", q_op[h.type]); end_run(O_FOREIGN); }
			q = h.q;
			if(S.t[i].st == T_MUTEX) fail(C_STUCK, "a pop is blocked forever on the mutex");
		}
		if(blocked < 0) break;
		i64 before = qs[q].pops;
		probe(5);
		do_push(q, false);
		wait_quiet();
		if(qs[q].pops == before && !qs[q].unknown_clear) fail(C_WAKE, "an item was pushed while a consumer waits, but nobody got it");
		if(qs[q].pops == before && round > 300 + S.nt) { fail(C_WAKE, "consumers stay blocked although items keep coming"); end_run(O_FOREIGN); }
		if(round > 3000) end_run(O_CUT);
	}
	/* everybody is done: settle accounts */
	for(size_t q = 0; q < qs.size(); ++q)
	{
		QObj &o = qs[q];
		if(!o.unknown_clear)
		{
			size_t n; int h = open_op((int)q, OP_COUNT, 0, 0);
			{ Api a(A_COUNT, (int)q); n = aq_count(o.q); }
			close_op(h, (i64)n, true);
			if((i64)n != known_len((int)q)) fail(C_EXACT, "the queue counts %zu items, but %lld were pushed and not taken out", n, (long long)known_len((int)q));
			if(o.sp && o.sp->live != known_len((int)q)) fail(C_POOLUSE, "the queue holds %lld items but %d nodes of its pool", (long long)known_len((int)q), o.sp->live);
		}
		if(s.cfg[G_W1] & 1) while(known_len((int)q) > 0 && !o.unknown_clear) do_pop((int)q, true, 0, true);
	}
	S.on_idle = nullptr;
	for(size_t q = 0; q < qs.size(); ++q) check_lin((int)q);
	check_available();
	for(size_t q = 0; q < qs.size(); ++q)
	{
		QObj &o = qs[q];
		tr("%s queue %zu", o.heap ? "destroy" : "free", q);
		if(o.heap) { Api a(A_DESTROY, (int)q); aq_destroy(o.q); } else { Api a(A_FREE, (int)q); aq_free(o.q); }
		if(!o.heap) heap_free(o.q, TAG_USER, "queue");
		o.gone = true;
		for(size_t i = 0; i < items.size(); ++i) if(items[i].q == (int)q && items[i].state == 0)
		{
			if(o.freefn) { if(items[i].ptr) fail(C_OWNQ, "item %zu was neither popped nor freed", i); }
			else if(!o.unknown_clear && (s.cfg[G_W1] & 1)) fail(C_EXACT, "item %zu was lost", i);
		}
		if(o.sp && o.sp->live) fail(C_POOLUSE, "%d nodes were not returned to the pool", o.sp->live);
		if(o.mp) { Api a(A_POOL, (int)q); mp_destroy(o.mp); }
		if(o.sp) simpool_dispose(o.sp);
	}
	if(sync_objects()) fail(C_LEAK, "%zu mutexes or condition variables were never destroyed", sync_objects());
	if(heap_lib_blocks()) fail(C_LEAK, "%zu blocks (%zu bytes) of library memory were not released", heap_lib_blocks(), heap_lib_bytes());
}
/* ---- generation ---- */
static i64 gen_ms(Rng &r)
{
	static const i64 v[] = { 0, 0, 1, 2, 10, 500, 900, 999, 1000, 1001, 1500, 1999, 2500, 60000, 3600000, 4294967295ll };
	if(r.one_in(4)) return (i64)r.log_range(1, 5000000);
	return v[r.below(16)];
}
void qw_gen(Rng &r, Spec &s, const PropInfo *p)
{
	int f = p->focus;
	int fl = GEN_SPUR | GEN_TIME | GEN_JUMP;
	if(r.one_in(2)) fl |= GEN_STRICT;
	if(f == 5 && !r.one_in(3)) fl |= GEN_STRICT;
	int nq = r.one_in(5) ? 2 : 1, nt = 2 + (int)r.below(r.one_in(4) ? 5 : 3), nops = r.one_in(6) ? 12 + (int)r.below(20) : 2 + (int)r.below(8);
	if(f == 2) nops = 2 + (int)r.below(7);
	if(f == 20) fl |= GEN_AFAIL;
	if(f == 8) { fl |= GEN_PERR; }
	gen_cfg(r, s, fl, nt * nops / 2 + 2);
	for(int q = 0; q < nq; ++q)
	{
		int pk = r.one_in(2) ? 0 : (int)r.below(4);
		s.objs.push_back({ (i64)r.below(2), pk, (i64)(f == 7 ? !r.one_in(5) : r.below(2)), (i64)r.below(6) });
	}
	s.cfg[G_W1] = f == 7 ? r.one_in(4) : r.below(2);
	if(!FLAVOUR_FINE && f != 20 && r.one_in(4000)) /* more items than small integers can count */
	{
		static const i64 sizes[] = { 300, 17000, 33000, 66000, 70000 };
		i64 n = sizes[r.below(5)]; s.objs.resize(1);
		s.cfg[G_MEM] = 0; s.cfg[G_SYN] = std::min<i64>(s.cfg[G_SYN], 200); s.cfg[G_CBK] = 0; s.cfg[G_STALL] = s.cfg[G_TICK] = s.cfg[G_LATE] = s.cfg[G_JUMP] = 0; s.cfg[G_SPUR] = 0; s.cfg[G_RECYC] = 1; s.cfg[G_PCT] = 0;
		std::vector<Op> a = { { OP_MANY, { 0, n, 0, 0, r.one_in(2) ? 1000 : 0 } } }, b;
		a.push_back({ OP_COUNT, { 0, 0, 0, 0, 0 } });
		if(f == 7 || r.one_in(3)) a.push_back({ OP_CLEAR, { 0, 0, 0, 0, 0 } }); 
		else { Op take = { OP_MANY, { 0, n - (i64)r.below(300), 1 + (i64)r.below(2), 0, r.one_in(2) ? 777 : 0 } }; if(r.one_in(2)) a.push_back(take); else b.push_back(take); }
		a.push_back({ OP_MANY, { 0, 3, 3, 0, 1 } });
		s.tasks.push_back(a); if(!b.empty()) s.tasks.push_back(b);
		return;
	}
	if(!FLAVOUR_FINE && f != 20 && f != 8 && r.one_in(7000)) /* more consumers than small integers can count */
	{
		int n = r.one_in(3) ? 120 + (int)r.below(20) : r.one_in(4) ? 500 + (int)r.below(100) : 250 + (int)r.below(50);
		s.objs.resize(1); s.cfg[G_SYN] = std::min<i64>(s.cfg[G_SYN], 200); s.cfg[G_STALL] = s.cfg[G_TICK] = s.cfg[G_LATE] = s.cfg[G_JUMP] = 0; s.cfg[G_SPUR] = std::min<i64>(s.cfg[G_SPUR], 200); s.cfg[G_PCT] = 0;
		bool timed = r.one_in(3), push = r.one_in(2); int prod = push ? n - (int)r.below(60) : 0;
		for(int i = 0; i < n; ++i) s.tasks.push_back({ { timed ? OP_POPT : OP_POP, { 0, timed ? (r.one_in(2) ? 60000 : 3600000) : 0, 0, 0, 0 } } });
		if(prod) s.tasks.push_back({ { OP_SLEEP, { 0, 1000000, 0, 0, 0 } }, { OP_MANY, { 0, prod, 0, 0, 50 } } });
		return;
	}
	/* workload mix of this run */
	u32 w[OP_N] = { 0 };
	w[OP_PUSH] = 10; w[OP_POP] = r.below(3) * 5; w[OP_POPT] = r.below(3) * 5; w[OP_COUNT] = r.below(3) * 2; w[OP_CLEAR] = r.one_in(3) ? 2 : 0; w[OP_SLEEP] = r.below(3) * 2; w[OP_PUSHNULL] = r.one_in(4) ? 1 : 0;
	switch(f)
	{
		case 3: w[OP_POP] += 8; w[OP_CLEAR] = r.one_in(6); break;
		case 4: w[OP_POP] += 8; w[OP_POPT] += 2; break;
		case 5: w[OP_POPT] += 12; w[OP_CLEAR] = r.one_in(6); w[OP_SLEEP] += 5; if(r.one_in(2)) w[OP_POP] = 0; break;
		case 7: w[OP_CLEAR] = 1 + r.below(4); break;
		case 8: w[OP_CLEAR] = r.one_in(3); w[OP_POP] += 3; break;
	}
	bool roles = r.one_in(2);
	for(int t = 0; t < nt; ++t)
	{
		std::vector<Op> ops;
		u32 v[OP_N]; memcpy(v, w, sizeof v);
		if(roles)
		{
			if(t == 0) v[OP_POP] = v[OP_POPT] = 0;           /* a producer */
			else if(t == 1) { v[OP_PUSH] = v[OP_PUSHNULL] = 0; if(!v[OP_POP] && !v[OP_POPT]) v[OP_POP] = 5; } /* a consumer */
			else if(r.one_in(2)) v[OP_PUSH] = r.below(2) * 10;
		}
		u32 tot = 0; for(u32 x : v) tot += x;
		if(!tot) { v[OP_PUSH] = 1; tot = 1; }
		int n = 1 + (int)r.below(nops);
		for(int i = 0; i < n; ++i)
		{
			u64 k = r.below(tot); int c = 0;
			while(k >= v[c]) k -= v[c++];
			Op o = { c, { (i64)r.below(nq), 0, (i64)r.below(2), 0, 0 } };
			if(c == OP_POPT) o.a[1] = gen_ms(r);
			if(c == OP_SLEEP) o.a[1] = r.one_in(3) ? (i64)r.below(2000) * 1000000 : (i64)r.log_range(1, 10000000000ull);
			ops.push_back(o);
		}
		s.tasks.push_back(ops);
	}
}
std::string qw_op_name(const Op &o)
{
	std::string x = o.code >= 0 && o.code < OP_N ? q_op[o.code] : "?";
	if(o.code == OP_SLEEP) return x + " " + std::to_string(o.a[1]) + "ns";
	x += " q" + std::to_string(o.a[0]);
	if(o.code == OP_POPT) x += " " + std::to_string(o.a[1]) + "ms";
	return x;
}
