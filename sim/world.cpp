#include "world.h"

static std::vector<PoolState *> pools;
static PoolState *of(PoolLike *v)
{
	for(auto p : pools) if((PoolLike *)p->p == v) return p;
	harness_error("unknown pool");
}
static void *sp_alloc(PoolLike *v)
{
	PoolState *s = of(v);
	race_access(&s->p->scratch, 8, true, "use of a pool that is not thread-safe");
	cb_point();
	race_access(&s->p->scratch, 8, true, "use of a pool that is not thread-safe");
	void *n;
	if(s->backing) n = mp_alloc(s->backing); else n = heap_alloc(s->node, TAG_POOL, false);
	if(!n) end_run(O_CUT);
	auto &st = s->nodes[n];
	if(st == 1) fail(C_POOLOV, "the memory pool handed out an item that is still live");
	st = 1; s->live++; s->allocs++;
	return n;
}
static void sp_free(PoolLike *v, void *n)
{
	PoolState *s = of(v);
	race_access(&s->p->scratch, 8, true, "use of a pool that is not thread-safe");
	cb_point();
	auto it = s->nodes.find(n);
	if(it == s->nodes.end()) { fail(C_POOLUSE, "a container returned memory to the pool that the pool never handed out"); return; }
	if(it->second != 1) { fail(C_POOLUSE, "a container returned the same node to its pool twice"); return; }
	it->second = 2; s->live--; s->frees++;
	if(s->backing) mp_free(s->backing, n);
	else { heap_free(n, TAG_POOL, "pool free"); s->nodes.erase(it); }
}
PoolState *simpool_new(size_t node, void *backing)
{
	PoolState *s = new PoolState();
	s->p = (SimPool *)heap_alloc(sizeof(SimPool), TAG_USER, true);
	s->p->vt.alloc = sp_alloc; s->p->vt.free = sp_free; s->p->id = (i64)pools.size();
	s->node = node; s->backing = backing; s->live = 0;
	pools.push_back(s);
	return s;
}
void simpool_dispose(PoolState *s) { heap_free(s->p, TAG_USER, "pool dispose"); s->p = NULL; }
void simpools_reset() { for(auto p : pools) delete p; pools.clear(); }

void gen_cfg(Rng &r, Spec &s, int f, int expect_allocs)
{
	i64 *c = s.cfg;
	static const i64 syn[] = { 0, 20000, 50000, 120000, 250000, 450000 }, mem[] = { 0, 0, 500, 3000, 15000, 60000, 200000 }, cbk[] = { 0, 20000, 100000, 300000 };
	c[G_SEED2] = (i64)(r.next() >> 1);
	if(!(f & GEN_SERIAL))
	{
		c[G_SYN] = syn[r.below(6)]; c[G_MEM] = mem[r.below(7)]; c[G_CBK] = cbk[r.below(4)];
		if(r.one_in(4)) { c[G_PCT] = 1 + (i64)r.below(6); c[G_PCTLEN] = (i64)r.log_range(20, 20000); }
	}
	switch(r.below(4)) /* phase inside the second */
	{
		case 0: c[G_PHASE] = 0; break;
		case 1: c[G_PHASE] = 999999999 - (i64)r.below(2000); break;
		case 2: c[G_PHASE] = 999000000 + (i64)r.below(1000000); break;
		default: c[G_PHASE] = (i64)r.below(1000000000); break;
	}
	/* the system clock may be near a date that small integers cannot count past */
	if(r.one_in(8)) { static const i64 era[] = { 2147483647, 2147483648, 4294967295, 4294967296, 5000000000, 1000000 }; i64 e = era[r.below(6)]; c[G_PHASE] += (e - 1700000000 - (e < 2000000 ? 0 : (i64)r.log_range(1, 3000000))) * 1000000000ll; }
	if((f & GEN_TIME) && !(f & GEN_STRICT))
	{
		if(r.one_in(2)) { c[G_TICK] = r.range(20000, 400000); c[G_TICKNS] = (i64)r.log_range(1, 2000000000); }
		if(r.one_in(2)) { c[G_STALL] = r.range(5000, 100000); c[G_STALLNS] = (i64)r.log_range(1, 4000000000u); }
		if(r.one_in(3)) { c[G_LATE] = r.range(50000, 500000); if(!c[G_TICKNS]) c[G_TICKNS] = (i64)r.log_range(1, 2000000000); }
		if((f & GEN_JUMP) && r.one_in(5)) { c[G_JUMP] = r.range(5000, 60000); c[G_JUMPNS] = (i64)r.log_range(1000, 3000000000u); }
	}
	if((f & GEN_SPUR) && r.one_in(2)) c[G_SPUR] = r.range(5000, 150000);
	if(f & GEN_AFAIL)
	{
		/* about one refusal per run, sometimes more, sometimes everything from then on */
		i64 e = expect_allocs < 1 ? 1 : expect_allocs;
		c[G_AFAIL] = 1000000 / (e * (1 + (i64)r.below(3)));
		if(r.one_in(4)) c[G_AFAIL] *= 4;
		if(c[G_AFAIL] > 900000) c[G_AFAIL] = 900000;
		if(c[G_AFAIL] < 50) c[G_AFAIL] = 50;
		c[G_APERSIST] = r.one_in(3);
	}
	if(f & GEN_PERR)
	{
		static const i64 masks[] = { 1, 2, 4, 8, 6, 14, 15 };
		c[G_PERRMASK] = masks[r.below(7)];
		c[G_PERR] = c[G_PERRMASK] == 1 ? r.range(100000, 500000) : r.range(10000, 250000);
		c[G_PPERSIST] = r.one_in(3);
	}
	c[G_RMOVE] = r.one_in(2) ? 0 : r.range(100000, 900000);
	c[G_RECYC] = (i64)r.below(3);
	c[G_FILL] = (i64)r.below(5);
	if(f & GEN_READ)
	{
		if(r.one_in(2)) c[G_RDSHORT] = r.range(100000, 900000);
		if(r.one_in(2)) c[G_RDERR] = r.range(20000, 400000);
	}
}
