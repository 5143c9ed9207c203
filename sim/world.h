#ifndef WORLD_H
#define WORLD_H
#include "core.h"
#include "api.h"
extern const bool FLAVOUR_FINE;

/* A pool implemented outside the library, with provenance tracking. */
struct SimPool
{
	PoolLike vt;        /* first: the library sees this */
	i64 id;
	u64 scratch;        /* touched by every call, so that unsynchronised use is a data race */
};
struct PoolState
{
	SimPool *p; size_t node; void *backing; /* library memory pool behind it, or NULL */
	int live; u64 allocs, frees;
	std::unordered_map<void *, u8> nodes; /* 1 live, 2 returned */
};
PoolState *simpool_new(size_t node, void *backing);
void simpool_dispose(PoolState *s);
void simpools_reset();

enum { PF_NONE, PF_LIB, PF_SIM, PF_SIMLIB }; /* pool flavours */

/* scheduling and fault configuration */
enum { GEN_SPUR = 1, GEN_TIME = 2, GEN_JUMP = 4, GEN_AFAIL = 8, GEN_PERR = 16, GEN_READ = 32, GEN_STRICT = 64, GEN_SERIAL = 128 };
void gen_cfg(Rng &r, Spec &s, int flags, int expect_allocs);

void qw_gen(Rng &r, Spec &s, const PropInfo *p);
void qw_main();
void cw_gen(Rng &r, Spec &s, const PropInfo *p);
void cw_main();
void dw_gen(Rng &r, Spec &s, const PropInfo *p);
void dw_main();
void gen_for(const PropInfo *p, u64 seed, Spec &s, WorldMain *w, i64 *world);
WorldMain world_of(i64 world);
std::string op_name(i64 world, const Op &o);

/* probe numbers: 0..31 queue world, 32..79 container world */
#endif
