/* Deterministic simulator core: coroutine tasks, virtual clock, seeded choices,
 * simulated heap, pthread layer, race detector, run control. */
#ifndef CORE_H
#define CORE_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <initializer_list>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static const int MAXT = 8; /* task 0 is the controller */
static const int NTASK = 640; /* with a crowd, in the plain flavour; its members share choice streams and have no vector clocks */

struct Rng
{
	u64 s[2];
	void seed(u64 x) { for(int i = 0; i < 2; ++i) { x += 0x9e3779b97f4a7c15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; s[i] = z ^ (z >> 31); } }
	u64 next() { u64 a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14); s[1] = (b << 36) | (b >> 28); return r; }
	u64 below(u64 n) { return n ? (u64)(((__uint128_t)next() * n) >> 64) : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(u32 ppm) { return below(1000000) < ppm; }
	bool one_in(u32 n) { return below(n) == 0; }
	u64 log_range(u64 lo, u64 hi); /* log-uniform */
	u64 geom(u32 ppm);             /* steps to next event at probability ppm/1e6, >= 1 */
};

/* ---- choices ---- */
enum Kind : u8 { K_MEM, K_SYN, K_CBK, K_NEXT, K_SIG, K_SPUR, K_STALL, K_TICK, K_LATE, K_JUMP, K_AFAIL, K_RMOVE, K_RECYC, K_RDLEN, K_RDERR, K_PERR, K_CONSUME, K_NEST, K_COUNT };
extern const char *const kind_name[K_COUNT];
struct Choice { u8 kind, slot; u32 idx, val; };

/* ---- violation classes ---- */
enum Cls : u8
{
	C_NONE, C_CRASH, C_HANG, C_MEM, C_RACE, C_LOCK, C_STUCK, C_LEAK, C_BOUND,
	C_EXACT, C_LIN, C_WAKE, C_BPOP, C_TIME, C_OWNQ, C_NOLOCK,
	C_STREAM, C_LIMIT, C_TEXT, C_FDREAD, C_POOLOV, C_POOLREUSE, C_POOLUSE,
	C_MAP, C_ITER, C_OWNMAP, C_COST, C_LIST, C_SORT, C_SQ, C_OWNLIST, C_DIFF, C_STEPS, C_NEST, C_COUNT
};
extern const char *const cls_name[C_COUNT];
#define M(c) (1ull << (c))

/* ---- run specification ---- */
enum CfgKey
{
	/* scheduling */
	G_MEM, G_SYN, G_CBK, G_PCT, G_PCTLEN, G_SEED2,
	/* time */
	G_PHASE, G_TICK, G_TICKNS, G_LATE, G_STALL, G_STALLNS, G_JUMP, G_JUMPNS,
	/* faults */
	G_SPUR, G_AFAIL, G_APERSIST, G_RMOVE, G_RECYC, G_FILL, G_RDSHORT, G_RDERR, G_PERR, G_PPERSIST, G_PERRMASK,
	/* world */
	G_W0, G_W1, G_W2, G_W3, G_W4, G_W5, G_W6, G_W7, G_COUNT
};
extern const char *const cfg_name[G_COUNT];
struct Op { int code; i64 a[5]; };
struct Spec
{
	i64 cfg[G_COUNT];
	std::vector<std::vector<i64>> objs;
	std::vector<std::vector<Op>> tasks;
	Spec() { memset(cfg, 0, sizeof cfg); }
};

struct PropInfo
{
	const char *id;
	int world;        /* 0 queue world, 1 container world, 2 mixed */
	u64 mask;         /* enabled violation classes */
	bool need_fault;  /* only report once an injected failure of need_kind fired */
	int focus;        /* world specific focus */
};
extern const PropInfo props[];
const PropInfo *find_prop(const char *id);

/* ---- results ---- */
enum Outcome { O_OK, O_STOP, O_FAIL, O_FOREIGN, O_CUT };
struct Stats
{
	u64 runs, ops, switches, inop_switches, memacc, blocks, faults[32], simns, outcome[5], probes[96];
	void add(const Stats &o);
};
enum FaultId { F_PREEMPT, F_SPUR, F_STALL, F_TICK, F_LATE, F_JUMP, F_AFAIL, F_RMOVE, F_RSTAY, F_RECYC, F_RDSHORT, F_RDERR, F_RDEINTR, F_RDAGAIN, F_EOF, F_RDBLOCK, F_PINIT, F_PLOCK, F_PWAIT, F_PSIG, F_SIGPICK, F_TIMEOUT, F_ABANDON, F_CONSUME, F_NEST, F_COUNT };
extern const char *const fault_name[F_COUNT];
extern const char *const probe_name[96];

struct Result
{
	Outcome out = O_OK; Cls cls = C_NONE; std::string msg; u64 hash = 0; u64 nontrivial = 0;
	std::vector<Choice> choices;
};

/* ---- tasks ---- */
enum TState : u8 { T_FREE, T_RUN, T_MUTEX, T_COND, T_SLEEP, T_QUIET, T_RW, T_FD, T_JOIN, T_DONE };
struct VC { u32 c[MAXT]; };
struct Task
{
	int id; TState st; void *sp; char *stack; std::function<void()> *fn;
	int err; VC vc;
	void *wmutex, *wcond; bool signalled, spur, timed; i64 deadline; int wclock; /* cond */
	i64 wake;         /* sleep */
	bool stalled;
	int rw; bool rww;
	int wfd;
	int in_api; int api_obj; u32 api_kind; u64 api_steps; u64 api_copy; /* bytes moved or cleared on behalf of the call */ u64 api_seq; bool lock_failed; bool wait_failed; bool sig_failed; bool init_failed;
	bool alloc_failed;/* an allocation of the current call failed */
	int held;         /* pthread mutexes held */
	u32 prio;
	u64 cmp_calls;    /* compare callbacks in the current call */
	char *tls;
	u64 switches_in_api;
	int tag;          /* allocation tag override */
};
struct Stream { u32 idx; u32 fpos; };

struct Sim
{
	/* setup */
	const PropInfo *prop; Spec *spec; bool fine; bool replay; bool trace;
	Rng rng; /* choices */
	std::vector<Choice> forced[K_COUNT][MAXT + 1];
	Stream str[K_COUNT][MAXT + 1];
	std::vector<Choice> rec;
	Task t[NTASK]; int nt; Task *cur; void *main_sp;
	i64 now; i64 rt_off; /* monotonic virtual ns, realtime = now + rt_off */
	u64 hash; u64 seq; u64 steps;
	u64 mem_next; u64 memc[MAXT];
	std::vector<u64> pct; size_t pctpos; u64 pctstep; u32 pctlow;
	bool active; bool ended; bool faulted; /* the fault a need_fault check asks for has fired */
	bool refusal; /* an allocation or a pthread call was made to fail: the process may end */
	Outcome out; Cls cls; std::string msg;
	u32 run;
	Stats st; /* accumulated over the process */
	i64 start_now;
	u64 pre_switches;
	int spur_left;
	std::function<void()> on_idle;
	std::function<bool(int)> fd_ready;
	bool draining; /* no more faults */
	bool strict;   /* time moves only when idle */
	Cls remap;     /* every failure other than a race counts as this class */
	std::vector<std::string> log;
};
extern Sim S;

/* choices */
u32 choose(Kind k, int slot, u32 n, u32 ppm); /* 0 with probability 1-ppm, else uniform in 1..n-1 */
u32 pick(Kind k, int slot, u32 n);            /* uniform in 0..n-1 */
static inline u32 cfg(CfgKey k) { return (u32)S.spec->cfg[k]; }

/* scheduling */
int spawn(std::function<void()> fn);
void yield(Kind k);          /* preemption point */
void sim_sleep(i64 ns);
void wait_quiet();           /* until nobody else can run and no timer is pending */
void join(int t);
void block_on(TState st);
bool task_done(int t);
bool task_runnable(const Task &t);
void rw_lock(int id, bool w); void rw_unlock(int id); /* harness locks */
struct HLock { int readers; int writer; VC wvc, rvc; };
HLock *hlock(int id);

/* run control */
void fail(Cls c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void fail_any(std::initializer_list<Cls> cs, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run(Outcome o);
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(u32 code, u64 a = 0, u64 b = 0, u64 c = 0); /* hash into the event log */
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* readable trace */
void probe(int id);
void fault(FaultId f);

/* heap */
enum Tag : u8 { TAG_LIB = 1, TAG_USER = 2, TAG_NODE = 3, TAG_POOL = 4 }; /* NODE: handed over to the library or by it; POOL: node of a simulated pool */
struct Block { char *p; size_t size; u8 tag; bool live; int obj; u32 op; };
void *heap_alloc(size_t n, Tag tag, bool zero);
void heap_free(void *p, Tag tag, const char *who);
Block *heap_block(const void *p);  /* block that contains p, live or freed, or NULL */
bool heap_live(const void *p, size_t n);
size_t heap_obj_bytes(int obj); size_t heap_lib_bytes(); size_t heap_lib_blocks(); size_t heap_lib_peak();
size_t sync_objects(); /* mutexes, conditions created by the library in its memory and not destroyed */
void heap_lib_peak_reset();
void heap_each_live(const std::function<void(const Block &)> &f);
void heap_handover(void *p); /* the library gave this block to its caller */
void *heap_realloc(void *p, size_t n, const char *who);
/* race detector, for memory the harness itself touches */
void race_access(const void *p, size_t n, bool w, const char *what);
void vc_join(VC &a, const VC &b);
void vc_release(VC &into); /* current task releases into */
void vc_acquire(const VC &from);

/* bracket of a library call */
struct Api
{
	Api(u32 kind, int obj) { Task *t = S.cur; t->in_api++; t->api_kind = kind; t->api_obj = obj; t->api_steps = 0; t->api_copy = 0; t->api_seq++; t->lock_failed = t->wait_failed = t->sig_failed = t->init_failed = t->alloc_failed = false; t->cmp_calls = 0; t->switches_in_api = 0; S.st.ops++; }
	~Api() { S.cur->in_api--; }
};
/* callbacks from the library into harness code */
void cb_point();
static inline int slot_of(int id) { return id < MAXT ? id : MAXT - 1; }

/* fd layer, provided by the world */
struct FdOps { std::function<i64(int fd, void *buf, size_t n)> read; };
extern FdOps fdops;
bool is_fine();

/* one run */
typedef void (*WorldMain)();
Result run_once(const PropInfo *p, Spec &spec, u64 seed, const std::vector<Choice> *forced, bool trace, WorldMain w);
void core_init();
extern char *arena; extern const size_t ARENA;
extern u8 cov_map[]; size_t cov_count();
i64 real_now();
i64 api_small_stack();
#endif
