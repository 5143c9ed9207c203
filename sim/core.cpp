#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <algorithm>
#include <unistd.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <pthread.h>

Sim S;
FdOps fdops;
const char *const kind_name[K_COUNT] = { "mem", "syn", "cbk", "next", "sig", "spur", "stall", "tick", "late", "jump", "afail", "rmove", "recyc", "rdlen", "rderr", "perr", "consume", "nest" };
const char *const cls_name[C_COUNT] =
{
	"none", "crash", "hang", "memory-error", "data-race", "lock-misuse", "stuck", "leak", "memory-bound",
	"exactly-once", "linearizability", "lost-wakeup", "blocking-pop", "timing", "queue-ownership", "ran-without-lock",
	"stream-integrity", "limit", "extracted-text", "fd-read", "pool-overlap", "pool-reuse", "pool-use",
	"map-model", "iteration", "map-ownership", "step-bound", "list-model", "sorted-insert", "stack-queue", "list-ownership", "interference", "step-count", "nested-use"
};
const char *const cfg_name[G_COUNT] =
{
	"mem", "syn", "cbk", "pct", "pctlen", "seed2", "phase", "tick", "tickns", "late", "stall", "stallns", "jump", "jumpns",
	"spur", "afail", "apersist", "rmove", "recyc", "fill", "rdshort", "rderr", "perr", "ppersist", "perrmask",
	"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7"
};
const char *const fault_name[F_COUNT] =
{
	"preemption", "spurious_wakeup", "stall", "clock_tick", "late_timer", "clock_jump", "alloc_failure", "realloc_moved", "realloc_in_place", "address_reuse",
	"short_read", "read_error", "read_EINTR", "read_EAGAIN", "read_EOF", "read_blocked", "pthread_init_error", "pthread_lock_error", "pthread_wait_error", "pthread_signal_error", "signal_target", "timer_expiry", "iterator_abandoned", "signal_swallowed_by_timeout", "nested_call_in_callback"
};

/* ------------------------------------------------------------------ rng */
u64 Rng::log_range(u64 lo, u64 hi)
{
	if(lo >= hi) return lo;
	int bl = 64 - __builtin_clzll(lo | 1), bh = 64 - __builtin_clzll(hi | 1);
	for(;;)
	{
		int b = (int)range(bl, bh);
		u64 v = b <= 1 ? below(2) : ((1ull << (b - 1)) | below(1ull << (b - 1)));
		if(v >= lo && v <= hi) return v;
	}
}
u64 Rng::geom(u32 ppm)
{
	if(!ppm) return ~0ull;
	if(ppm >= 1000000) return 1;
	/* integer inverse transform: product of rejections in blocks, no floating point differences */
	u64 n = 1;
	while(!chance(ppm)) if(++n > 1000000) break;
	return n;
}
/* ------------------------------------------------------------------ arena */
char *arena;
const size_t ARENA = 256u << 20;
static const uintptr_t ARENA_AT = 0x10000000000, STACK_AT = 0x10100000000;
static const size_t STACK_SIZE = 256 << 10;
static u8 *shadow;           /* one byte per 8: 0 ok, 1..7 first k bytes ok, 0xfa redzone, 0xfd freed */
static u32 *blk_of;          /* block index + 1 by granule of the block's start */
struct Cell { u32 run, wclk; u8 wtask, wmask; u8 rmask[MAXT]; u32 rclk[MAXT]; };
static Cell *cells;          /* arena */
static Cell *gcells; static uintptr_t g_lo[2], g_hi[2]; static size_t g_base[2]; /* library globals */
static std::vector<Block> blocks;
static size_t bump, bump_hi;
static std::map<size_t, std::vector<u32>> freelist;
static size_t lib_bytes, lib_blocks, lib_peak;
static std::map<int, size_t> obj_bytes;
static sigjmp_buf main_jmp;
static std::map<int, HLock> hlocks;

extern "C" { extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)); }
static std::string g_snap[2];
static size_t tls_size, tls_file; static char *tls_at; static const char *tls_image;

static std::vector<std::pair<uintptr_t, size_t>> images; static uintptr_t tls_end;
static int phdr_cb(struct dl_phdr_info *info, size_t, void *)
{
	for(int i = 0; i < info->dlpi_phnum; ++i) if(info->dlpi_phdr[i].p_type == PT_LOAD) images.push_back({ (uintptr_t)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr), (size_t)info->dlpi_phdr[i].p_memsz });
	if(info->dlpi_name && *info->dlpi_name) return 0;
	for(int i = 0; i < info->dlpi_phnum; ++i) if(info->dlpi_phdr[i].p_type == PT_TLS)
	{
		auto &p = info->dlpi_phdr[i];
		size_t al = p.p_align ? p.p_align : 1;
		tls_size = (p.p_memsz + al - 1) / al * al; tls_file = p.p_filesz;
		tls_image = (const char *)(info->dlpi_addr + p.p_vaddr);
		char *fs; asm("mov %%fs:0, %0" : "=r"(fs));
		tls_at = fs - tls_size; tls_end = (uintptr_t)fs;
	}
	return 0;
}
static void *fixed(uintptr_t at, size_t n)
{
	void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(p != (void *)at) { fprintf(stderr, "HARNESS: cannot map %zx\n", (size_t)at); _exit(3); }
	return p;
}
static void *anywhere(size_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) { fprintf(stderr, "HARNESS: mmap failed\n"); _exit(3); }
	return p;
}
static u32 hang_run; static u64 hang_seq, hang_cnt;
static void on_crash(int sig, siginfo_t *si, void *)
{
	if(S.active && S.cur && S.cur->in_api)
	{
		char *gp = S.cur->stack;
		bool so = sig == SIGSEGV && (char *)si->si_addr >= gp - 65536 && (char *)si->si_addr < gp + 4096;
		S.out = O_FAIL; S.cls = C_CRASH;
		char b[96];
		uintptr_t ad = (uintptr_t)si->si_addr;
		snprintf(b, sizeof b, "%s in a library call%s%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGFPE", so ? " (stack overflow)" : "", sig == SIGSEGV && !so && ad < 65536 ? " (null pointer)" : "");
		S.msg = b;
		siglongjmp(main_jmp, 1);
	}
	const char *m = "HARNESS: crash outside a library call\n";
	(void)!write(2, m, strlen(m));
	signal(sig, SIG_DFL); raise(sig);
	_exit(3);
}
static void on_vtalrm(int)
{
	u64 k = S.active && S.cur ? S.cur->api_seq * 16 + S.cur->id : 0;
	if(S.active && hang_run == S.run && hang_seq == k && S.cur)
	{
		if(++hang_cnt >= 3)
		{
			if(S.cur->in_api) { S.out = O_FAIL; S.cls = C_HANG; S.msg = "a library call does not finish"; siglongjmp(main_jmp, 1); }
			if(hang_cnt > 30) { const char *m = "HARNESS: run does not finish\n"; (void)!write(2, m, strlen(m)); _exit(3); }
		}
	}
	else { hang_cnt = 0; hang_run = S.run; hang_seq = k; }
}
void core_init()
{
	arena = (char *)fixed(ARENA_AT, ARENA);
	char *st = (char *)fixed(STACK_AT, (STACK_SIZE + 65536) * NTASK);
	for(int i = 0; i < NTASK; ++i)
	{
		char *base = st + i * (STACK_SIZE + 65536);
		mprotect(base, 65536, PROT_NONE);
		S.t[i].stack = base + 65536;
		S.t[i].fn = new std::function<void()>();
		S.t[i].id = i;
	}
	shadow = (u8 *)anywhere(ARENA / 8);
	memset(shadow, 0xfa, ARENA / 8);
	blk_of = (u32 *)anywhere(ARENA / 8 * 4);
	cells = (Cell *)anywhere(ARENA / 8 * sizeof(Cell));
	{ char *fs; asm("mov %%fs:0, %0" : "=r"(fs)); tls_end = (uintptr_t)fs; }
	dl_iterate_phdr(phdr_cb, NULL);
	if(tls_size) for(int i = 0; i < NTASK; ++i) S.t[i].tls = (char *)malloc(tls_size);
	char *lo[2] = { __start_libdata, __start_libbss }, *hi[2] = { __stop_libdata, __stop_libbss };
	size_t n = 0;
	for(int i = 0; i < 2; ++i) if(lo[i] && hi[i] > lo[i])
	{
		g_lo[i] = (uintptr_t)lo[i] & ~7ul; g_hi[i] = (uintptr_t)hi[i]; g_base[i] = n; n += (g_hi[i] - g_lo[i] + 15) / 8;
		g_snap[i].assign(lo[i], hi[i] - lo[i]);
	}
	gcells = (Cell *)calloc(n + 1, sizeof(Cell));
	static char alt[65536];
	stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
	struct sigaction sa = {}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for(int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, NULL);
	struct sigaction sv = {}; sv.sa_handler = on_vtalrm; sv.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
	sigaction(SIGVTALRM, &sv, NULL);
	struct itimerval it = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}
/* ------------------------------------------------------------------ log */
void ev(u32 code, u64 a, u64 b, u64 c)
{
	auto mix = [](u64 x) { S.hash ^= x; S.hash *= 0x100000001b3ull; S.hash ^= S.hash >> 29; };
	mix(code); mix(a); mix(b); mix(c); mix(S.cur ? S.cur->id : 99);
}
void tr(const char *fmt, ...)
{
	if(!S.trace) return;
	char b[600]; va_list ap; va_start(ap, fmt);
	int n = snprintf(b, sizeof b, "%6llu t=%lldns T%d ", (unsigned long long)S.seq, (long long)(S.now - S.start_now), S.cur ? S.cur->id : -1);
	vsnprintf(b + n, sizeof b - n, fmt, ap); va_end(ap);
	if(S.log.size() < 6000) S.log.push_back(b);
}
void probe(int id) { S.st.probes[id]++; }
void fault(FaultId f) { S.st.faults[f]++; }
void Stats::add(const Stats &o)
{
	u64 *a = (u64 *)this; const u64 *b = (const u64 *)&o;
	for(size_t i = 0; i < sizeof(Stats) / 8; ++i) a[i] += b[i];
}
void harness_error(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); fprintf(stderr, "HARNESS: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
	fflush(NULL); _exit(3);
}
void end_run(Outcome o)
{
	if(!S.active) harness_error("end_run outside a run");
	S.out = o;
	siglongjmp(main_jmp, 1);
}
void fail_any(std::initializer_list<Cls> cs, const char *fmt, ...)
{
	if(!S.active) return;
	char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	Cls c = *cs.begin();
	for(Cls x : cs) if(S.prop->mask & M(x)) { c = x; break; }
	fail(c, "%s", b);
}
void fail(Cls c, const char *fmt, ...)
{
	if(!S.active) return;
	char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if(S.remap == C_NEST || (S.remap && c != C_RACE && c != C_MEM && c != C_LOCK)) c = S.remap;
	bool on = (S.prop->mask & M(c)) && (!S.prop->need_fault || S.faulted);
	tr("%s %s: %s", on ? "VIOLATION" : "(not this property)", cls_name[c], b);
	if(!on && (c == C_RACE || c == C_MEM || c == C_LOCK)) return;
	S.cls = c; S.msg = b;
	end_run(on ? O_FAIL : O_FOREIGN);
}
/* ------------------------------------------------------------------ choices */
static bool forced_at(Kind k, int slot, u32 idx, u32 *val)
{
	auto &f = S.forced[k][slot]; u32 &p = S.str[k][slot].fpos;
	while(p < f.size() && f[p].idx < idx) ++p;
	if(p < f.size() && f[p].idx == idx) { *val = f[p].val; return true; }
	return false;
}
static u32 record(Kind k, int slot, u32 idx, u32 v)
{
	if(v) { S.rec.push_back({ (u8)k, (u8)slot, idx, v }); ev(0x100 + k, slot, idx, v); }
	return v;
}
u32 choose(Kind k, int slot, u32 n, u32 ppm)
{
	if(slot > MAXT) slot = MAXT - 1;
	u32 idx = S.str[k][slot].idx++, v = 0;
	if(S.replay) { if(forced_at(k, slot, idx, &v)) v = n > 1 ? (v < n ? v : n - 1) : 0; }
	else if(n > 1 && ppm && S.rng.chance(ppm)) v = 1 + (u32)S.rng.below(n - 1);
	return record(k, slot, idx, v);
}
u32 pick(Kind k, int slot, u32 n)
{
	if(slot > MAXT) slot = MAXT - 1;
	u32 idx = S.str[k][slot].idx++, v = 0;
	if(S.replay) { if(forced_at(k, slot, idx, &v)) v = n > 1 ? (v < n ? v : n - 1) : 0; }
	else if(n > 1) v = (u32)S.rng.below(n);
	return record(k, slot, idx, v);
}
/* ------------------------------------------------------------------ vector clocks, races */
void vc_join(VC &a, const VC &b) { for(int i = 0; i < MAXT; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void vc_release(VC &into) { Task *t = S.cur; vc_join(into, t->vc); t->vc.c[slot_of(t->id)]++; }
void vc_acquire(const VC &from) { vc_join(S.cur->vc, from); }
static const char *op_text(Task *t) { static char b[64]; snprintf(b, sizeof b, "api call kind %u on object %d", t->api_kind, t->api_obj); return b; }
static inline Cell *cell_of(uintptr_t a)
{
	if(a - ARENA_AT < ARENA) return &cells[(a - ARENA_AT) >> 3];
	for(int i = 0; i < 2; ++i) if(a >= g_lo[i] && a < g_hi[i]) return &gcells[g_base[i] + ((a - g_lo[i]) >> 3)];
	return NULL;
}
static void race_report(uintptr_t a, bool w, int other, bool otherw, const char *what)
{
	Block *b = a - ARENA_AT < ARENA ? heap_block((void *)a) : NULL;
	fail(C_RACE, "unsynchronised %s by task %d and %s by task %d of %s (%s)", w ? "write" : "read", S.cur->id, otherw ? "write" : "read", other,
		b ? (b->tag == TAG_LIB ? "memory allocated by the library" : "memory handed to the library") : "a library global", what ? what : op_text(S.cur));
}
static inline void race1(uintptr_t a, u8 mask, bool w, const char *what)
{
	Cell *c = cell_of(a);
	if(!c) return;
	Task *t = S.cur; int id = slot_of(t->id); u32 clk = t->vc.c[id];
	if(c->run != S.run) { memset(c, 0, sizeof *c); c->run = S.run; c->wtask = 0xff; }
	if(c->wtask != 0xff && c->wtask != id && (c->wmask & mask) && c->wclk > t->vc.c[c->wtask])
	{
		int o = c->wtask; c->wtask = 0xff; race_report(a, w, o, true, what);
	}
	if(w)
	{
		for(int u = 0; u < MAXT; ++u) if(u != id && (c->rmask[u] & mask) && c->rclk[u] > t->vc.c[u])
		{
			c->rmask[u] = 0; race_report(a, w, u, false, what);
		}
		if(c->wtask == id && c->wclk == clk) c->wmask |= mask; else { c->wtask = id; c->wclk = clk; c->wmask = mask; }
	}
	else
	{
		if(c->rclk[id] == clk) c->rmask[id] |= mask; else { c->rclk[id] = clk; c->rmask[id] = mask; }
	}
}
static void race_range(uintptr_t a, size_t n, bool w, const char *what)
{
	while(n)
	{
		size_t off = a & 7, k = std::min<size_t>(8 - off, n);
		race1(a & ~7ul, (u8)(((1u << k) - 1) << off), w, what);
		a += k; n -= k;
	}
}
void race_access(const void *p, size_t n, bool w, const char *what) { if(S.active && S.fine && S.nt > 1) race_range((uintptr_t)p, n, w, what); }
static void race_reset(uintptr_t a, size_t n)
{
	if(S.nt <= 1) return;
	size_t g0 = (a - ARENA_AT) >> 3, g1 = (a - ARENA_AT + n + 7) >> 3;
	for(size_t g = g0; g < g1; ++g) cells[g].run = 0;
}
static void race_free(uintptr_t a, size_t n)
{
	if(!S.fine || S.nt <= 1 || !S.cur) return;
	size_t g0 = (a - ARENA_AT) >> 3, g1 = (a - ARENA_AT + n + 7) >> 3;
	for(size_t g = g0; g < g1; ++g) if(cells[g].run == S.run) race1(ARENA_AT + g * 8, 0xff, true, "free");
}
/* ------------------------------------------------------------------ scheduling */
extern "C" void sim_swtch(void **save, void *to);
asm(".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
	".size sim_swtch,.-sim_swtch\n");

struct Mtx { bool init; int owner; int kind; int depth; VC vc; };
struct Cnd { bool init; int clock; };
struct RwL { bool init; int writer; u32 readers; VC vc, rvc; };
static std::unordered_map<void *, Mtx> mtxs; static std::unordered_map<void *, Cnd> cnds; static std::unordered_map<void *, RwL> rwls;

HLock *hlock(int id)
{
	auto it = hlocks.find(id);
	if(it == hlocks.end()) { HLock h; memset(&h, 0, sizeof h); h.writer = -1; it = hlocks.emplace(id, h).first; }
	return &it->second;
}
static i64 clock_now(int c) { return c ? S.now : S.now + S.rt_off; }
i64 real_now() { return S.now + S.rt_off; }
bool task_runnable(const Task &t)
{
	switch(t.st)
	{
		case T_RUN: return !t.stalled || S.now >= t.wake;
		case T_MUTEX: return mtxs[t.wmutex].owner < 0;
		case T_COND: return t.signalled || t.spur || (t.timed && clock_now(t.wclock) >= t.deadline);
		case T_SLEEP: return S.now >= t.wake;
		case T_RW: { HLock *h = hlock(t.rw); return h->writer < 0 && (!t.rww || !h->readers); }
		case T_FD: return S.fd_ready && S.fd_ready(t.wfd);
		case T_JOIN: return S.t[t.wfd].st == T_DONE;
		default: return false;
	}
}
static void switch_to(Task *n)
{
	Task *o = S.cur;
	if(o == n) return;
	S.st.switches++;
	if(o && o->in_api) { o->switches_in_api++; S.st.inop_switches++; S.pre_switches++; }
	ev(1, n->id);
	if(o) o->err = errno;
	if(tls_size && o) { memcpy(o->tls, tls_at, tls_size); memcpy(tls_at, n->tls, tls_size); }
	S.cur = n;
	void *dummy;
	sim_swtch(o ? &o->sp : &dummy, n->sp);
	errno = S.cur->err;
}
static void pct_step(Task *t)
{
	S.pctstep++;
	while(S.pctpos < S.pct.size() && S.pctstep >= S.pct[S.pctpos]) { t->prio = --S.pctlow; S.pctpos++; }
}
/* runnable tasks other than `me`, in id order starting after me */
static int others(Task *me, Task **out)
{
	int n = 0;
	for(int k = 1; k <= S.nt; ++k)
	{
		Task &t = S.t[(me->id + k) % S.nt];
		if(&t != me && t.st != T_FREE && t.st != T_DONE && task_runnable(t)) out[n++] = &t;
	}
	return n;
}
static bool try_spurious(bool idle)
{
	if(!cfg(G_SPUR) || S.draining || S.spur_left <= 0) return false;
	Task *w[NTASK]; int n = 0;
	for(int i = 0; i < S.nt; ++i) if(S.t[i].st == T_COND && !S.t[i].signalled && !S.t[i].spur) w[n++] = &S.t[i];
	if(!n) return false;
	u32 v = choose(K_SPUR, MAXT, n + 1, idle ? cfg(G_SPUR) * 4 : cfg(G_SPUR));
	if(!v) return false;
	w[v - 1]->spur = true; S.spur_left--; fault(F_SPUR);
	tr("fault: spurious wake-up of T%d", w[v - 1]->id);
	return true;
}
static void reschedule() /* the current task cannot go on (or is done) */
{
	Task *me = S.cur;
	for(int guard = 0;; ++guard)
	{
		try_spurious(false);
		Task *o[NTASK]; int n = others(me, o);
		if(me->st != T_DONE && task_runnable(*me)) { for(int i = n; i > 0; --i) o[i] = o[i - 1]; o[0] = me; ++n; }
		if(n)
		{
			u32 v = 0;
			if(n > 1)
			{
				if(cfg(G_PCT) && !S.replay)
				{
					for(int i = 1; i < n; ++i) if(o[i]->prio > o[v]->prio) v = i;
					u32 idx = S.str[K_NEXT][MAXT].idx++; record(K_NEXT, MAXT, idx, v);
				}
				else v = pick(K_NEXT, MAXT, n);
			}
			Task *nx = o[v];
			if(nx->st == T_RUN) nx->stalled = false;
			switch_to(nx);
			return;
		}
		/* idle */
		if(S.on_idle) S.on_idle();
		if(try_spurious(true)) continue;
		i64 best = INT64_MAX;
		for(int i = 0; i < S.nt; ++i)
		{
			Task &t = S.t[i]; i64 w = INT64_MAX;
			if(t.st == T_RUN && t.stalled) w = t.wake;
			else if(t.st == T_SLEEP) w = t.wake;
			else if(t.st == T_COND && t.timed) w = t.wclock ? t.deadline : t.deadline - S.rt_off;
			if(w < best) best = w;
		}
		if(best != INT64_MAX)
		{
			if(best > S.now) S.now = best;
			if(cfg(G_LATE) && !S.draining && choose(K_LATE, MAXT, 2, cfg(G_LATE))) { S.now += 1 + (i64)(cfg(G_TICKNS) * 7); fault(F_LATE); tr("fault: timer fires late"); }
			ev(2, (u64)S.now);
			fault(F_TIMEOUT);
			continue;
		}
		Task *q = NULL;
		for(int i = 0; i < S.nt; ++i) if(S.t[i].st == T_QUIET) { q = &S.t[i]; break; }
		if(q) { q->st = T_RUN; q->stalled = false; if(q == me) return; switch_to(q); return; }
		fail(C_STUCK, "all tasks are blocked forever");
		end_run(O_FOREIGN);
	}
}
void block_on(TState st) { S.cur->st = st; reschedule(); S.cur->st = T_RUN; }
void yield(Kind k)
{
	Task *me = S.cur;
	++S.seq; if(++S.steps > 400000000ull) end_run(O_CUT);
	if(k == K_SYN && !S.draining)
	{
		try_spurious(false);
		if(cfg(G_TICK) && choose(K_TICK, me->id, 2, cfg(G_TICK))) { S.now += 1 + (i64)S.spec->cfg[G_TICKNS]; fault(F_TICK); ev(3, (u64)S.now); }
		if(cfg(G_JUMP)) { u32 v = choose(K_JUMP, me->id, 3, cfg(G_JUMP)); if(v) { S.rt_off += (v == 1 ? 1 : -1) * (1 + S.spec->cfg[G_JUMPNS]); fault(F_JUMP); tr("fault: clock jumps %s", v == 1 ? "forward" : "back"); ev(4, v); } }
		if(cfg(G_STALL) && choose(K_STALL, me->id, 2, cfg(G_STALL)))
		{
			fault(F_STALL); tr("fault: stalled");
			me->stalled = true; me->wake = S.now + 1 + S.spec->cfg[G_STALLNS];
			reschedule(); me->stalled = false;
			return;
		}
	}
	if(S.nt <= 1) return;
	u32 ppm = k == K_SYN ? cfg(G_SYN) : cfg(G_CBK);
	if(S.replay || !cfg(G_PCT))
	{
		/* ask before looking: the number of candidates must not shift the stream */
		u32 idx = S.str[k][slot_of(me->id)].idx++, v = 0;
		if(S.replay) { if(!forced_at(k, slot_of(me->id), idx, &v)) return; }
		else if(!S.rng.chance(ppm)) return;
		Task *o[NTASK]; int n = others(me, o);
		if(!n) return;
		if(!S.replay) v = 1 + (u32)S.rng.below(n);
		if(v > (u32)n) v = n;
		record(k, slot_of(me->id), idx, v);
		fault(F_PREEMPT);
		if(o[v - 1]->st == T_RUN) o[v - 1]->stalled = false;
		switch_to(o[v - 1]);
	}
	else
	{
		u32 idx = S.str[k][slot_of(me->id)].idx++;
		pct_step(me);
		Task *o[NTASK]; int n = others(me, o), b = -1;
		for(int i = 0; i < n; ++i) if(o[i]->prio > me->prio && (b < 0 || o[i]->prio > o[b]->prio)) b = i;
		if(b < 0) return;
		record(k, slot_of(me->id), idx, b + 1);
		fault(F_PREEMPT);
		if(o[b]->st == T_RUN) o[b]->stalled = false;
		switch_to(o[b]);
	}
}
static void mem_preempt(Task *me, u32 idx, u32 v)
{
	Task *o[NTASK]; int n = others(me, o);
	if(!n) return;
	if(cfg(G_PCT) && !S.replay)
	{
		int b = -1;
		for(int i = 0; i < n; ++i) if(o[i]->prio > me->prio && (b < 0 || o[i]->prio > o[b]->prio)) b = i;
		if(b < 0) return;
		v = b + 1;
	}
	else if(!S.replay) v = 1 + (u32)S.rng.below(n);
	if(v > (u32)n) v = n;
	record(K_MEM, me->id, idx, v);
	fault(F_PREEMPT);
	tr("preempted inside the library");
	if(o[v - 1]->st == T_RUN) o[v - 1]->stalled = false;
	switch_to(o[v - 1]);
}
static inline void mem_point()
{
	Task *me = S.cur;
	if(S.nt <= 1) return;
	u32 idx = (u32)S.memc[me->id]++;
	if(S.replay) { u32 v; if(!S.forced[K_MEM][me->id].empty() && forced_at(K_MEM, me->id, idx, &v)) mem_preempt(me, idx, v); }
	else if(cfg(G_PCT))
	{
		size_t p = S.pctpos; pct_step(me);
		if(S.pctpos != p) mem_preempt(me, idx, 0);
	}
	else if(--S.mem_next == 0) { S.mem_next = S.rng.geom(cfg(G_MEM)); mem_preempt(me, idx, 0); }
}
void cb_point() { yield(K_CBK); }
static void task_entry()
{
	(*S.cur->fn)();
	Task *t = S.cur;
	t->st = T_DONE;
	bool any = false;
	for(int i = 0; i < S.nt; ++i) if(S.t[i].st != T_DONE && S.t[i].st != T_FREE) any = true;
	if(!any) { S.out = O_OK; siglongjmp(main_jmp, 1); }
	reschedule();
	abort();
}
int spawn(std::function<void()> fn)
{
	if(S.nt >= NTASK || (is_fine() && S.nt >= MAXT)) harness_error("too many tasks");
	int id = S.nt++;
	Task *t = &S.t[id];
	char *st = t->stack, *tl = t->tls; auto *f = t->fn;
	memset((void *)t, 0, sizeof *t);
	memset(st + STACK_SIZE - 12288, 0x11 * (1 + (int)(cfg(G_FILL) & 7)), 12288); /* whatever ran here before must not show */
	t->id = id; t->stack = st; t->tls = tl; t->fn = f; *f = std::move(fn);
	t->st = T_RUN; t->wake = 0;
	t->vc.c[slot_of(id)] = 1;
	if(S.cur) { VC v; memset(&v, 0, sizeof v); vc_release(v); u32 own = t->vc.c[slot_of(id)]; t->vc = v; t->vc.c[slot_of(id)] = own; }
	t->prio = 1000 + (u32)S.rng.below(1000000);
	if(tls_size) { memset(t->tls, 0, tls_size); memcpy(t->tls, tls_image, tls_file); }
	void **sp = (void **)(st + STACK_SIZE - 64);
	*--sp = NULL; *--sp = (void *)task_entry;
	for(int i = 0; i < 6; ++i) *--sp = NULL;
	t->sp = sp;
	return id;
}
void sim_sleep(i64 ns) { Task *t = S.cur; t->wake = S.now + ns; block_on(T_SLEEP); }
void wait_quiet() { block_on(T_QUIET); for(int i = 0; i < S.nt; ++i) if(i != S.cur->id) vc_join(S.cur->vc, S.t[i].vc); }
void join(int t) { S.cur->wfd = t; if(S.t[t].st != T_DONE) block_on(T_JOIN); vc_join(S.cur->vc, S.t[t].vc); }
bool task_done(int t) { return S.t[t].st == T_DONE; }
void rw_lock(int id, bool w)
{
	yield(K_SYN);
	Task *t = S.cur; HLock *h = hlock(id);
	t->rw = id; t->rww = w;
	while(!(h->writer < 0 && (!w || !h->readers))) { block_on(T_RW); }
	if(w) { h->writer = t->id; vc_acquire(h->rvc); } else h->readers++;
	vc_acquire(h->wvc);
}
void rw_unlock(int id)
{
	HLock *h = hlock(id); Task *t = S.cur;
	if(h->writer == t->id) { vc_release(h->wvc); h->writer = -1; }
	else { vc_release(h->rvc); h->readers--; }
	yield(K_SYN);
}
/* ------------------------------------------------------------------ heap */
static const size_t RZ = 16;
Block *heap_block(const void *p)
{
	uintptr_t a = (uintptr_t)p;
	if(a - ARENA_AT >= ARENA) return NULL;
	u32 i = blk_of[(a - ARENA_AT) >> 3];
	if(i && blocks[i - 1].p == p) return &blocks[i - 1];
	/* blocks are created at increasing addresses */
	size_t lo = 0, hi = blocks.size();
	while(lo < hi) { size_t m = (lo + hi) / 2; if(blocks[m].p <= (char *)p) lo = m + 1; else hi = m; }
	if(lo) { Block &b = blocks[lo - 1]; if((char *)p < b.p + b.size + RZ) return &b; }
	if(lo < blocks.size() && (char *)p >= blocks[lo].p - RZ) return &blocks[lo];
	return NULL;
}
static Block *block_at(const void *p)
{
	uintptr_t a = (uintptr_t)p;
	if(a - ARENA_AT >= ARENA) return NULL;
	u32 i = blk_of[(a - ARENA_AT) >> 3];
	return i && blocks[i - 1].p == p ? &blocks[i - 1] : NULL;
}
static void set_ok(char *p, size_t n)
{
	size_t g = (p - arena) >> 3;
	memset(shadow + g, 0, n >> 3);
	if(n & 7) shadow[g + (n >> 3)] = n & 7;
}
static void dirty(char *p, size_t n, bool freed)
{
	switch(cfg(G_FILL))
	{
		case 0: memset(p, freed ? 0xdd : 0xa5, n); break;
		case 1: memset(p, freed ? 0xdd : 0x00, n); break;
		case 2: memset(p, freed ? 0xdd : 0xff, n); break;
		case 3: { u64 x = S.spec->cfg[G_SEED2] + blocks.size() * 77 + freed; for(size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (char)(x >> 56); } break; }
		default: break; /* stale contents, of this run */
	}
}
bool heap_live(const void *p, size_t n)
{
	uintptr_t a = (uintptr_t)p;
	if(a - ARENA_AT >= ARENA || a + n - ARENA_AT > ARENA) return false;
	while(n)
	{
		size_t off = a & 7, k = std::min<size_t>(8 - off, n);
		u8 s = shadow[(a - ARENA_AT) >> 3];
		if(s && (s > 7 || off + k > s)) return false;
		a += k; n -= k;
	}
	return true;
}
size_t heap_lib_bytes() { return lib_bytes; }
size_t heap_lib_blocks() { return lib_blocks; }
size_t heap_lib_peak() { return lib_peak; }
size_t heap_obj_bytes(int o) { auto i = obj_bytes.find(o); return i == obj_bytes.end() ? 0 : i->second; }
void heap_lib_peak_reset() { lib_peak = lib_bytes; }
void heap_each_live(const std::function<void(const Block &)> &f) { for(auto &b : blocks) if(b.live) f(b); }
static void retag(Block *b, u8 tag)
{
	if(b->tag == TAG_LIB) { lib_bytes -= b->size; lib_blocks--; obj_bytes[b->obj] -= b->size; }
	b->tag = tag;
	if(tag == TAG_LIB) { lib_bytes += b->size; obj_bytes[b->obj] += b->size; lib_blocks++; if(lib_bytes > lib_peak) lib_peak = lib_bytes; }
}
void heap_handover(void *p) { Block *b = block_at(p); if(b && b->live && b->tag == TAG_LIB) retag(b, TAG_NODE); }
void *heap_alloc(size_t n, Tag tag, bool zero)
{
	if(n > ARENA) return NULL; /* no such memory: an ordinary refusal */
	size_t r = (n + 15) & ~15ul; if(!r) r = 16;
	u32 bi = 0;
	if(cfg(G_RECYC))
	{
		auto it = freelist.find(r);
		if(it != freelist.end() && !it->second.empty())
		{
			auto &v = it->second; size_t k = v.size() - 1;
			bool take = true;
			if(cfg(G_RECYC) == 2) { u32 c = pick(K_RECYC, MAXT, (u32)std::min<size_t>(v.size(), 8) + 1); if(!c) take = false; else k = v.size() - c; }
			if(take) { bi = v[k]; v.erase(v.begin() + k); fault(F_RECYC); }
		}
	}
	char *p;
	if(bi) { Block &b = blocks[bi - 1]; p = b.p; b.size = n; b.live = true; b.tag = 0; }
	else
	{
		if(bump + r + 2 * RZ > ARENA) end_run(O_CUT);
		p = arena + bump + RZ;
		memset(shadow + (bump >> 3), 0xfa, (r + 2 * RZ) >> 3);
		bump += r + RZ; if(bump + RZ > bump_hi) bump_hi = bump + RZ;
		blocks.push_back({ p, n, 0, true, 0, 0 });
		bi = (u32)blocks.size();
		blk_of[(p - arena) >> 3] = bi;
	}
	Block &b = blocks[bi - 1];
	b.obj = S.cur ? S.cur->api_obj : -1; b.op = S.cur ? S.cur->api_kind : 0;
	memset(shadow + ((p - arena) >> 3), 0xfa, r >> 3);
	set_ok(p, n);
	race_reset((uintptr_t)p, r);
	if(zero) memset(p, 0, n); else dirty(p, n, false);
	retag(&b, tag);
	return p;
}
static void do_free(Block *b)
{
	if(b->tag == TAG_LIB) { lib_bytes -= b->size; lib_blocks--; obj_bytes[b->obj] -= b->size; }
	race_free((uintptr_t)b->p, b->size);
	b->live = false;
	size_t r = (b->size + 15) & ~15ul; if(!r) r = 16;
	memset(shadow + ((b->p - arena) >> 3), 0xfd, r >> 3);
	dirty(b->p, b->size, true);
	if(cfg(G_RECYC)) freelist[r].push_back((u32)(b - blocks.data()) + 1);
}
void heap_free(void *p, Tag tag, const char *who)
{
	if(!p) return;
	Block *b = block_at(p);
	if(!b || !b->live) { Block *x = b ? b : heap_block(p); fail(C_MEM, "%s of %s", who, x ? (x->live ? "a pointer into the middle of a block" : "memory that was already freed") : "a pointer that was never allocated"); return; }
	if(tag == TAG_LIB && b->tag == TAG_POOL) fail(C_POOLUSE, "a node that belongs to the given pool was released with free()");
	if(b->tag != tag && !(tag == TAG_LIB && b->tag == TAG_NODE)) { fail(C_MEM, "%s of memory the library does not own", who); return; }
	do_free(b);
}
void *heap_realloc(void *p, size_t n, const char *who)
{
	Block *b = block_at(p);
	if(!b || !b->live || (b->tag != TAG_LIB && b->tag != TAG_NODE)) { Block *x = b ? b : heap_block(p); fail(C_MEM, "%s of %s", who, x ? (x->live ? (b ? "memory the library does not own" : "a pointer into the middle of a block") : "memory that was already freed") : "a pointer that was never allocated"); return heap_alloc(n, TAG_LIB, false); }
	u8 tag = b->tag; size_t old = b->size;
	size_t ro = (old + 15) & ~15ul, rn = (n + 15) & ~15ul; if(!ro) ro = 16; if(!rn) rn = 16;
	bool last = b->p + ro == arena + bump && (size_t)(b->p - arena) + rn + 2 * RZ <= ARENA;
	if((rn <= ro || last) && choose(K_RMOVE, MAXT, 2, cfg(G_RMOVE)))
	{
		fault(F_RSTAY);
		if(tag == TAG_LIB) { lib_bytes += n; lib_bytes -= old; obj_bytes[b->obj] += n; obj_bytes[b->obj] -= old; if(lib_bytes > lib_peak) lib_peak = lib_bytes; }
		if(rn > ro) { bump += rn - ro; if(bump + RZ > bump_hi) bump_hi = bump + RZ; memset(shadow + ((b->p - arena) >> 3), 0xfa, (rn + RZ) >> 3); race_reset((uintptr_t)b->p + ro, rn - ro); }
		else { memset(shadow + ((b->p - arena) >> 3), 0xfa, ro >> 3); }
		/* a block never changes its size class while recycling is on, except the last one */
		b->size = n;
		set_ok(b->p, n);
		if(n > old) dirty(b->p + old, n - old, false);
		return b->p;
	}
	fault(F_RMOVE);
	size_t bi = b - blocks.data();
	char *q = (char *)heap_alloc(n, (Tag)tag, false);
	if(!q) return NULL;
	b = &blocks[bi];
	if(S.fine && S.nt > 1) race_range((uintptr_t)b->p, std::min(old, n), false, "realloc");
	memcpy(q, b->p, std::min(old, n)); S.cur->api_copy += std::min(old, n);
	if(S.fine && S.nt > 1) race_range((uintptr_t)q, std::min(old, n), true, "realloc");
	do_free(b);
	return q;
}
/* ------------------------------------------------------------------ library runtime */
bool is_fine() { return S.fine; }
static const u64 API_STEP_LIMIT = 12000000;
static inline bool in_lib() { return S.active && S.cur && S.cur->in_api; }
static void mem_report(uintptr_t a, size_t n, bool w)
{
	Block *b = heap_block((void *)a);
	const char *own = b ? (b->tag == TAG_LIB ? "allocated by the library" : "handed to the library") : "";
	if(b && !b->live) fail(C_MEM, "%s of %zu bytes in freed memory", w ? "write" : "read", n);
	else if(b) fail(C_MEM, "%s of %zu bytes outside a block of %zu bytes (offset %ld, %s)", w ? "write" : "read", n, b->size, (long)((char *)a - b->p), own);
	else fail(C_MEM, "%s of %zu bytes at memory nobody allocated", w ? "write" : "read", n);
}
/* an access that hits neither the simulated heap nor a stack nor a loaded image goes through a garbage pointer */
static inline void wild(uintptr_t a, bool w)
{
	if(a - STACK_AT < (STACK_SIZE + 65536) * NTASK) return;
	for(auto &r : images) if(a - r.first < r.second) return;
	if(a - (tls_end - 65536) < 65536 + 8192) return;
	fail(C_CRASH, "%s through a garbage pointer in a library call", w ? "write" : "read");
}
static inline void access_(uintptr_t a, size_t n, bool w)
{
	if(!in_lib()) return;
	S.st.memacc++;
	bool in_arena = a - ARENA_AT < ARENA;
	if(!in_arena && !cell_of(a)) { wild(a, w); return; }
	mem_point();
	if(in_arena)
	{
		size_t g = (a - ARENA_AT) >> 3, off = a & 7;
		if(off + n <= 8) { u8 s = shadow[g]; if(s && (s > 7 || off + n > s)) mem_report(a, n, w); }
		else if(!heap_live((void *)a, n)) mem_report(a, n, w);
	}
	if(S.nt > 1)
	{
		size_t off = a & 7;
		if(off + n <= 8) race1(a & ~7ul, (u8)(((1u << n) - 1) << off), w, NULL); else race_range(a, n, w, NULL);
	}
}
static void range_(uintptr_t a, size_t n, bool w)
{
	if(!in_lib() || !n) return;
	S.st.memacc++; S.cur->api_copy += n;
	bool in_arena = a - ARENA_AT < ARENA;
	if(!in_arena && !cell_of(a)) { wild(a, w); return; }
	mem_point();
	if(in_arena && !heap_live((void *)a, n))
	{
		size_t k = 0; while(k < n && heap_live((void *)(a + k), 1)) ++k;
		mem_report(a + k, n - k, w);
	}
	if(S.nt > 1) race_range(a, n, w, NULL);
}
static const size_t COVN = 1 << 16;
u8 cov_map[COVN];
size_t cov_count() { size_t n = 0; for(size_t i = 0; i < COVN; ++i) n += cov_map[i]; return n; }
extern "C"
{
extern char __start_libtext[] __attribute__((weak)), __stop_libtext[] __attribute__((weak));
void __sanitizer_cov_trace_pc(void)
{
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)__start_libtext;
	if(pc < COVN) cov_map[pc] = 1;
	if(!in_lib()) return;
	S.st.blocks++; S.steps++;
	if(++S.cur->api_steps > API_STEP_LIMIT && S.cur->api_steps > API_STEP_LIMIT + 64 * (u64)lib_bytes) fail(C_HANG, "a library call does not finish");
}
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define TS(n) \
void __tsan_read##n(void *a) { access_((uintptr_t)a, n, false); } \
void __tsan_write##n(void *a) { access_((uintptr_t)a, n, true); } \
void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, false); } \
void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, true); } \
void __tsan_read##n##_pc(void *a, void *) { access_((uintptr_t)a, n, false); } \
void __tsan_write##n##_pc(void *a, void *) { access_((uintptr_t)a, n, true); } \
void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, false); } \
void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *a, unsigned long n) { range_((uintptr_t)a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { range_((uintptr_t)a, n, true); }
}
static std::unordered_map<uintptr_t, VC> atomics;
static void at_point(uintptr_t a, size_t n, int mo, bool acq, bool rel, bool w)
{
	if(!in_lib()) return;
	yield(K_SYN);
	if(a - ARENA_AT < ARENA && !heap_live((void *)a, n)) mem_report(a, n, w);
	VC &v = atomics[a];
	if(acq && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) vc_acquire(v);
	if(rel && (mo == 3 || mo == 4 || mo == 5)) vc_release(v);
}
#define AT(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, false, false); return *a; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, false, true, true); *a = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = o + v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = o - v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = o & v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = o | v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = o ^ v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; *a = ~(o & v); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { at_point((uintptr_t)a, sizeof(T), mo, true, true, true); T o = *a; if(o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) { }
extern "C" void __tsan_atomic_signal_fence(int) { }

/* ---- allocation ---- */
static bool alloc_fault()
{
	Task *t = S.cur;
	if(!S.active || !t || S.draining || !cfg(G_AFAIL)) return false;
	static const u32 HARD = 1u << 30;
	bool f = choose(K_AFAIL, t->id, 2, cfg(G_AFAIL) & (HARD - 1)) != 0;
	if(f && cfg(G_APERSIST) && !S.replay) S.spec->cfg[G_AFAIL] = 1000000; /* from now on every allocation fails */
	if(f) { S.refusal = true; fault(F_AFAIL); t->alloc_failed = true; if(S.prop->mask & M(C_CRASH)) S.faulted = S.faulted || true; tr("fault: allocation refused"); errno = ENOMEM; }
	return f;
}
extern "C"
{
#define YS() do { if(S.active && S.cur) yield(K_SYN); } while(0)
void *simx_malloc(size_t n) { YS(); if(alloc_fault()) return NULL; void *p = heap_alloc(n, TAG_LIB, false); if(!p) errno = ENOMEM; return p; }
void *simx_calloc(size_t a, size_t b) { YS(); if(b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } if(alloc_fault()) return NULL; void *p = heap_alloc(a * b, TAG_LIB, true); if(!p) errno = ENOMEM; return p; }
void *simx_realloc(void *p, size_t n)
{
	YS();
	if(p && !n) { heap_free(p, TAG_LIB, "realloc"); return NULL; }
	if(alloc_fault()) return NULL;
	void *q = p ? heap_realloc(p, n, "realloc") : heap_alloc(n, TAG_LIB, false);
	if(!q) errno = ENOMEM;
	return q;
}
void *simx_reallocarray(void *p, size_t a, size_t b) { if(b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return simx_realloc(p, a * b); }
void simx_free(void *p) { if(!p) return; YS(); heap_free(p, TAG_LIB, "free"); }
void *simx_aligned_alloc(size_t, size_t n) { return simx_malloc(n); }
int simx_posix_memalign(void **o, size_t, size_t n) { void *p = simx_malloc(n); if(!p) return ENOMEM; *o = p; return 0; }
size_t simx_strlen(const char *s) { size_t n = strlen(s); range_((uintptr_t)s, n + 1, false); return n; }
char *simx_strdup(const char *s) { size_t n = simx_strlen(s) + 1; char *p = (char *)simx_malloc(n); if(p) { memcpy(p, s, n); range_((uintptr_t)p, n, true); } return p; }
char *simx_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); range_((uintptr_t)s, n, false); char *p = (char *)simx_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; range_((uintptr_t)p, n + 1, true); } return p; }
void *simx_memcpy(void *d, const void *s, size_t n) { range_((uintptr_t)s, n, false); range_((uintptr_t)d, n, true); if((char *)d < (char *)s + n && (char *)s < (char *)d + n && d != s && n) fail(C_MEM, "memcpy with overlapping areas"); return memmove(d, s, n); }
void *simx_mempcpy(void *d, const void *s, size_t n) { return (char *)simx_memcpy(d, s, n) + n; }
void *simx_memmove(void *d, const void *s, size_t n) { range_((uintptr_t)s, n, false); range_((uintptr_t)d, n, true); return memmove(d, s, n); }
void *simx_memset(void *d, int c, size_t n) { range_((uintptr_t)d, n, true); return memset(d, c, n); }
void simx_bzero(void *d, size_t n) { range_((uintptr_t)d, n, true); memset(d, 0, n); }
void *simx_memchr(const void *s, int c, size_t n) { void *r = (void *)memchr(s, c, n); range_((uintptr_t)s, r ? (char *)r - (char *)s + 1 : n, false); return r; }
void *simx_memrchr(const void *s, int c, size_t n) { void *r = (void *)memrchr(s, c, n); range_((uintptr_t)s, n, false); return r; }
int simx_memcmp(const void *a, const void *b, size_t n) { range_((uintptr_t)a, n, false); range_((uintptr_t)b, n, false); return memcmp(a, b, n); }
int simx_strcmp(const char *a, const char *b) { size_t k = 0; while(a[k] && a[k] == b[k]) ++k; range_((uintptr_t)a, k + 1, false); range_((uintptr_t)b, k + 1, false); return (unsigned char)a[k] - (unsigned char)b[k]; }
int simx_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while(k < n && a[k] && a[k] == b[k]) ++k; if(k == n) return 0; range_((uintptr_t)a, k + 1, false); range_((uintptr_t)b, k + 1, false); return (unsigned char)a[k] - (unsigned char)b[k]; }
char *simx_strcpy(char *d, const char *s) { simx_memcpy(d, s, strlen(s) + 1); return d; }
char *simx_strchr(const char *s, int c) { char *r = (char *)strchr(s, c); range_((uintptr_t)s, r ? r - s + 1 : strlen(s) + 1, false); return r; }

/* ---- process end and output ---- */
static void stop(const char *how) { if(!S.active) _exit(3); tr("the library ends the process: %s", how); ev(5); if(!S.refusal) { static char b[80]; snprintf(b, sizeof b, "the library ends the process (%s) although nothing it asked for was refused", how); fail(C_CRASH, "%s", b); } end_run(O_STOP); }
void simx_abort(void) { stop("abort"); }
void simx_exit(int) { stop("exit"); }
void simx__exit(int) { stop("_exit"); }
void simx_err(int, const char *, ...) { stop("err"); }
void simx_verr(int, const char *, ...) { stop("err"); }
void simx_errx(int, const char *, ...) { stop("errx"); }
void simx_assert_fail(const char *, const char *, unsigned, const char *) { stop("assert"); }
int simx_raise(int) { stop("raise"); return 0; }
void simx_perror(const char *) {}
int simx_fprintf(void *, const char *, ...) { return 0; }
int simx_fprintf_chk(void *, int, const char *, ...) { return 0; }
int simx_printf(const char *, ...) { return 0; }
int simx_printf_chk(int, const char *, ...) { return 0; }
int simx_vfprintf(void *, const char *, va_list) { return 0; }
int simx_puts(const char *) { return 0; }
int simx_fputs(const char *, void *) { return 0; }
int simx_fputc(int, void *) { return 0; }
int simx_putchar(int) { return 0; }
size_t simx_fwrite(const void *, size_t, size_t n, void *) { return n; }
int simx_fflush(void *) { return 0; }
void simx_warn(const char *, ...) {}
void simx_warnx(const char *, ...) {}
void simx_syslog(int, const char *, ...) {}

/* ---- descriptors ---- */
ssize_t simx_read(int fd, void *buf, size_t n)
{
	YS();
	if(!S.active || !fdops.read) { errno = EBADF; return -1; }
	return fdops.read(fd, buf, n);
}
ssize_t simx_read_chk(int fd, void *buf, size_t n, size_t) { return simx_read(fd, buf, n); }
ssize_t simx_recv(int fd, void *buf, size_t n, int) { return simx_read(fd, buf, n); }
struct simx_iovec { void *b; size_t n; };
ssize_t simx_readv(int fd, const struct simx_iovec *v, int c)
{
	/* one read of the total, scattered */
	size_t tot = 0; for(int i = 0; i < c; ++i) tot += v[i].n;
	char *tmp = (char *)malloc(tot + 1);
	ssize_t r = simx_read(fd, tmp, tot); size_t off = 0;
	for(int i = 0; i < c && r > 0 && off < (size_t)r; ++i) { size_t k = std::min(v[i].n, (size_t)r - off); range_((uintptr_t)v[i].b, k, true); memcpy(v[i].b, tmp + off, k); off += k; }
	int e = errno; free(tmp); errno = e;
	return r;
}
/* ---- time ---- */
int simx_gettimeofday(struct timeval *tv, void *) { YS(); i64 n = real_now(); tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; return 0; }
int simx_clock_gettime(int c, struct timespec *ts) { YS(); i64 n = c == 0 || c == 5 ? real_now() : S.now; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int simx_timespec_get(struct timespec *ts, int b) { simx_clock_gettime(0, ts); return b; }
long simx_time(long *o) { YS(); long v = real_now() / 1000000000; if(o) *o = v; return v; }
int simx_nanosleep(const struct timespec *r, struct timespec *) { if(S.active) sim_sleep(r->tv_sec * 1000000000ll + r->tv_nsec); return 0; }
int simx_clock_nanosleep(int, int, const struct timespec *r, struct timespec *) { return simx_nanosleep(r, NULL); }
int simx_usleep(unsigned us) { if(S.active) sim_sleep(us * 1000ll); return 0; }
unsigned simx_sleep(unsigned s) { if(S.active) sim_sleep(s * 1000000000ll); return 0; }
int simx_sched_yield(void) { YS(); return 0; }
static u64 rnd_state;
int simx_rand(void) { rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull; return (int)(rnd_state >> 33); }
long simx_random(void) { return simx_rand(); }
void simx_srand(unsigned) {}
int simx_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return *s >> 1 & 0x7fffffff; }

/* ---- pthread ---- */
static int perr(FaultId f, int bit)
{
	if(S.draining || !cfg(G_PERR) || !(cfg(G_PERRMASK) & bit)) return 0;
	static const int ini[] = { EAGAIN, ENOMEM, EPERM, EBUSY, EINVAL }, lck[] = { EINVAL, EAGAIN, EDEADLK, EPERM, ENOTRECOVERABLE }, wai[] = { EINVAL, EPERM, ENOTRECOVERABLE }, sig[] = { EINVAL, EAGAIN, ENOMEM };
	const int *e = bit == 1 ? ini : bit == 2 ? lck : bit == 4 ? wai : sig;
	u32 v = choose(K_PERR, S.cur->id, bit <= 2 ? 6 : 4, cfg(G_PERR));
	if(!v) return 0;
	if(cfg(G_PPERSIST) && !S.replay) S.spec->cfg[G_PERR] = 1000000;
	int rc = e[(v - 1) % (bit <= 2 ? 5 : 3)];
	fault(f); S.faulted = S.refusal = true; tr("fault: %s: %s", fault_name[f], strerrorname_np(rc));
	return rc;
}
int simx_pthread_mutex_init(void *m, const void *attr)
{
	YS();
	if(int e = perr(F_PINIT, 1)) { S.cur->init_failed = true; return e; }
	Mtx x; memset(&x, 0, sizeof x); x.init = true; x.owner = -1; x.kind = attr ? *(const int *)attr & 3 : 0;
	mtxs[m] = x;
	range_((uintptr_t)m, sizeof(pthread_mutex_t), true);
	memset(m, 0x4d, sizeof(pthread_mutex_t));
	S.cur->init_failed = false;
	return 0;
}
static Mtx *mtx(void *m, const char *what)
{
	auto it = mtxs.find(m);
	if(it == mtxs.end() || !it->second.init)
	{
		static const char zero[sizeof(pthread_mutex_t)] = { 0 };
		uintptr_t a = (uintptr_t)m;
		bool global = !(a - ARENA_AT < ARENA);
		if(global && !memcmp(m, zero, 16)) { Mtx x; memset(&x, 0, sizeof x); x.init = true; x.owner = -1; return &(mtxs[m] = x); } /* PTHREAD_MUTEX_INITIALIZER */
		fail(C_LOCK, "%s of a mutex that is not initialised", what);
		fail(C_CRASH, "%s of a mutex that is not initialised", what);
	}
	else if((uintptr_t)m - ARENA_AT < ARENA && !heap_live(m, sizeof(pthread_mutex_t))) fail(C_MEM, "%s of a mutex in freed memory", what);
	return &mtxs[m];
}
int simx_pthread_mutex_destroy(void *m)
{
	YS();
	Mtx *x = mtx(m, "destroy");
	if(x->owner >= 0) { fail(C_LOCK, "destroy of a locked mutex"); return EBUSY; }
	range_((uintptr_t)m, sizeof(pthread_mutex_t), true);
	x->init = false;
	return 0;
}
static int lock_(void *m, bool try_, const char *what)
{
	YS();
	Task *t = S.cur; Mtx *x = mtx(m, what);
	if(int e = perr(F_PLOCK, 2)) { t->lock_failed = true; return e; }
	if(x->owner == t->id)
	{
		if(x->kind == 1) { x->depth++; return 0; }
		if(x->kind == 2 || try_) return try_ ? EBUSY : EDEADLK;
	}
	if(try_ && x->owner >= 0) return EBUSY;
	t->wmutex = m;
	while(mtxs[m].owner >= 0) block_on(T_MUTEX);
	x = &mtxs[m];
	x->owner = t->id; t->held++; t->lock_failed = false;
	vc_acquire(x->vc);
	ev(6, t->id);
	return 0;
}
int simx_pthread_mutex_lock(void *m) { return lock_(m, false, "lock"); }
int simx_pthread_mutex_trylock(void *m) { return lock_(m, true, "trylock"); }
int simx_pthread_mutex_timedlock(void *m, const struct timespec *) { return lock_(m, false, "timedlock"); }
static void unlock_(Mtx *x) { vc_release(x->vc); x->owner = -1; S.cur->held--; }
int simx_pthread_mutex_unlock(void *m)
{
	Mtx *x = mtx(m, "unlock");
	if(x->owner != S.cur->id) { fail(C_LOCK, "unlock of a mutex the thread does not hold"); return EPERM; }
	if(x->depth) { x->depth--; return 0; }
	unlock_(x);
	YS();
	return 0;
}
int simx_pthread_mutexattr_init(void *a) { memset(a, 0, 4); return 0; }
int simx_pthread_mutexattr_destroy(void *) { return 0; }
int simx_pthread_mutexattr_settype(void *a, int k) { *(int *)a = k; return 0; }
int simx_pthread_condattr_init(void *a) { memset(a, 0, 4); return 0; }
int simx_pthread_condattr_destroy(void *) { return 0; }
int simx_pthread_condattr_setclock(void *a, int c) { *(int *)a = c; return 0; }
int simx_pthread_cond_init(void *c, const void *attr)
{
	YS();
	if(int e = perr(F_PINIT, 1)) { S.cur->init_failed = true; return e; }
	cnds[c] = { true, attr && *(const int *)attr == 1 ? 1 : 0 };
	range_((uintptr_t)c, sizeof(pthread_cond_t), true);
	memset(c, 0x43, sizeof(pthread_cond_t));
	S.cur->init_failed = false;
	return 0;
}
static Cnd *cnd(void *c, const char *what)
{
	auto it = cnds.find(c);
	if(it == cnds.end() || !it->second.init)
	{
		if(!((uintptr_t)c - ARENA_AT < ARENA)) { cnds[c] = { true, 0 }; return &cnds[c]; }
		fail(C_LOCK, "%s of a condition variable that is not initialised", what);
		fail(C_CRASH, "%s of a condition variable that is not initialised", what);
	}
	else if((uintptr_t)c - ARENA_AT < ARENA && !heap_live(c, sizeof(pthread_cond_t))) fail(C_MEM, "%s of a condition variable in freed memory", what);
	return &cnds[c];
}
int simx_pthread_cond_destroy(void *c)
{
	YS();
	Cnd *x = cnd(c, "destroy");
	for(int i = 0; i < S.nt; ++i) if(S.t[i].st == T_COND && S.t[i].wcond == c) { fail(C_LOCK, "destroy of a condition variable somebody waits on"); return EBUSY; }
	range_((uintptr_t)c, sizeof(pthread_cond_t), true);
	x->init = false;
	return 0;
}
static int wait_(void *c, void *m, const struct timespec *ts, int clk)
{
	YS();
	Task *t = S.cur; Cnd *x = cnd(c, "wait"); Mtx *y = mtx(m, "wait");
	if(clk < 0) clk = x->clock;
	if(int e = perr(F_PWAIT, 4)) { t->wait_failed = true; return e; }
	if(ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
	if(y->owner != t->id) { fail(C_LOCK, "wait on a condition variable without holding the mutex"); return EPERM; }
	t->wcond = c; t->signalled = t->spur = false; t->timed = ts != NULL; t->wclock = clk;
	if(ts) { __int128 d = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec; t->deadline = d > INT64_MAX / 8 * 7 ? INT64_MAX / 8 * 7 : (i64)d; }
	unlock_(y);
	ev(7, t->id);
	tr("waits%s", ts ? " with a deadline" : "");
	block_on(T_COND);
	bool sig = t->signalled, spur = t->spur; bool late = t->timed && clock_now(clk) >= t->deadline;
	t->wcond = NULL; t->signalled = t->spur = false;
	t->wmutex = m;
	while(mtxs[m].owner >= 0) block_on(T_MUTEX);
	y = &mtxs[m]; y->owner = t->id; t->held++;
	vc_acquire(y->vc);
	if(sig && late && !S.draining && choose(K_CONSUME, t->id, 2, 300000)) { sig = false; fault(F_CONSUME); tr("fault: the timeout swallows the signal"); } /* POSIX allows it */
	int rc = sig || (spur && !late) ? 0 : ETIMEDOUT;
	ev(8, t->id, rc);
	tr("wakes up: %s", sig ? "signalled" : rc ? "deadline" : "spurious");
	return rc;
}
int simx_pthread_cond_wait(void *c, void *m) { return wait_(c, m, NULL, -1); }
int simx_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) { return wait_(c, m, ts, -1); }
int simx_pthread_cond_clockwait(void *c, void *m, int clk, const struct timespec *ts) { return wait_(c, m, ts, clk); }
static int signal_(void *c, bool all)
{
	YS();
	cnd(c, "signal");
	if(int e = perr(F_PSIG, 8)) { S.cur->sig_failed = true; return e; }
	S.cur->sig_failed = false;
	Task *w[NTASK]; int n = 0;
	for(int i = 0; i < S.nt; ++i) if(S.t[i].st == T_COND && S.t[i].wcond == c && !S.t[i].signalled && !S.t[i].spur) w[n++] = &S.t[i];
	if(all) for(int i = 0; i < n; ++i) w[i]->signalled = true;
	else if(n) { u32 v = pick(K_SIG, MAXT, n); if(n > 1) fault(F_SIGPICK); w[v]->signalled = true; tr("signals T%d", w[v]->id); }
	YS();
	return 0;
}
int simx_pthread_cond_signal(void *c) { return signal_(c, false); }
int simx_pthread_cond_broadcast(void *c) { return signal_(c, true); }
} /* extern "C" */
size_t sync_objects()
{
	size_t n = 0;
	for(auto &m : mtxs) if(m.second.init && (uintptr_t)m.first - ARENA_AT < ARENA) ++n;
	for(auto &c : cnds) if(c.second.init && (uintptr_t)c.first - ARENA_AT < ARENA) ++n;
	return n;
}
extern "C" {
/* reader-writer locks, spin locks, semaphores (in case the library moves to them) */
int simx_pthread_rwlock_init(void *r, const void *) { YS(); RwL x; memset(&x, 0, sizeof x); x.init = true; x.writer = -1; rwls[r] = x; return 0; }
static RwL *rwl(void *r) { auto it = rwls.find(r); if(it == rwls.end()) { RwL x; memset(&x, 0, sizeof x); x.init = true; x.writer = -1; return &(rwls[r] = x); } return &it->second; }
int simx_pthread_rwlock_destroy(void *r) { rwls.erase(r); return 0; }
static std::function<bool()> g_pred;
static void spin_until(const std::function<bool()> &p) { while(!p()) { Task *t = S.cur; t->wake = S.now + 1000; block_on(T_SLEEP); } }
int simx_pthread_rwlock_rdlock(void *r) { YS(); rwl(r); spin_until([r] { return rwl(r)->writer < 0; }); RwL *x = rwl(r); x->readers++; S.cur->held++; vc_acquire(x->vc); return 0; }
int simx_pthread_rwlock_wrlock(void *r) { YS(); rwl(r); spin_until([r] { return rwl(r)->writer < 0 && !rwl(r)->readers; }); RwL *x = rwl(r); x->writer = S.cur->id; S.cur->held++; vc_acquire(x->vc); vc_acquire(x->rvc); return 0; }
int simx_pthread_rwlock_unlock(void *r) { RwL *x = rwl(r); if(x->writer == S.cur->id) { vc_release(x->vc); x->writer = -1; } else { vc_release(x->rvc); x->readers--; } S.cur->held--; YS(); return 0; }
int simx_pthread_spin_init(void *m, int) { Mtx x; memset(&x, 0, sizeof x); x.init = true; x.owner = -1; mtxs[m] = x; return 0; }
int simx_pthread_spin_lock(void *m) { return lock_(m, false, "lock"); }
int simx_pthread_spin_trylock(void *m) { return lock_(m, true, "lock"); }
int simx_pthread_spin_unlock(void *m) { return simx_pthread_mutex_unlock(m); }
int simx_pthread_spin_destroy(void *m) { mtxs.erase(m); return 0; }
unsigned long simx_pthread_self(void) { return S.cur ? S.cur->id + 1 : 0; }
static std::set<void *> onces;
int simx_pthread_once(void *o, void (*f)(void)) { YS(); if(onces.insert(o).second) f(); return 0; }
}

/* ------------------------------------------------------------------ one run */
Result run_once(const PropInfo *p, Spec &spec0, u64 seed, const std::vector<Choice> *forced, bool trace, WorldMain w)
{
	Spec spec = spec0; /* configuration may be changed by persistent faults */
	S.prop = p; S.spec = &spec; S.trace = trace; S.replay = forced != NULL;
	S.rng.seed(seed);
	for(auto &a : S.forced) for(auto &b : a) b.clear();
	if(forced)
	{
		for(auto &c : *forced) if(c.kind < K_COUNT && c.slot <= MAXT) S.forced[c.kind][c.slot].push_back(c);
		for(auto &a : S.forced) for(auto &b : a) std::sort(b.begin(), b.end(), [](const Choice &x, const Choice &y) { return x.idx < y.idx; });
	}
	memset(S.str, 0, sizeof S.str);
	S.rec.clear(); S.log.clear();
	S.nt = 0; S.cur = NULL;
	S.now = S.start_now = 1000000000000ll; S.rt_off = 1700000000000000000ll - S.now + spec.cfg[G_PHASE];
	S.hash = 0xcbf29ce484222325ull; S.seq = S.steps = 0;
	memset(S.memc, 0, sizeof S.memc);
	S.mem_next = S.rng.geom(cfg(G_MEM));
	S.pct.clear(); S.pctpos = 0; S.pctstep = 0; S.pctlow = 1000;
	for(u32 i = 0; i + 1 < cfg(G_PCT); ++i) S.pct.push_back(1 + S.rng.below((u64)spec.cfg[G_PCTLEN] + 1));
	std::sort(S.pct.begin(), S.pct.end());
	S.ended = S.faulted = S.refusal = S.draining = false; S.remap = C_NONE; S.out = O_OK; S.cls = C_NONE; S.msg.clear();
	S.run++; S.spur_left = 40; S.on_idle = nullptr; S.fd_ready = nullptr; fdops.read = nullptr; S.pre_switches = 0;
	S.strict = !spec.cfg[G_TICK] && !spec.cfg[G_STALL] && !spec.cfg[G_LATE] && !spec.cfg[G_JUMP];
	/* heap */
	{ size_t hi = std::min(bump_hi + 64, ARENA); memset(arena, 0, hi); memset(shadow, 0xfa, hi >> 3); memset(blk_of, 0, (hi >> 3) * 4); }
	bump = 64; bump_hi = 64; blocks.clear(); freelist.clear(); lib_bytes = lib_blocks = lib_peak = 0; obj_bytes.clear();
	mtxs.clear(); cnds.clear(); rwls.clear(); hlocks.clear(); atomics.clear(); onces.clear(); rnd_state = 1;
	char *lo[2] = { __start_libdata, __start_libbss };
	for(int i = 0; i < 2; ++i) if(!g_snap[i].empty()) memcpy(lo[i], g_snap[i].data(), g_snap[i].size());
	u64 f0 = 0; for(u64 x : S.st.faults) f0 += x;
	u64 sw0 = S.st.inop_switches;
	S.st.runs++;
	S.active = true;
	hang_cnt = 0; hang_run = 0;
	if(sigsetjmp(main_jmp, 1) == 0)
	{
		spawn([w] { w(); });
		Task *t = &S.t[0];
		if(tls_size) memcpy(tls_at, t->tls, tls_size);
		S.cur = t;
		void *dummy;
		sim_swtch(&dummy, t->sp);
		abort();
	}
	S.active = false;
	if(S.out == O_FAIL && (S.cls == C_CRASH || S.cls == C_HANG)) /* set by a signal handler or fail() */
	{
		if(S.remap) S.cls = S.remap;
		bool on = (p->mask & M(S.cls)) && (!p->need_fault || S.faulted);
		if(!on) S.out = O_FOREIGN;
	}
	S.st.outcome[S.out]++;
	S.st.simns += (u64)(S.now - S.start_now);
	Result r; r.out = S.out; r.cls = S.cls; r.msg = S.msg; r.hash = S.hash;
	for(u64 x : S.st.faults) r.nontrivial += x;
	r.nontrivial -= f0; r.nontrivial += S.st.inop_switches - sw0;
	r.choices = S.rec;
	S.cur = NULL; S.spec = NULL; S.on_idle = nullptr;
	return r;
}
