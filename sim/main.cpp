/* Command line: run / replay / selftest. */
#include "world.h"
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>

void step_report();
std::string qw_op_name(const Op &o);
std::string cw_op_name(const Op &o);
std::string op_name(i64 w, const Op &o) { return w == 0 ? qw_op_name(o) : cw_op_name(o); }

#define COMMON (M(C_CRASH) | M(C_HANG))
#define QALL (COMMON | M(C_MEM) | M(C_RACE) | M(C_LOCK) | M(C_STUCK) | M(C_LEAK) | M(C_EXACT) | M(C_LIN) | M(C_WAKE) | M(C_BPOP) | M(C_OWNQ) | M(C_NOLOCK) | M(C_POOLUSE) | M(C_POOLOV))
#define CALL (COMMON | M(C_MEM) | M(C_LEAK) | M(C_STREAM) | M(C_LIMIT) | M(C_TEXT) | M(C_FDREAD) | M(C_POOLOV) | M(C_POOLUSE) | M(C_MAP) | M(C_ITER) | M(C_OWNMAP) | M(C_LIST) | M(C_SORT) | M(C_SQ) | M(C_OWNLIST))
const PropInfo props[] =
{
	{ "Q01", 0, COMMON | M(C_EXACT), false, 1 },
	{ "Q02", 0, COMMON | M(C_LIN) | M(C_EXACT), false, 2 },
	{ "Q03", 0, COMMON | M(C_WAKE) | M(C_STUCK) | M(C_LOCK), false, 3 },
	{ "Q04", 0, COMMON | M(C_BPOP), false, 4 },
	{ "Q05", 0, COMMON | M(C_TIME), false, 5 },
	{ "Q06", 0, COMMON | M(C_RACE) | M(C_LOCK), false, 6 },
	{ "Q07", 0, COMMON | M(C_OWNQ) | M(C_LEAK), false, 7 },
	{ "Q08", 0, QALL, true, 8 },
	{ "B01", 1, COMMON | M(C_STREAM), false, 101 },
	{ "B02", 1, COMMON | M(C_LIMIT), false, 102 },
	{ "B03", 1, COMMON | M(C_TEXT) | M(C_MEM), false, 103 },
	{ "B04", 1, COMMON | M(C_FDREAD) | M(C_STUCK) | M(C_MEM), false, 104 },
	{ "P01", 1, COMMON | M(C_POOLOV) | M(C_MEM), false, 111 },
	{ "P02", 1, COMMON | M(C_POOLREUSE) | M(C_LEAK), false, 112 },
	{ "P03", 1, COMMON | M(C_POOLUSE) | M(C_POOLOV), false, 113 },
	{ "M01", 1, COMMON | M(C_MAP), false, 121 },
	{ "M02", 1, COMMON | M(C_MAP), false, 122 },
	{ "M03", 1, COMMON | M(C_MAP), false, 123 },
	{ "M04", 1, COMMON | M(C_ITER), false, 124 },
	{ "M05", 1, COMMON | M(C_OWNMAP), false, 125 },
	{ "M06", 1, COMMON | M(C_COST), false, 126 },
	{ "L01", 1, COMMON | M(C_LIST), false, 131 },
	{ "L02", 1, COMMON | M(C_LIST), false, 132 },
	{ "L03", 1, COMMON | M(C_SORT), false, 133 },
	{ "L04", 1, COMMON | M(C_SQ), false, 134 },
	{ "L05", 1, COMMON | M(C_OWNLIST), false, 135 },
	{ "X01", 2, CALL | QALL, true, 20 },
	{ "X02", 2, COMMON | M(C_MEM) | M(C_LEAK) | M(C_BOUND), false, 21 },
	{ "X03", 3, M(C_RACE) | M(C_DIFF), false, 141 },
	{ "X04", 3, M(C_RACE) | M(C_DIFF), false, 142 },
	{ "X05", 1, COMMON | M(C_STEPS), false, 143 },
	{ "X06", 3, M(C_NEST), false, 144 },
	{ NULL, 0, 0, false, 0 }
};
const PropInfo *find_prop(const char *id)
{
	for(const PropInfo *p = props; p->id; ++p) if(!strcmp(p->id, id)) return p;
	harness_error("unknown property %s", id);
}
WorldMain world_of(i64 w) { return w == 0 ? qw_main : w == 1 ? cw_main : dw_main; }
void gen_for(const PropInfo *p, u64 seed, Spec &s, WorldMain *w, i64 *world)
{
	Rng r; r.seed(seed ^ 0x5151515151ull);
	i64 k = p->world;
	if(k == 2) k = r.one_in(5) ? 0 : 1;
	if(k == 3) k = 2;
	if(k == 0) qw_gen(r, s, p); else if(k == 1) cw_gen(r, s, p); else dw_gen(r, s, p);
	*world = k; *w = world_of(k);
}
static u64 hash_str(const char *s) { u64 h = 0xcbf29ce484222325ull; while(*s) { h ^= (u8)*s++; h *= 0x100000001b3ull; } return h; }
static u64 run_seed(u64 seed, const PropInfo *p, u64 i) { Rng r; r.seed(seed * 0x9e3779b97f4a7c15ull ^ hash_str(p->id) ^ (i << 20)); return r.next(); }
extern const bool FLAVOUR_FINE;
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

/* ---- replay files ---- */
struct Case { const PropInfo *p; i64 world; Spec s; std::vector<Choice> ch; Cls cls; std::string msg; u64 hash; u64 index, seed; };
static void write_case(FILE *f, const Case &c)
{
	fprintf(f, "property %s\nworld %lld\nflavour %s\nclass %s\nhash %016llx\nfound seed=%llu run=%llu\nmessage %s\n", c.p->id, (long long)c.world, FLAVOUR_FINE ? "fine" : "plain", cls_name[c.cls], (unsigned long long)c.hash, (unsigned long long)c.seed, (unsigned long long)c.index, c.msg.c_str());
	for(int i = 0; i < G_COUNT; ++i) if(c.s.cfg[i]) fprintf(f, "cfg %s %lld\n", cfg_name[i], (long long)c.s.cfg[i]);
	for(auto &o : c.s.objs) { fprintf(f, "obj"); for(i64 v : o) fprintf(f, " %lld", (long long)v); fprintf(f, "\n"); }
	for(size_t t = 0; t < c.s.tasks.size(); ++t)
	{
		fprintf(f, "task %zu\n", t + 1);
		for(auto &o : c.s.tasks[t]) fprintf(f, "op %d %lld %lld %lld %lld %lld # %s\n", o.code, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2], (long long)o.a[3], (long long)o.a[4], op_name(c.world, o).c_str());
	}
	for(auto &x : c.ch) fprintf(f, "choice %s %d %u %u\n", kind_name[x.kind], x.slot, x.idx, x.val);
}
static bool read_case(const char *path, Case &c)
{
	FILE *f = fopen(path, "r");
	if(!f) return false;
	char line[4096];
	while(fgets(line, sizeof line, f))
	{
		char k[64]; int n = 0;
		if(line[0] == '#' || sscanf(line, "%63s%n", k, &n) != 1) continue;
		char *r = line + n; char w[64]; long long v; unsigned a, b, d;
		if(!strcmp(k, "property")) { sscanf(r, "%63s", w); c.p = find_prop(w); }
		else if(!strcmp(k, "world")) { sscanf(r, "%lld", &v); c.world = v; }
		else if(!strcmp(k, "class")) { sscanf(r, "%63s", w); for(int i = 0; i < C_COUNT; ++i) if(!strcmp(w, cls_name[i])) c.cls = (Cls)i; }
		else if(!strcmp(k, "hash")) { unsigned long long h; sscanf(r, "%llx", &h); c.hash = h; }
		else if(!strcmp(k, "cfg")) { sscanf(r, "%63s %lld", w, &v); for(int i = 0; i < G_COUNT; ++i) if(!strcmp(w, cfg_name[i])) c.s.cfg[i] = v; }
		else if(!strcmp(k, "obj")) { std::vector<i64> o; int m; while(sscanf(r, "%lld%n", &v, &m) == 1) { o.push_back(v); r += m; } c.s.objs.push_back(o); }
		else if(!strcmp(k, "task")) c.s.tasks.emplace_back();
		else if(!strcmp(k, "op")) { Op o; long long x[5]; if(sscanf(r, "%d %lld %lld %lld %lld %lld", &o.code, x, x + 1, x + 2, x + 3, x + 4) == 6) { for(int i = 0; i < 5; ++i) o.a[i] = x[i]; c.s.tasks.back().push_back(o); } }
		else if(!strcmp(k, "choice")) { if(sscanf(r, "%63s %u %u %u", w, &a, &b, &d) == 4) for(int i = 0; i < K_COUNT; ++i) if(!strcmp(w, kind_name[i])) c.ch.push_back({ (u8)i, (u8)a, b, d }); }
	}
	fclose(f);
	return true;
}
/* ---- minimisation ---- */
struct Min
{
	Case &c; double until; u64 tries = 0;
	bool attempt(const Spec &s, const std::vector<Choice> &ch)
	{
		if(now_s() > until) return false;
		++tries;
		Spec t = s;
		Result r = run_once(c.p, t, 1, &ch, false, world_of(c.world));
		if(r.out != O_FAIL || r.cls != c.cls) return false;
		c.s = s; c.ch = r.choices; c.msg = r.msg; c.hash = r.hash;
		return true;
	}
	bool attempt_seeds(const Spec &s, int n)
	{
		for(int i = 0; i < n && now_s() < until; ++i)
		{
			++tries;
			Spec t = s;
			Result r = run_once(c.p, t, 1000 + i, NULL, false, world_of(c.world));
			if(r.out == O_FAIL && r.cls == c.cls) { c.s = s; c.ch = r.choices; c.msg = r.msg; c.hash = r.hash; return true; }
		}
		return false;
	}
	bool try_spec(const Spec &s, int seeds) { return attempt(s, c.ch) || (seeds && attempt_seeds(s, seeds)); }
	void choices()
	{
		if(c.ch.size() && attempt(c.s, {})) return;
		for(size_t n = c.ch.size(); n >= 1 && now_s() < until; n /= 2)
		{
			for(size_t i = 0; i < c.ch.size() && now_s() < until;)
			{
				std::vector<Choice> ch = c.ch;
				ch.erase(ch.begin() + i, ch.begin() + std::min(i + n, ch.size()));
				size_t before = c.ch.size();
				if(attempt(c.s, ch) && c.ch.size() < before) continue;
				i += n;
			}
			if(n == 1) break;
		}
	}
	void go()
	{
		for(int round = 0; round < 4 && now_s() < until; ++round)
		{
			size_t ops0 = 0; for(auto &t : c.s.tasks) ops0 += t.size();
			size_t ch0 = c.ch.size();
			for(size_t t = 0; t < c.s.tasks.size(); ++t) if(!c.s.tasks[t].empty()) { Spec s = c.s; s.tasks[t].clear(); try_spec(s, 12); }
			for(size_t t = 0; t < c.s.tasks.size(); ++t)
				for(size_t n = std::max<size_t>(1, c.s.tasks[t].size() / 2);; n /= 2)
				{
					for(size_t i = 0; i < c.s.tasks[t].size() && now_s() < until;)
					{
						Spec s = c.s; auto &o = s.tasks[t];
						o.erase(o.begin() + i, o.begin() + std::min(i + n, o.size()));
						if(!try_spec(s, round < 2 ? 6 : 0)) i += n;
					}
					if(n <= 1) break;
				}
			choices();
			for(int k = 0; k < G_COUNT; ++k) if(c.s.cfg[k] && k < G_W0 && k != G_PHASE) { Spec s = c.s; s.cfg[k] = 0; try_spec(s, 0); }
			for(auto &t : c.s.tasks) for(auto &o : t) (void)o;
			for(size_t t = 0; t < c.s.tasks.size(); ++t) for(size_t i = 0; i < c.s.tasks[t].size(); ++i) for(int k = 0; k < 5; ++k)
			{
				i64 v = c.s.tasks[t][i].a[k];
				for(i64 nv : { (i64)0, (i64)1, v / 2, v - 1 }) if(nv >= 0 && nv < c.s.tasks[t][i].a[k]) { Spec s = c.s; s.tasks[t][i].a[k] = nv; if(try_spec(s, 0)) break; }
			}
			size_t ops1 = 0; for(auto &t : c.s.tasks) ops1 += t.size();
			if(ops1 == ops0 && c.ch.size() == ch0) break;
		}
		/* drop empty tasks at the end */
		while(c.s.tasks.size() && c.s.tasks.back().empty()) { Spec s = c.s; s.tasks.pop_back(); if(!attempt(s, c.ch)) break; }
	}
};
static void put_json_stats(FILE *f, const Stats &t, double wall, size_t distinct, size_t nontriv)
{
	fprintf(f, "\"runs\":%llu,\"ops\":%llu,\"switches\":%llu,\"inop_switches\":%llu,\"memacc\":%llu,\"blocks\":%llu,\"sim_s\":%.3f,\"wall\":%.3f,\"distinct\":%zu,\"nontrivial\":%zu,\"cov\":%zu",
		(unsigned long long)t.runs, (unsigned long long)t.ops, (unsigned long long)t.switches, (unsigned long long)t.inop_switches, (unsigned long long)t.memacc, (unsigned long long)t.blocks, (double)t.simns / 1e9, wall, distinct, nontriv, cov_count());
	fprintf(f, ",\"outcome\":{\"ok\":%llu,\"stopped\":%llu,\"violation\":%llu,\"other\":%llu,\"cut\":%llu}", (unsigned long long)t.outcome[0], (unsigned long long)t.outcome[1], (unsigned long long)t.outcome[2], (unsigned long long)t.outcome[3], (unsigned long long)t.outcome[4]);
	fprintf(f, ",\"faults\":{"); for(int i = 0; i < F_COUNT; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long)t.faults[i]);
	fprintf(f, "},\"probes\":{"); bool first = true; for(int i = 0; i < 96; ++i) if(probe_name[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", probe_name[i], (unsigned long long)t.probes[i]); first = false; }
	fprintf(f, "}");
}
const char *const probe_name[96] =
{
	"idle_with_waiting_consumer", "linearizability_decided", "linearizability_gave_up", "clear_removed_items", "long_history", "consumer_released_by_extra_push",
	"crowd_of_consumers", NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
	/* 32 */ "set_new", "set_replaced", "set_overwrote_key", "remove_hit", "remove_miss", "lookup_hit", "lookup_miss", "pair_value_set", "iterated_empty_map", "iterated_map", "iterator_reused", "concurrent_iterators",
	/* 44 */ "list_sorted_middle", "list_sorted_front", "list_sorted_back", "list_removed_middle", "list_removed_tail", "list_removed_all_equal", "list_find_hit", "list_find_miss", "pop_empty", "data_freed_explicitly",
	/* 54 */ "buffer_line", "buffer_incomplete_tail", "buffer_became_invalid", "buffer_exactly_full", "buffer_grew", "destination_enlarged", "destination_reused", "fd_eof", "fd_error", "fd_short", "fd_blocked_then_data", "fd_large_count",
	/* 66 */ "pool_item_reused", "pool_grew", "pool_destroyed_with_live_items", "shared_pool_containers", "null_value", "map_over_1000_entries", "map_over_5000_entries", "container_destroyed_nonempty", "container_cleared_nonempty", "empty_line", "key_collision", "alloc_failed_survived", "bulk_churn", "container_over_65535_elements", "poked_while_growing", "stored_key_passed", "map_used_while_iterating", "shared_data_released_once_more",
};
static int cmd_run(int argc, char **argv)
{
	if(argc < 9) harness_error("run PROP SEED START COUNT STEP SECONDS OUT HASHES");
	const PropInfo *p = find_prop(argv[1]);
	u64 seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10);
	double secs = atof(argv[6]); const char *out = argv[7], *hf = argv[8];
	S.fine = FLAVOUR_FINE;
	double t0 = now_s();
	std::unordered_set<u64> hs, nt;
	bool found = false; u64 done = 0; std::string status = "ok"; std::vector<std::string> samples; int unrepeatable = 0;
	for(u64 i = start; i < count; i += step)
	{
		if(now_s() - t0 > secs) break;
		Spec s; WorldMain w; i64 world; u64 rs = run_seed(seed, p, i);
		gen_for(p, rs, s, &w, &world);
		Result r = run_once(p, s, rs, NULL, false, w);
		++done;
		hs.insert(r.hash); if(r.nontrivial) nt.insert(r.hash);
		if(samples.size() < 2 && r.nontrivial && r.out == O_OK && world == (p->world == 3 ? 2 : p->world == 2 ? 1 : p->world))
		{
			char b[1200]; int n = snprintf(b, sizeof b, "run %llu seed %llu: %zu objects", (unsigned long long)i, (unsigned long long)rs, s.objs.size());
			for(size_t t = 0; t < s.tasks.size() && n < 900; ++t) { n += snprintf(b + n, sizeof b - n, "; T%zu:", t + 1); for(size_t k = 0; k < s.tasks[t].size() && n < 850; ++k) n += snprintf(b + n, sizeof b - n, " %s,", op_name(world, s.tasks[t][k]).c_str()); }
			n += snprintf(b + n, sizeof b - n, " | %zu nonzero choices, hash %016llx", r.choices.size(), (unsigned long long)r.hash);
			std::string x = b; for(char &ch : x) if(ch == '"' || ch == '\\' || (u8)ch < 32) ch = ' ';
			samples.push_back(x);
		}
		if(r.out != O_FAIL) continue;
		/* gate: same seed again, then recorded choices */
		Case c; c.p = p; c.world = world; c.s = s; c.ch = r.choices; c.cls = r.cls; c.msg = r.msg; c.hash = r.hash; c.index = i; c.seed = seed;
		bool hang = r.cls == C_HANG;
		Spec s2 = s; Result r2 = run_once(p, s2, rs, NULL, false, w);
		Spec s3 = s; Result r3 = run_once(p, s3, 1, &c.ch, false, w);
		if(r2.out != O_FAIL || r2.cls != r.cls || r3.out != O_FAIL || r3.cls != r.cls || (!hang && (r2.hash != r.hash || r3.hash != r.hash)))
		{
			/* the library acted on memory the simulator does not control: look for another run that repeats exactly */
			Result &x = r2.out != O_FAIL || r2.cls != r.cls || (!hang && r2.hash != r.hash) ? r2 : r3;
			fprintf(stderr, "run %llu of %s is not repeatable (%s: %s / %d %s: %s)\n", (unsigned long long)i, p->id, cls_name[r.cls], r.msg.c_str(), x.out, cls_name[x.cls], x.msg.c_str());
			if(++unrepeatable > 400) break;
			continue;
		}
		size_t o0 = 0; for(auto &t : s.tasks) o0 += t.size();
		size_t c0 = c.ch.size();
		Min m { c, now_s() + (hang ? 25 : 15) };
		m.go();
		Spec s4 = c.s; Result r4 = run_once(p, s4, 1, &c.ch, true, w);
		if(r4.out != O_FAIL || r4.cls != c.cls) { fprintf(stderr, "minimised run does not replay\n"); ++unrepeatable; continue; }
		c.hash = r4.hash; c.msg = r4.msg; c.ch = r4.choices;
		size_t o1 = 0; for(auto &t : c.s.tasks) o1 += t.size();
		std::string path = std::string(out) + ".replay";
		FILE *f = fopen(path.c_str(), "w");
		if(!f) harness_error("cannot write %s", path.c_str());
		fprintf(f, "# minimised from %zu operations and %zu non-default choices to %zu and %zu in %llu attempts\n", o0, c0, o1, c.ch.size(), (unsigned long long)m.tries);
		write_case(f, c);
		fprintf(f, "# trace:\n"); for(auto &l : S.log) fprintf(f, "# %s\n", l.c_str());
		fclose(f);
		found = true; status = "violation";
		break;
	}
	FILE *f = fopen(out, "w");
	if(!f) harness_error("cannot write %s", out);
	fprintf(f, "{\"status\":\"%s\",\"done\":%llu,", status.c_str(), (unsigned long long)done);
	put_json_stats(f, S.st, now_s() - t0, hs.size(), nt.size());
	fprintf(f, ",\"samples\":["); for(size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", samples[i].c_str());
	fprintf(f, "]}\n");
	fclose(f);
	f = fopen(hf, "w");
	if(f) { for(u64 h : nt) fwrite(&h, 8, 1, f); fclose(f); }
	std::string cp = std::string(hf) + ".cov";
	f = fopen(cp.c_str(), "w");
	if(f) { fwrite(cov_map, 1, 65536, f); fclose(f); }
	return found ? 1 : unrepeatable ? 4 : 0;
}
static int cmd_replay(int argc, char **argv)
{
	if(argc < 2) harness_error("replay FILE");
	Case c = {}; c.p = NULL;
	if(!read_case(argv[1], c) || !c.p) harness_error("cannot read %s", argv[1]);
	S.fine = FLAVOUR_FINE;
	Result r = run_once(c.p, c.s, 1, &c.ch, true, world_of(c.world));
	bool quiet = argc > 2 && !strcmp(argv[2], "-q");
	if(!quiet) for(auto &l : S.log) printf("%s\n", l.c_str());
	bool same = r.out == O_FAIL && r.cls == c.cls && (c.cls == C_HANG || r.hash == c.hash);
	if(same) { printf("reproduced: %s: %s (hash %016llx)\n", cls_name[r.cls], r.msg.c_str(), (unsigned long long)r.hash); return 1; }
	printf("not reproduced: outcome %d %s %s (hash %016llx, expected %016llx)\n", r.out, cls_name[r.cls], r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)c.hash);
	return r.out == O_FAIL ? 4 : 0;
}
/* prints one line per run: outcome and hash; used to compare executions */
static int cmd_hashes(int argc, char **argv)
{
	if(argc < 6) harness_error("hashes PROP SEED START COUNT STEP");
	const PropInfo *p = find_prop(argv[1]);
	u64 seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10);
	S.fine = FLAVOUR_FINE;
	for(u64 i = start; i < count; i += step)
	{
		Spec s; WorldMain w; i64 world; u64 rs = run_seed(seed, p, i);
		gen_for(p, rs, s, &w, &world);
		double t0 = now_s();
		Result r = run_once(p, s, rs, NULL, false, w);
		if(getenv("SLOW") && now_s() - t0 > atof(getenv("SLOW"))) fprintf(stderr, "run %llu took %.2f s\n", (unsigned long long)i, now_s() - t0);
		printf("%llu %d %d %016llx", (unsigned long long)i, r.out, r.out == O_FAIL || r.out == O_FOREIGN ? r.cls : 0, (unsigned long long)r.hash);
		Spec s2; gen_for(p, rs, s2, &w, &world);
		Result r2 = run_once(p, s2, 77, &r.choices, false, w);
		printf(" %s %s\n", r2.hash == r.hash && r2.out == r.out ? "replay-same" : "REPLAY-DIFFERS", r.out == O_FAIL || r.out == O_FOREIGN ? (std::string(cls_name[r.cls]) + ": " + r.msg).c_str() : "");
	}
	return 0;
}
static int cmd_trace(int argc, char **argv)
{
	if(argc < 4) harness_error("trace PROP SEED INDEX");
	const PropInfo *p = find_prop(argv[1]);
	u64 seed = strtoull(argv[2], 0, 10), i = strtoull(argv[3], 0, 10);
	S.fine = FLAVOUR_FINE;
	Spec s; WorldMain w; i64 world; u64 rs = run_seed(seed, p, i);
	gen_for(p, rs, s, &w, &world);
	Result r = run_once(p, s, rs, NULL, true, w);
	for(auto &l : S.log) printf("%s\n", l.c_str());
	printf("outcome %d %s %s\n", r.out, cls_name[r.cls], r.msg.c_str());
	return 0;
}
int main(int argc, char **argv)
{
	if(argc < 2) harness_error("usage");
	core_init();
	if(!strcmp(argv[1], "run")) return cmd_run(argc - 1, argv + 1);
	if(!strcmp(argv[1], "replay")) return cmd_replay(argc - 1, argv + 1);
	if(!strcmp(argv[1], "hashes")) { int r = cmd_hashes(argc - 1, argv + 1); if(getenv("STEP_REPORT")) step_report(); return r; }
	if(!strcmp(argv[1], "trace")) return cmd_trace(argc - 1, argv + 1);
	if(!strcmp(argv[1], "props")) { for(const PropInfo *p = props; p->id; ++p) printf("%s\n", p->id); return 0; }
	harness_error("usage");
}
