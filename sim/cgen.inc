/* ---------------------------------------------------------------- generation */
static const int bulk_sizes[] = { 9, 17, 33, 70, 100, 135, 200, 262, 300, 520, 800, 1040, 2100, 3300, 4200, 6100 };
struct Gen
{
	Rng &r; Spec &s; const PropInfo *p; int focus; bool big, mid, x03, x04; int nscripts; u32 kinds; bool free_focus, key_focus;
	std::vector<int> pools; bool huge;
	i64 add(int kind, i64 owner, int pool)
	{
		std::vector<i64> o(P_NUM, 0);
		o[P_OBJ] = kind; o[P_HEAP] = r.below(2); o[P_POOL] = pool; o[P_OWNER] = owner;
		o[P_OWN] = free_focus ? 1 + (i64)r.below(3) : (i64)r.below(4);
		if(kind <= KA)
		{
			o[P_KM] = r.one_in(2) ? KM_OBJ : (i64)r.below(3);
			o[P_HMODE] = r.one_in(2) ? 0 : (i64)r.below(5);
			static const i64 hs[] = { 0, 0, 0, 1, 2, 3, 7, 8, 16, 64, 128, 257, 1031 };
			if(kind == KH) o[P_P0] = hs[r.below(13)];
			static const i64 un[] = { 1, 2, 3, 5, 8, 12, 20, 33, 50, 63 };
			o[P_P1] = un[r.below(10)] - 1;
			if(free_focus && r.one_in(3)) { o[P_KM] = KM_OBJ; o[P_OWN] = 3; }
			if(focus == 126 || (focus == 143 && kind == KH && !r.one_in(3))) { if(kind == KH) { if(focus == 143 || r.one_in(2)) o[P_KM] = KM_OBJ; o[P_HMODE] = 0; o[P_P0] = 0; } else if(r.one_in(3)) o[P_P1] = 63; }
		}
		else if(kind == KL || kind == KS || kind == KT || kind == KQ)
		{
			o[P_KM] = free_focus && !r.one_in(4) ? KM_OBJ : (i64)r.below(3);
			static const i64 un[] = { 1, 2, 3, 4, 6, 10, 20, 40 };
			o[P_P1] = un[r.below(8)] - 1;
			if(free_focus) { o[P_OWN] = r.one_in(5) ? 0 : 2; if(r.one_in(5)) o[P_HEAP] += 2; }
		}
		else if(kind == KP)
		{
			static const i64 sz[] = { 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 63, 64, 100, 200, 257 }, bl[] = { 2, 2, 3, 4, 7, 8, 16, 33, 64, 255, 1000 };
			o[P_P0] = sz[r.below(19)]; o[P_P1] = bl[r.below(11)];
		}
		else if(kind == KB)
		{
			switch(r.below(5))
			{
				case 0: o[P_P0] = 1 + (i64)r.below(8); break;
				case 1: o[P_P0] = 1 + (i64)r.below(200); break;
				case 2: { static const i64 b[] = { 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 8192 }; o[P_P0] = b[r.below(19)]; break; }
				case 3: o[P_P0] = (i64)r.log_range(16, 70000); break;
				default: o[P_P0] = 1 << 20; break;
			}
			if(focus == 104 && r.one_in(12)) o[P_P0] = 1 << (20 + r.below(4));
		}
		else if(kind == KF) o[P_P0] = x03 || x04 || r.one_in(4);
		s.objs.push_back(o);
		return (i64)s.objs.size() - 1;
	}
	i64 add_pool(i64 owner, int fit, int fl)
	{
		std::vector<i64> o(P_NUM, 0);
		static const i64 bl[] = { 2, 2, 3, 8, 64, 512 };
		o[P_OBJ] = KC; o[P_HMODE] = fl - 1; o[P_POOL] = -1; o[P_P0] = fit; o[P_P1] = bl[r.below(6)]; o[P_OWNER] = owner;
		s.objs.push_back(o);
		return (i64)s.objs.size() - 1;
	}
	static int fit_of(int kind) { return kind == KL ? 0 : kind == KR ? 2 : 1; }
	static bool poolable(int k) { return k == KR || k == KL || k == KS || k == KT || k == KQ; }
	i64 owner() { if(x03) return 0; if(x04) return 1 + (i64)r.below(nscripts); return r.one_in(3) ? 1 + (i64)r.below(nscripts) : 0; }
	int kind() { int k; do k = (int)r.below(KN); while(k == KC || k == KF || !(kinds >> k & 1)); return k; }
	void objects(int n)
	{
		bool buf = false; int have = 0;
		if(x04) n = nscripts + (focus == 144 ? 1 + (int)r.below(5) : (int)r.below(3));
		while(have < n)
		{
			i64 ow = x04 && have < nscripts ? have + 1 : owner();
			int k = kind();
			if(k == KB) { buf = true; add(k, ow, -1); ++have; if(x04) add(KF, ow, -1); continue; }
			bool pooled = poolable(k) && (focus == 113 || focus == 111 || r.one_in(3));
			if(!pooled) { add(k, ow, -1); ++have; continue; }
			int users = focus == 113 || focus == 144 ? 1 + (int)r.below(3) : 1 + (int)r.one_in(3);
			std::vector<int> ks = { k };
			while((int)ks.size() < users) { int x = kind(); if(poolable(x)) ks.push_back(x); else users--; }
			bool same = true; for(int x : ks) if(fit_of(x) != fit_of(k)) same = false;
			int fl = focus == 111 ? PF_SIMLIB : focus == 113 ? (r.one_in(3) ? 1 : r.one_in(2) ? 2 : 3) : 1 + (int)r.below(3);
			i64 pc = add_pool(ow, same && !r.one_in(4) ? fit_of(k) : 3, fl);
			for(int x : ks) { add(x, ow, (int)pc); ++have; }
		}
		if(buf && !x04) { int ns = 1 + (int)r.below(3); for(int i = 0; i < ns; ++i) add(KF, x03 ? 0 : r.one_in(4) ? 1 + (i64)r.below(nscripts) : 0, -1); }
	}
	typedef std::vector<std::pair<int, u32>> W;
	/* swarm weights for one kind of object */
	W weights(int kind, bool ro)
	{
		W w; auto a = [&](int c, u32 x) { if(x) w.push_back({ c, x }); };
		if(kind <= KA)
		{
			if(ro) { a(O_EXISTS, 4); a(O_COUNT, 1); a(O_ITER, 3); a(O_ITER2, 2); a(O_RITER, 2); return w; }
			bool it = focus == 124, grow = r.one_in(2);
			a(O_SET, 12); a(O_REMOVE, grow ? 2 + (u32)r.below(4) : 4 + (u32)r.below(9)); a(O_LOOKUP, (u32)r.below(4)); a(O_PAIRSET, (u32)r.below(4)); a(O_EXISTS, (u32)r.below(3)); a(O_COUNT, (u32)r.below(2));
			a(O_CLEAR, r.one_in(3)); a(O_RECREATE, r.one_in(5)); a(O_ITER, (u32)r.below(it ? 8 : 2)); a(O_ITER2, (u32)r.below(it ? 5 : 2)); a(O_RITER, (u32)r.below(it ? 8 : 2)); a(O_ITERUSE, (u32)r.below(it ? 6 : 2));
			return w;
		}
		if(kind == KL || kind == KS)
		{
			if(ro) { a(O_FIND, 3); a(O_CONTAINS, 3); a(O_WALK, 3); return w; }
			bool so = focus == 133;
			if(so) { a(O_SORTED, 14); a(O_APPEND, r.one_in(6)); a(O_PREPEND, r.one_in(6)); } else { a(O_APPEND, (u32)r.below(8) + 1); a(O_PREPEND, (u32)r.below(8)); a(O_SORTED, r.one_in(3) ? (u32)r.below(8) : 0); }
			a(O_RMITEM, (u32)r.below(5)); a(O_RMDATA, (u32)r.below(4)); a(O_LPOP, (u32)r.below(4)); a(O_FIND, (u32)r.below(3)); a(O_CONTAINS, (u32)r.below(3));
			if(!so) { a(O_SETDATA, (u32)r.below(3)); a(O_FREEDATA, (u32)r.below(3)); } else if(r.one_in(4)) { a(O_SETDATA, 1); a(O_FREEDATA, 1); }
			a(O_LCLEAR, r.one_in(3)); a(O_WALK, (u32)r.below(2)); a(O_RECREATE, r.one_in(6));
			return w;
		}
		if(kind == KT || kind == KQ)
		{
			if(ro) { a(O_HEAD, 1); a(O_SCOUNT, 1); return w; }
			a(O_PUSH, 6); a(O_POP, 1 + (u32)r.below(8)); a(O_HEAD, (u32)r.below(2)); a(O_SCLEAR, r.one_in(3)); a(O_SCOUNT, r.one_in(4)); a(O_RECREATE, r.one_in(6));
			return w;
		}
		if(kind == KP)
		{
			if(ro) return w;
			a(O_PALLOC, 6); a(O_PFREE, 2 + (u32)r.below(6)); a(O_PCHECK, 1); a(O_RECREATE, r.one_in(4));
			return w;
		}
		if(kind == KB)
		{
			if(ro) { a(O_FLUSH, 3); a(O_TOSTR, 3); a(O_QUERY, 2); return w; }
			bool fd = focus == 104;
			a(O_FILL, fd ? (u32)r.below(3) : 2 + (u32)r.below(8)); a(O_FILLFD, fd ? 10 : (u32)r.below(6)); a(O_READLINE, 2 + (u32)r.below(8)); a(O_FLUSH, (u32)r.below(3)); a(O_TOSTR, r.one_in(2)); a(O_QUERY, r.one_in(2));
			a(O_BCLEAR, (u32)r.below(3)); a(O_RECREATE, r.one_in(6));
			return w;
		}
		if(kind == KF) { a(O_WRITE, 8); a(O_CLOSE, r.one_in(8)); return w; }
		return w;
	}
	i64 bulk_n() { return big ? bulk_sizes[r.below(16)] : bulk_sizes[r.below(9)]; }
	Op args(int code, i64 obj)
	{
		Op o = { code, { obj, (i64)r.below(4096), (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(1 << 20) } };
		const std::vector<i64> &ob_ = s.objs[obj];
		if(code == O_FILL)
		{
			i64 mx = ob_[P_P0]; o.a[1] = 1 + (i64)r.log_range(1, (u64)std::min<i64>(mx + mx / 8 + 2, 5000));
			if(r.one_in(3)) o.a[1] = 1 + (i64)r.below(16);
			if(!r.one_in(4)) o.a[3] = 5;
			if(o.a[1] < 1) o.a[1] = 1;
		}
		if(code == O_FILLFD)
		{
			i64 mx = ob_[P_P0];
			o.a[1] = (i64)r.below(8);
			o.a[2] = (i64)r.log_range(1, (u64)mx); if(r.one_in(4)) o.a[2] = 1 + (i64)r.below(16); if(r.one_in(40)) o.a[2] = 0;
			if(mx <= 4096 ? r.one_in(2) : !r.one_in(12)) o.a[3] = 3; 
		}
		if(code == O_WRITE) { o.a[1] = r.one_in(8) ? (i64)r.log_range(1, 20000) : (i64)r.log_range(1, 600); if(big && focus == 104 && r.one_in(3)) o.a[1] = (i64)r.log_range(100000, 6000000); }
		if(code == O_READLINE) o.a[1] = (i64)r.below(60);
		if(code == O_PALLOC || code == O_PFREE) { if(!big && !r.one_in(8)) o.a[3] = 1; o.a[2] = (i64)r.below(big ? 900 : 60); }
		return o;
	}
	Op bulk(i64 obj, int kind, bool ro)
	{
		Op o = args(O_SLEEP, obj);
		i64 n = bulk_n();
		if(kind <= KA)
		{
			int c = (int)r.below(6);
			o.code = ro ? O_BULKGET : c < 3 ? O_BULKSET : c == 3 ? O_BULKDEL : c == 4 ? O_BULKGET : O_CHURN;
			if(r.one_in(2)) o.a[1] = (i64)r.below(3);
			if(r.one_in(2)) o.a[3] = 0;
			if(kind == KA && n > 2200) n = 2200;
			if(kind == KH && s.objs[obj][P_P0]) n = std::min<i64>(n, 8 * s.objs[obj][P_P0] + 140);
			if(kind == KH && (ob_big_chain(s.objs[obj]) || (s.objs[obj][P_KM] == KM_INT && s.cfg[G_W1]))) n = std::min<i64>(n, 262);
			o.a[2] = n;
		}
		else if(kind == KL || kind == KS) { o.code = r.one_in(2) ? O_LBULK : O_LCHURN; o.a[2] = o.code == O_LBULK ? (i64)r.below(big ? 700 : 150) : n; }
		else if(kind == KT || kind == KQ) { o.code = O_SBULK; o.a[2] = (i64)r.below(big ? 3100 : 300); }
		else if(kind == KP) { o.code = O_PCHURN; o.a[2] = (i64)r.below(big ? 900 : 80); }
		else if(kind == KB) { o.code = O_BCHURN; o.a[1] = (i64)r.below(big ? 1500 : 150); }
		return o;
	}
	static bool ob_big_chain(const std::vector<i64> &o) { return o[P_HMODE] == 3 || o[P_HMODE] == 1 || o[P_HMODE] == 2 || o[P_HMODE] == 4 || (o[P_P0] && o[P_P0] < 64); }
	/* one client, one object, far more elements than small integers can count */
	void huge_script(i64 obj)
	{
		static const i64 sizes[] = { 17000, 33000, 40000, 66000, 66600, 70000, 70000, 132000 };
		std::vector<Op> ops; int k = (int)s.objs[obj][P_OBJ]; i64 n = sizes[r.below(8)];
		if(k == KH && r.one_in(2)) n = 265000 + (i64)r.below(3000);
		bool fat = k == KP && s.objs[obj][P_P0] > 1000;
		if(fat) n = 100 + (i64)r.below(200);
		W w = weights(k, false);
		for(size_t i = 0; i < w.size();) if(w[i].first == O_RECREATE || w[i].first == O_CLEAR || w[i].first == O_LCLEAR || w[i].first == O_SCLEAR || w[i].first == O_BCLEAR || w[i].first == O_PREPEND) w.erase(w.begin() + (long)i); else ++i;
		auto some = [&](int m)
		{
			u32 tot = 0; for(auto &x : w) tot += x.second;
			while(m-- > 0) { u64 q = r.below(tot); size_t c = 0; while(q >= w[c].second) q -= w[c++].second; Op o = args(w[c].first, obj); if(k == KP) { o.a[2] = (i64)r.below(fat ? 20 : 900); } ops.push_back(o); }
		};
		auto put = [&](int code, i64 a2, i64 a3, i64 a4) { Op o = args(O_SLEEP, obj); o.code = code; o.a[1] = (i64)r.below(3); o.a[2] = a2; o.a[3] = a3; o.a[4] = a4; ops.push_back(o); };
		int few = 4 + (int)r.below(12);
		some((int)r.below(4));
		if(k <= KA)
		{
			put(O_BULKSET, n, (i64)r.below(3), 0); some(few);
			switch(r.below(k == KH ? 5 : 4))
			{
				case 0: put(O_BULKDEL, n / (1 + (i64)r.below(4)), ops.back().a[3], 0); break;
				case 1: case 4: put(O_CLEAR, 0, 0, 0); put(O_BULKSET, r.one_in(2) ? n : 300 + (i64)r.below(3000), 0, 0); break;
				default: put(O_ITER2, (i64)r.next() >> 4, 0, 0); put(O_RITER, 2, 39, (i64)r.below(3)); put(O_RITER, 3, 39, 0); break;
			}
			some(few);
		}
		else if(k == KL || k == KS) { put(O_LBULK, n, 1, (i64)r.below(2)); some(few); if(r.one_in(3)) put(O_LCLEAR, 0, 0, 0); some(few); }
		else if(k == KT || k == KQ) { put(O_SBULK, n, 0, (i64)r.below(3)); some(few); if(r.one_in(3)) put(O_SCLEAR, 0, 0, 0); some(few); }
		else if(k == KP) { put(O_PALLOC, n, 0, 0); some(few); put(O_PFREE, r.one_in(2) ? n : n / 2 + (fat ? 0 : 10000), 0, (i64)r.below(3)); some(few); if(r.one_in(2)) put(O_PALLOC, n, 0, 0); put(O_PCHECK, 0, 0, 0); }
		else if(k == KB) { for(int i = 0; i < 6; ++i) { Op o = args(O_FILL, obj); o.a[1] = 50000 + (i64)r.log_range(1, 150000); o.a[3] = 5; if(r.one_in(3)) o.a[4] = 1; ops.push_back(o); some(2 + (int)r.below(6)); } }
		s.tasks.push_back(ops);
	}
	void script(int n, int me, bool ro)
	{
		std::vector<Op> ops;
		std::vector<i64> mine; for(size_t i = 0; i < s.objs.size(); ++i) if(s.objs[i][P_OBJ] != KC && (s.objs[i][P_OWNER] == 0 || s.objs[i][P_OWNER] == me)) mine.push_back((i64)i);
		std::map<i64, W> ws; for(i64 i : mine) ws[i] = weights((int)s.objs[i][P_OBJ], ro);
		if(mine.empty()) { s.tasks.push_back(ops); return; }
		/* some runs hammer one object */
		i64 fav = mine[r.below(mine.size())]; bool hammer = r.one_in(3);
		int nb = big ? 1 + (int)r.below(3) : mid ? 1 : 0;
		for(int i = 0; i < n; ++i)
		{
			if(!ro && r.one_in(60)) { ops.push_back({ O_SLEEP, { (i64)0, (i64)r.log_range(1, 2000000000), 0, 0, 0 } }); continue; }
			i64 obj = hammer && !r.one_in(4) ? fav : mine[r.below(mine.size())];
			W &w = ws[obj]; u32 tot = 0; for(auto &x : w) tot += x.second;
			if(!tot) continue;
			u64 k = r.below(tot); size_t c = 0; while(k >= w[c].second) k -= w[c++].second;
			ops.push_back(args(w[c].first, obj));
		}
		for(int i = 0; i < nb; ++i)
		{
			i64 obj = r.one_in(3) ? fav : mine[r.below(mine.size())]; int k = (int)s.objs[obj][P_OBJ];
			if(k == KF) continue;
			Op o = bulk(obj, k, ro);
			ops.insert(ops.begin() + (long)r.below(ops.size() + 1), o);
		}
		/* fill, empty and refill the same object: what it held before must not show */
		if(!ro && nb && r.one_in(focus == 126 || focus == 143 ? 2 : 3))
		{
			i64 obj = r.one_in(3) ? fav : mine[r.below(mine.size())]; int k = (int)s.objs[obj][P_OBJ];
			std::vector<Op> cy;
			auto raw = [&](int code, i64 a2, i64 a3, i64 a4) { Op o = args(O_SLEEP, obj); o.code = code; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4; cy.push_back(o); };
			int rounds = 2 + (int)r.one_in(3);
			if(k <= KQ && r.one_in(4))
			{
				/* stairs: emptied or destroyed at many different sizes */
				i64 top = big && k != KA ? 1300 : 340; if(k == KH && ob_big_chain(s.objs[obj])) top = 150;
				for(rounds = 6 + (int)r.below(16); rounds > 0; --rounds)
				{
					i64 n = (i64)r.below((u64)top);
					if(k <= KA) raw(O_BULKSET, n, (i64)r.below(3), 1), raw(r.one_in(4) ? O_RECREATE : O_CLEAR, 0, 0, 0);
					else if(k <= KS) raw(O_LBULK, n, 1 + (i64)r.below(2), 1), raw(r.one_in(4) ? O_RECREATE : O_LCLEAR, 0, 0, 0);
					else raw(O_SBULK, n % 400, 2, 0), raw(r.one_in(4) ? O_RECREATE : O_SCLEAR, 0, 0, 0);
				}
			}
			for(int i = 0; k <= KB && i < rounds; ++i)
			{
				Op o = bulk(obj, k, false); i64 n = o.a[2];
				if(k <= KA)
				{
					o.code = O_BULKSET; if(big && i && n < 3300 && n > 262 && r.one_in(2) && (k == KR || (k == KH && !s.objs[obj][P_P0]))) n = 3300;
					o.a[2] = n; o.a[3] = (i64)r.below(3); cy.push_back(o);
					if(r.one_in(3)) raw(O_BULKDEL, n - (i64)r.below(3), o.a[3], 0), cy.back().a[1] = o.a[1]; else raw(O_CLEAR, 0, 0, 0);
				}
				else if(k == KL || k == KS) { o.code = O_LBULK; cy.push_back(o); raw(O_LCLEAR, 0, 0, 0); }
				else if(k == KT || k == KQ) { o.code = O_SBULK; o.a[3] &= ~1; cy.push_back(o); raw(O_SCLEAR, 0, 0, 0); }
				else if(k == KP) { raw(O_PALLOC, (i64)r.below(big ? 900 : 120), 0, 0); raw(O_PFREE, (i64)r.below(900), 0, (i64)r.below(3)); }
				else if(k == KB) { cy.push_back(o); raw(O_BCLEAR, 0, 0, 0); }
				W &w = ws[obj]; u32 tot = 0; for(auto &x : w) tot += x.second;
				for(int j = (int)r.below(4); tot && j > 0; --j) { u64 q = r.below(tot); size_t c = 0; while(q >= w[c].second) q -= w[c++].second; cy.push_back(args(w[c].first, obj)); }
			}
			if(!cy.empty() && (k != KB) && r.one_in(2)) while(!cy.empty() && (cy.back().code == O_CLEAR || cy.back().code == O_LCLEAR || cy.back().code == O_SCLEAR || cy.back().code == O_BULKDEL)) cy.pop_back();
			ops.insert(ops.begin() + (long)r.below(ops.size() + 1), cy.begin(), cy.end());
		}
		s.tasks.push_back(ops);
	}
};
static void gen_containers(Rng &r, Spec &s, const PropInfo *p)
{
	int f = p->focus; bool x03 = f == 141, x06 = f == 144, x04 = f == 142 || x06;
	const u32 HUGE_ODDS = FLAVOUR_FINE ? 0 : f == 121 ? 2500 : f == 123 || f == 125 ? 1500 : f >= 121 && f <= 126 ? 4000 : f == 21 ? 3000 : 1500;
	Gen g = { r, s, p, f, false, false, x03, x04, 0, 0, false, false, {}, false };
#define B(k) (1u << (k))
	u32 maps = B(KH) | B(KR) | B(KA), lists = B(KL) | B(KS), sqs = B(KT) | B(KQ), all = maps | lists | sqs | B(KP) | B(KB);
	switch(f)
	{
		case 101: case 102: case 103: case 104: g.kinds = B(KB); break;
		case 111: g.kinds = B(KP) | (r.one_in(3) ? lists | sqs | B(KR) : 0); break;
		case 112: g.kinds = B(KP); break;
		case 113: g.kinds = lists | sqs | B(KR); break;
		case 121: g.kinds = B(KH); break;
		case 122: g.kinds = B(KR); break;
		case 123: g.kinds = B(KA); break;
		case 124: case 125: case 126: g.kinds = maps; break;
		case 131: g.kinds = B(KL); break;
		case 132: g.kinds = B(KS); break;
		case 133: g.kinds = lists; break;
		case 134: g.kinds = sqs; break;
		case 135: g.kinds = lists | sqs; break;
		case 141: g.kinds = all & ~B(KP); break;
		default: g.kinds = all; break;
	}
	g.free_focus = (x06 && r.one_in(2)) || f == 125 || f == 135 || (f == 21 && r.one_in(2));
	u32 bigodds = f == 121 || f == 126 ? 40 : 60;
	if(f == 143) bigodds = 12;
	g.big = r.one_in(bigodds); g.mid = !g.big && r.one_in(8);
	g.nscripts = x06 ? 1 : x03 || x04 ? 2 + (int)r.below(2) : r.one_in(3) ? 1 : 2 + (int)r.below(3);
	bool huge = HUGE_ODDS && !x03 && !x04 && f != 20 && r.one_in(HUGE_ODDS);
	if(huge) { g.nscripts = 1; g.big = false; }
	int nobj = x03 ? 1 + (int)r.below(4) : f >= 121 && f <= 126 ? 1 + (int)r.below(2) : 1 + (int)r.below(3);
	int nops = r.one_in(8) ? 60 + (int)r.below(140) : r.one_in(3) ? 15 + (int)r.below(40) : 2 + (int)r.below(14);
	if(f == 125 || f == 133) nops = nops * 3 / 2;
	g.huge = huge;
	g.objects(huge ? 1 : nobj);
	int fl = f == 20 ? GEN_AFAIL : 0;
	bool rd = !x03 && !x04; for(auto &o : s.objs) if(o[P_OBJ] == KB && rd) { fl |= GEN_READ; break; }
	if(g.nscripts == 1 && !x03) fl |= GEN_SERIAL;
	gen_cfg(r, s, fl, (g.nscripts * nops) / 2 + 2);
	s.cfg[G_W1] = (i64)r.below(4); s.cfg[G_W2] = (i64)r.below(4); s.cfg[G_W3] = (i64)r.below(2); s.cfg[G_W4] = x03;
	if(x06) { static const i64 np[] = { 1000, 5000, 20000, 80000, 300000 }; s.cfg[G_W5] = np[r.below(5)]; }
	if(f == 126 && r.one_in(2)) s.cfg[G_W1] = 0;
	if(huge)
	{
		s.cfg[G_RECYC] = 1; s.cfg[G_RMOVE] = r.one_in(2) ? 0 : 1000000; s.cfg[G_STALL] = s.cfg[G_TICK] = 0;
		for(size_t i = 0; i < s.objs.size(); ++i)
		{
			std::vector<i64> &o = s.objs[i]; int k = (int)o[P_OBJ];
			o[P_HMODE] = k == KC ? o[P_HMODE] : 0;
			if(k == KH) { o[P_P0] = r.one_in(4) ? 4127 : r.one_in(6) ? 65536 + (i64)r.below(6000) : 0; if(f == 126 || o[P_KM] == KM_INT) s.cfg[G_W1] = 0; }
			if(k == KP)
			{
				static const i64 fat[] = { 4096, 32768, 65535, 65536, 65544, 70000, 100001 }, len[] = { 32767, 32768, 40000, 65535, 65536, 70000 };
				o[P_P0] = std::min<i64>(o[P_P0], 64);
				if(r.one_in(3)) { o[P_P0] = fat[r.below(7)]; o[P_P1] = 2 + (i64)r.below(40); }
				else if(r.one_in(2)) { o[P_P0] = std::min<i64>(o[P_P0], 40); o[P_P1] = len[r.below(6)]; }
			}
			if(k == KB) o[P_P0] = r.one_in(3) ? (i64)(65000 + r.below(2000)) : (i64)(100000 + r.below(1 << 20));
			if(k != KC && k != KF && s.tasks.empty()) g.huge_script((i64)i);
		}
		return;
	}
	if(g.big && s.cfg[G_MEM] > 500) s.cfg[G_MEM] = 500;
	if(g.big) { if(s.cfg[G_CBK] > 20000) s.cfg[G_CBK] = 2000; }
	if(x03) { g.script(nops, 1, false); bool b = g.big; g.mid = false; for(int i = 0; i < g.nscripts; ++i) { g.big = b && r.one_in(2); g.script(2 + (int)r.below(10), i + 2, true); } }
	else for(int i = 0; i < g.nscripts; ++i) g.script(1 + (int)r.below(nops), i + 1, false);
#undef B
}
void cw_gen(Rng &r, Spec &s, const PropInfo *p) { gen_containers(r, s, p); }
void dw_gen(Rng &r, Spec &s, const PropInfo *p) { gen_containers(r, s, p); }
std::string cw_op_name(const Op &o)
{
	if(o.code < 0 || o.code >= O_N) return "?";
	std::string x = o_name[o.code];
	if(o.code == O_SLEEP) return x + " " + std::to_string(o.a[1]) + "ns";
	return x + " object " + std::to_string(o.a[0]);
}
