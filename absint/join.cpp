#include "state.h"
static int nextReg = 1;
std::map<int, RegionP> protoRegions;
int newRegionId() { return nextReg++; }
std::string avalStr(const AVal& a) {
	switch (a.k) {
	case VUndef: return "undef";
	case VInt: return linStr(a.e);
	case VCond: return "(" + linStr(a.e) + (a.op == 0 ? " >= 0)" : a.op == 1 ? " == 0)" : " != 0)");
	case VPtr: return a.reg == 0 ? "null" + (a.e == Lin() ? std::string() : "+" + linStr(a.e)) : "&R" + std::to_string(a.reg) + "+" + linStr(a.e);
	case VFlt: return "flt(" + linStr(a.e) + ")";
	case VFn: return "fn";
	case VAgg: return "agg";
	default: return "top";
	}
}
static void collectVars(const Lin& l, std::set<int>& s) {
	for (auto& p : l.t) { s.insert(p.first); for (int f : VT.v[p.first].factors) s.insert(f); }
}
static void visitVal(const AVal& a, const std::function<void(const AVal&)>& f) {
	f(a);
	for (auto& x : a.agg) visitVal(x, f);
}
bool keepVars = false;
void gcState(State& s, const std::vector<AVal>& extra) {
	// reachable regions
	std::set<int> live; std::vector<int> work;
	auto root = [&](const AVal& a) { visitVal(a, [&](const AVal& v) { if (v.k == VPtr && v.reg && live.insert(v.reg).second) work.push_back(v.reg); }); };
	for (auto& kv : s.env) root(kv.second);
	for (auto& c : s.callers) for (auto& kv : *c) root(kv.second);
	for (auto& a : extra) root(a);
	for (auto& a : s.roots) root(a);
	for (auto& kv : s.mem) if (kv.second->kind == RGlobal && live.insert(kv.first).second) work.push_back(kv.first);
	while (!work.empty()) {
		int r = work.back(); work.pop_back();
		auto it = s.mem.find(r);
		if (it == s.mem.end()) continue;
		for (auto& c : it->second->cells) root(c.second.v);
		for (auto& y : it->second->sym) root(y.v);
	}
	for (auto it = s.mem.begin(); it != s.mem.end();) { if (!live.count(it->first)) it = s.mem.erase(it); else ++it; }
	if (keepVars) return;
	// live variables
	std::set<int> lv;
	auto vvOf = [&](const AVal& a, std::set<int>& u) { visitVal(a, [&](const AVal& v) { collectVars(v.e, u); collectVars(v.nan, u); if (v.hasSub) { collectVars(v.slo, u); collectVars(v.shi, u); } }); };
	auto vv = [&](const AVal& a) { visitVal(a, [&](const AVal& v) { collectVars(v.e, lv); collectVars(v.nan, lv); if (v.hasSub) { collectVars(v.slo, lv); collectVars(v.shi, lv); } }); };
	for (auto& kv : s.env) vv(kv.second);
	for (auto& c : s.callers) for (auto& kv : *c) vv(kv.second);
	for (auto& a : extra) vv(a);
	for (auto& a : s.roots) vv(a);
	for (auto& kv : s.mem) {
		const Region& r = *kv.second;
		if (r.kind == RGlobal && r.gv && r.cells.empty()) continue;
		collectVars(r.size, lv); collectVars(r.owned, lv); collectVars(r.elemDt, lv);
		for (auto& c : r.cells) vv(c.second.v);
		for (auto& z : r.zero) { collectVars(z.first, lv); collectVars(z.second, lv); }
	}
	for (auto& l : s.links) { collectVars(l.dt, lv); collectVars(l.es, lv); }
	// what was read is remembered only as long as something else refers to it
	for (auto& kv : s.mem) {
		if (kv.second->reads.empty()) continue;
		auto gone = [&](const Region::Sym& y) { std::set<int> u; collectVars(y.off, u); vvOf(y.v, u); return !std::includes(lv.begin(), lv.end(), u.begin(), u.end()); };
		if (std::any_of(kv.second->reads.begin(), kv.second->reads.end(), gone)) for (auto& y : s.rw(kv.first).reads) { y.off = s.P.norm(y.off); y.v.e = s.P.norm(y.v.e); }
		if (std::any_of(kv.second->reads.begin(), kv.second->reads.end(), gone)) { Region& r = s.rw(kv.first); r.reads.erase(std::remove_if(r.reads.begin(), r.reads.end(), gone), r.reads.end()); }
	}
	// drop dead definitions
	for (bool ch = true; ch;) {
		ch = false;
		std::set<int> need = lv;
		for (auto& kv : s.P.sub) if (lv.count(kv.first)) collectVars(kv.second, need);
		for (auto it = s.P.sub.begin(); it != s.P.sub.end();) {
			if (!lv.count(it->first)) {
				// what is tied to a product stays tied to it only through this definition
				if (!VT.v[it->first].factors.empty()) for (auto& t : it->second.t) s.approx.insert(t.first);
				it = s.P.sub.erase(it); ch = true;
			} else ++it;
		}
		lv = need;
		if (!ch) break;
	}
	std::set<int> pv;
	for (auto& c : s.P.cons) for (auto& p : c.t) pv.insert(p.first);
	// monomials of live factors stay alive only if referenced; factors of live monomials are live
	std::set<int> dead;
	int kept = 0;
	for (int v : pv) {
		if (lv.count(v)) continue;
		auto& f = VT.v[v].factors;
		if (f.size() >= 2 && kept < 10 && std::all_of(f.begin(), f.end(), [&](int x) { return lv.count(x) != 0; })) { ++kept; continue; }
		dead.insert(v);
	}
	for (int v : dead) {
		// keep factors of monomials that remain
		bool factor = false;
		for (int m : pv) if (m != v && !dead.count(m)) { auto& f = VT.v[m].factors; if (std::find(f.begin(), f.end(), v) != f.end()) factor = true; }
		if (factor) continue;
		s.P.eliminateVar(v);
	}
	s.ne.erase(std::remove_if(s.ne.begin(), s.ne.end(), [&](const Lin& e) { for (auto& p : e.t) if (dead.count(p.first)) return true; return false; }), s.ne.end());
}

namespace {
struct Joiner {
	const State& A; const State& B; int mode;
	State J;
	std::string why;
	std::map<std::pair<int, int>, int> rmap;      // (regA, regB) -> reg in J
	std::map<int, int> a2, b2;                    // functional both ways
	std::vector<std::pair<int, int>> work;
	struct Slot { int v; Lin ea, eb; bool ctr = false; };
	std::map<std::pair<Lin, Lin>, Lin> memo;
	std::vector<Slot> slots;
	std::map<int, Lin> repl0;                     // joined values found to be functions of others
	int ctr = -1;                                 // counter variable
	std::vector<int> bools;
	bool boolUnstable = false;
	std::set<int> oldBools;     // variables of A that stood for a boolean joined here
	Joiner(const State& a, const State& b, int m) : A(a), B(b), mode(m) {}
	bool fail(const std::string& w) { if (why.empty()) why = w; return false; }

	bool mapReg(int a, int b, int& out) {
		if (a == 0 || b == 0) { if (a == b) { out = 0; return true; } return fail("null/non-null"); }
		auto it = rmap.find({a, b});
		if (it != rmap.end()) { out = it->second; return true; }
		if (a2.count(a) || b2.count(b)) return fail("alias shape");
		bool ha = A.has(a), hb = B.has(b);
		if (a == b) out = a;
		else {
			if (!ha || !hb) return fail("region missing");
			const Region& ra = A.ro(a); const Region& rb = B.ro(b);
			if (ra.kind == RGlobal || rb.kind == RGlobal) return fail("distinct globals");
			if (ra.freed != rb.freed) return fail("freed mismatch");
			out = newRegionId();
		}
		rmap[{a, b}] = out; a2[a] = out; b2[b] = out;
		work.push_back({a, b});
		return true;
	}
	Lin joinLin(const Lin& ea, const Lin& eb) {
		if (ea == eb) return ea;
		Lin na = A.P.norm(ea), nb = B.P.norm(eb);
		if (na == nb && na.isConst()) return na;
		auto it = memo.find({na, nb});
		if (it != memo.end()) return it->second;
		if (na == nb) {
			// same normalised expression: valid in both only if its variables mean the same, which they do
			memo[{na, nb}] = na;
			return na;
		}
		if (A.P.entailsEq(na - nb)) { memo[{na, nb}] = nb; return nb; }
		if (B.P.entailsEq(na - nb)) { memo[{na, nb}] = na; return na; }
		// an affine function of a value joined before
		auto affine = [](const Lin& xa, const Lin& xb, const Lin& ya, const Lin& yb, Z& c, Z& d) {   // y = c*x + d on both sides
			Z kx = 0, ky = 0;
			if (!xa.t.empty()) { kx = xa.t[0].second; ky = ya.coef(xa.t[0].first); }
			else if (!xb.t.empty()) { kx = xb.t[0].second; ky = yb.coef(xb.t[0].first); }
			else return false;
			if (ky == 0 || ky % kx != 0) return false;
			c = ky / kx;
			Lin da = linComb(ya, 1, xa, -c), db = linComb(yb, 1, xb, -c);
			if (!da.isConst() || !db.isConst() || da.c != db.c) return false;
			d = da.c;
			return true;
		};
		for (auto& s : slots) { Z c, d; if (affine(s.ea, s.eb, na, nb, c, d)) return memo[{na, nb}] = Lin::var(s.v) * c + Lin(d); }
		int v = VT.fresh("j");
		for (size_t i = 0; i < slots.size();) { Z c, d; if (affine(na, nb, slots[i].ea, slots[i].eb, c, d)) { repl0[slots[i].v] = Lin::var(v) * c + Lin(d); slots.erase(slots.begin() + i); } else ++i; }
		slots.push_back({v, na, nb});
		return memo[{na, nb}] = Lin::var(v);
	}
	bool joinVal(const AVal& a, const AVal& b, AVal& o) {
		if (a.k == VTop || b.k == VTop) { o = AVal::Top(); return true; }
		if (a.k == VUndef && b.k == VUndef) { o = a; return true; }
		if (a.k == VInt && b.k == VInt && a.bits == b.bits) { o = AVal::Int(a.bits, joinLin(a.e, b.e)); return true; }
		if (a.k == VCond && b.k == VCond && a.op == b.op && A.P.norm(a.e) == B.P.norm(b.e)) { o = a; return true; }
		if ((a.k == VInt || a.k == VCond) && (b.k == VInt || b.k == VCond) && (a.k == VCond || b.k == VCond)) {
			// a boolean known in different ways on the two sides
			auto isBool = [](const State& S, const AVal& v) { return v.k == VCond || (S.P.entailsGe(v.e) && S.P.entailsGe(Lin(1) - v.e)); };
			if (!isBool(A, a) || !isBool(B, b)) return fail("kind mismatch");
			int v = VT.fresh("b");
			bools.push_back(v);
			if (!(a.k == VInt && a.e.t.size() == 1 && a.e.c == 0 && a.e.t[0].second == 1 && VT.v[a.e.t[0].first].name == "b" && oldBools.insert(a.e.t[0].first).second)) boolUnstable = true;
			o = AVal::Int(a.bits, Lin::var(v));
			return true;
		}
		if (a.k != b.k) return fail("kind mismatch");
		switch (a.k) {
		case VPtr: {
			int r;
			if (!mapReg(a.reg, b.reg, r)) return false;
			o = AVal::Ptr(r, joinLin(a.e, b.e));
			if (a.hasSub && b.hasSub) { o.hasSub = true; o.slo = joinLin(a.slo, b.slo); o.shi = joinLin(a.shi, b.shi); }
			else if (a.hasSub || b.hasSub) return fail("subobject mismatch");
			return true;
		}
		case VFlt: if (a.bits != b.bits) return fail("flt"); o = AVal::Flt(a.bits, joinLin(a.e, b.e), joinLin(a.nan, b.nan)); o.zs = a.zs == b.zs ? a.zs : 0; return true;
		case VFn: if (a.fn != b.fn) return fail("fn"); o = a; return true;
		case VAgg: {
			if (a.agg.size() != b.agg.size()) return fail("agg");
			o = a;
			for (size_t i = 0; i < a.agg.size(); i++) if (!joinVal(a.agg[i], b.agg[i], o.agg[i])) return false;
			return true;
		}
		default: return fail("kind");
		}
	}
	bool joinEnv(const Env& a, const Env& b, Env& o) {
		for (auto& kv : a) {
			auto it = b.find(kv.first);
			if (it == b.end()) continue;
			AVal v;
			if (!joinVal(kv.second, it->second, v)) return false;
			o[kv.first] = v;
		}
		return true;
	}
	std::vector<Region::Sym> joinReads(const Region& a, const Region& b) {
		std::vector<Region::Sym> o;
		for (auto& x : a.reads) for (auto& y : b.reads) {
			if (x.w != y.w || x.v.bits != y.v.bits || !(A.P.norm(x.off) == B.P.norm(y.off))) continue;
			o.push_back({joinLin(x.off, y.off), x.w, AVal::Int(x.v.bits, joinLin(x.v.e, y.v.e))});
			break;
		}
		return o;
	}
	bool joinRegion(int a, int b) {
		int out = rmap[{a, b}];
		if (!A.has(a) && !B.has(b)) return true;
		if (!A.has(a) || !B.has(b)) {
			// a region known on one side only (same id: released elsewhere): drop
			return a == b ? true : fail("region");
		}
		if (a == b && !A.mem.count(a) && !B.mem.count(b)) return true;
		if (a == b && A.get(a) == B.get(b)) {
			const Region& r = A.ro(a);
			J.mem[out] = A.get(a);
			if (!r.reads.empty()) { auto c = std::make_shared<Region>(r); c->reads = joinReads(r, r); J.mem[out] = c; }
			for (auto& c : r.cells) { AVal o; if (!joinVal(c.second.v, c.second.v, o)) return false; }
			return true;
		}
		const Region& ra = A.ro(a); const Region& rb = B.ro(b);
		if (ra.freed != rb.freed) return fail("freed");
		if (ra.nullState != rb.nullState) {
			if (!(ra.entry && rb.entry && a == b)) return fail("nullstate");
			// forget: only possible when neither side was modified
			if (ra.dirty || rb.dirty) return fail("nullstate dirty");
		}
		Region r = ra;
		r.reads = joinReads(ra, rb);
		r.nullState = ra.nullState == rb.nullState ? ra.nullState : 2;
		r.dirty = ra.dirty || rb.dirty;
		if (ra.kind != rb.kind) r.kind = ra.kind == RInput || rb.kind == RInput ? RInput : ra.kind;
		r.entry = ra.entry || rb.entry; r.immut = ra.immut || rb.immut;
		if (ra.lazy != rb.lazy || (!ra.cls.empty() && ra.cls != rb.cls)) {
			if (ra.dirty || rb.dirty || !ra.entry || !rb.entry || a != b) return fail("class mismatch");
			r.lazy = true; r.cells.clear(); r.zero.clear();
			r.cls = ra.lazy ? ra.cls : rb.lazy ? rb.cls : "Object";
			r.role = ra.role;
			r.size = Lin();
			J.mem[out] = std::make_shared<Region>(r);
			return true;
		}
		r.size = joinLin(ra.size, rb.size);
		r.owned = joinLin(ra.owned, rb.owned);
		if (ra.deflt != rb.deflt) {
			if (ra.deflt == DElems || rb.deflt == DElems) return fail("deflt elems");
			r.deflt = DTop;
		} else if (ra.deflt == DElems) r.elemDt = joinLin(ra.elemDt, rb.elemDt);
		r.cells.clear();
		for (auto& c : ra.cells) {
			auto it = rb.cells.find(c.first);
			if (it == rb.cells.end() || it->second.w != c.second.w) {
				// implicit default on the other side
				if (rb.deflt == DZero && c.second.v.k == VInt) {
					AVal z = AVal::Int(c.second.v.bits, Lin(0)), o;
					if (!joinVal(c.second.v, z, o)) return false;
					r.cells[c.first] = {c.second.w, o};
				} else r.deflt = (r.deflt == DElems) ? DElems : DTop;
				continue;
			}
			AVal o;
			if (!joinVal(c.second.v, it->second.v, o)) {
				if (why == "kind mismatch" && (c.second.v.k == VUndef || it->second.v.k == VUndef)) { why.clear(); r.deflt = DTop; continue; }
				return false;
			}
			r.cells[c.first] = {c.second.w, o};
		}
		for (auto& c : rb.cells) if (!ra.cells.count(c.first)) {
			if (ra.deflt == DZero && c.second.v.k == VInt) {
				AVal z = AVal::Int(c.second.v.bits, Lin(0)), o;
				if (!joinVal(z, c.second.v, o)) return false;
				r.cells[c.first] = {c.second.w, o};
			} else if (r.deflt != DElems) r.deflt = DTop;
		}
		// zero ranges: match in order
		r.zero.clear();
		auto ranges = [](const State& S, const Region& x, const Region& y) {
			auto z = x.zero;
			if (x.deflt == DZero && y.deflt != DZero && x.kind != RGlobal) {
				int64_t top = 0;
				for (auto& c : x.cells) { bool z0 = c.second.v.k == VInt && S.P.norm(c.second.v.e) == Lin(0); if (!z0) top = c.first + c.second.w; }
				for (size_t i = 0; i < std::max<size_t>(1, y.zero.size()); i++) z.push_back({Lin((Z)top), x.size});
			}
			return z;
		};
		auto zas = ranges(A, ra, rb), zbs = ranges(B, rb, ra);
		std::vector<char> ub(zbs.size(), 0);
		for (auto& za : zas) {
			int pick = -1;
			for (size_t j = 0; j < zbs.size(); j++) if (!ub[j]) {
				bool l = A.P.norm(za.first) == B.P.norm(zbs[j].first), h = A.P.norm(za.second) == B.P.norm(zbs[j].second);
				if (l && h) { pick = (int)j; break; }
				if ((l || h) && pick < 0) pick = (int)j;
			}
			if (pick < 0) for (size_t j = 0; j < zbs.size(); j++) if (!ub[j]) { pick = (int)j; break; }
			if (pick < 0) continue;
			ub[pick] = 1;
			r.zero.push_back({joinLin(za.first, zbs[pick].first), joinLin(za.second, zbs[pick].second)});
		}
		J.mem[out] = std::make_shared<Region>(r);
		return true;
	}
	static Lin subst(const Lin& l, int v, const Lin& by) {
		Z k = l.coef(v);
		if (!k) return l;
		Lin r = l;
		r.t.erase(std::remove_if(r.t.begin(), r.t.end(), [&](auto& p) { return p.first == v; }), r.t.end());
		return linComb(r, 1, by, k);
	}
	bool run(const AVal* ra, const AVal* rb, AVal* ro) {
		// roots
		if (A.callers.size() != B.callers.size()) return fail("callers");
		{
			std::set<std::string> na, nb;
			for (auto& n : A.notes) if (n.rfind("exc:", 0) == 0) na.insert(n);
			for (auto& n : B.notes) if (n.rfind("exc:", 0) == 0) nb.insert(n);
			if (na != nb) return fail("different exceptions in flight");
		}
		J.callers = A.callers; J.notes = A.notes; J.lineage = A.lineage; J.roots = A.roots;
		for (auto& n : B.notes) J.notes.insert(n);
		if (A.roots.size() != B.roots.size()) return fail("roots");
		for (size_t i = 0; i < A.roots.size(); i++) { AVal o; if (!joinVal(A.roots[i], B.roots[i], o)) return false; J.roots[i] = o; }
		for (size_t i = 0; i < A.callers.size(); i++) {
			if (A.callers[i] != B.callers[i]) return fail("caller frames");
			for (auto& kv : *A.callers[i]) visitVal(kv.second, [&](const AVal& v) { int o; if (v.k == VPtr && v.reg) mapReg(v.reg, v.reg, o); });
			if (!why.empty()) return false;
		}
		if (!joinEnv(A.env, B.env, J.env)) return false;
		if (ra && rb) { if (!joinVal(*ra, *rb, *ro)) return false; }
		for (auto& kv : A.mem) if (kv.second->kind == RGlobal && B.has(kv.first)) { int o; if (!mapReg(kv.first, kv.first, o)) return false; }
		while (!work.empty()) {
			auto p = work.back(); work.pop_back();
			if (!joinRegion(p.first, p.second)) return false;
		}
		for (size_t i = 0; i < A.links.size() && i < B.links.size(); i++) if (A.links[i].dt == B.links[i].dt && A.links[i].es == B.links[i].es) J.links.push_back(A.links[i]);
		return true;
	}
	bool constraints(bool& stable) {
		Poly PA = A.P, PB = B.P;
		stable = true;
		// counter introduction
		std::map<int, Lin> repl = repl0;   // slot var -> expression
		if (mode <= 1) {
			int n = 0; for (auto& s : slots) { Lin d = s.eb - s.ea; if (d.isConst()) ++n; }
			if (n >= 1) {
				int k = VT.fresh("k");
				Z g = 0;
				for (auto& s : slots) { Lin d = s.eb - s.ea; if (d.isConst()) g = zgcd(g, d.c); }
				if (n >= 2 || mode == 1) {
					std::vector<Slot> rest;
					for (auto& s : slots) {
						Lin d = s.eb - s.ea;
						if (d.isConst()) repl[s.v] = linComb(s.ea, 1, Lin::var(k), d.c);
						else rest.push_back(s);
					}
					slots = rest;
					slots.push_back({k, Lin(0), Lin(1), true});
				}
			}
		} else {
			// later joins: shift of an existing counter
			std::set<int> cand;
			for (auto& s : slots) for (auto& p : s.ea.t) if (VT.v[p.first].name == "k") cand.insert(p.first);
			for (int k : cand) {
				bool ok = true, have = false; Lin to;     // what the counter has become on the other side
				std::vector<size_t> which;
				for (size_t i = 0; i < slots.size(); i++) {
					Z c = slots[i].ea.coef(k);
					if (!c) continue;
					Lin d = slots[i].eb - subst(slots[i].ea, k, Lin(0));
					bool exact = d.c % c == 0;
					for (auto& p : d.t) if (p.second % c != 0) exact = false;
					if (!exact) continue;
					d.c = d.c / c;
					for (auto& p : d.t) p.second = p.second / c;
					if (have && !(d == to)) { ok = false; break; }
					have = true; to = d; which.push_back(i);
				}
				if (!ok || !have) continue;
				int k2 = VT.fresh("k");
				std::vector<Slot> rest;
				for (size_t i = 0; i < slots.size(); i++) {
					if (std::find(which.begin(), which.end(), i) != which.end()) repl[slots[i].v] = subst(slots[i].ea, k, Lin::var(k2));
					else rest.push_back(slots[i]);
				}
				slots = rest;
				slots.push_back({k2, Lin::var(k), to, true});
			}
		}
		for (auto& s : slots) { PA.addEq(Lin::var(s.v) - s.ea); PB.addEq(Lin::var(s.v) - s.eb); }
		if (PA.bottom || PB.bottom) { /* contradictory equalities cannot happen for fresh vars */ }
		std::vector<Lin> cands;
		std::set<std::pair<std::vector<std::pair<int, Z>>, Z>> seen;
		auto cand = [&](const Lin& l) { if (l.isConst()) return; if (seen.insert({l.t, l.c}).second) cands.push_back(l); };
		auto addAll = [&](const Poly& P) {
			for (auto& c : P.cons) cand(c);
			for (auto& kv : P.sub) { Lin d = Lin::var(kv.first) - kv.second; cand(d); cand(-d); }
		};
		addAll(A.P);
		if (mode != 2) addAll(B.P);
		// rewrite constraints with slot variables
		auto rewrite = [&](const Poly& P, bool isA) {
			for (auto& s : slots) {
				const Lin& e = isA ? s.ea : s.eb;
				if (e.t.size() != 1 || zabs(e.t[0].second) != 1) continue;
				int x = e.t[0].first;
				// v = k*x + c  =>  x = k*(v - c)
				Lin by = (Lin::var(s.v) - Lin(e.c)) * e.t[0].second;
				for (auto& c : P.cons) if (c.coef(x)) cand(subst(c, x, by));
			}
		};
		rewrite(A.P, true);
		// simultaneous rewriting (several slots that are plain variables on one side)
		auto rewriteAll = [&](const Poly& P, bool isA) {
			std::map<int, Lin> m;
			for (auto& s : slots) { const Lin& e = isA ? s.ea : s.eb; if (e.t.size() == 1 && zabs(e.t[0].second) == 1 && !m.count(e.t[0].first)) m[e.t[0].first] = (Lin::var(s.v) - Lin(e.c)) * e.t[0].second; }
			if (m.size() < 2) return;
			for (auto& c : P.cons) { int n = 0; for (auto& p : c.t) if (m.count(p.first)) ++n; if (n < 2) continue; Lin r(c.c); for (auto& p : c.t) { auto it = m.find(p.first); if (it == m.end()) { Lin q; q.t.push_back(p); r = r + q; } else r = linComb(r, 1, it->second, p.second); } cand(r); }
		};
		rewriteAll(A.P, true);
		if (mode != 2) { rewrite(B.P, false); rewriteAll(B.P, false); }
		// expressions of slots on either side as equalities
		if (mode != 2) for (auto& s : slots) { Lin d = Lin::var(s.v) - s.ea; cand(d); cand(-d); d = Lin::var(s.v) - s.eb; cand(d); cand(-d); }
		Poly JP;
		size_t lost = 0;
		for (auto& c : cands) {
			bool okA = PA.entailsGe(c);
			if (!okA) continue;
			if (PB.entailsGe(c)) { JP.addGe(c); continue; }
			++lost;
			if (mode == 2) {
				// a bound that does not stay where it is may stop at one of a few values
				static const long TH[] = {1, 0, -1, -2147483647L};
				Lin l = c; l.c = 0;
				for (long t : TH) {
					if (Z(t) >= -c.c || (t < -1 && c.t.size() > 1)) continue;
					if (PB.entailsGe(l - Lin((Z)t))) { JP.addGe(l - Lin((Z)t)); break; }
				}
			}
		}
		(void)lost;
		if (mode != 2) {
			// bounds and octagonal relations of slot variables
			std::set<int> us;
			for (auto& s : slots) { us.insert(s.v); for (auto& p : s.ea.t) us.insert(p.first); for (auto& p : s.eb.t) us.insert(p.first); }
			std::set<int> direct = us;
			auto neigh = [&](const Poly& P) { for (auto& c : P.cons) { if (c.t.size() < 2 || c.t.size() > 4) continue; bool t = false; for (auto& p : c.t) if (direct.count(p.first)) t = true; if (t) for (auto& p : c.t) us.insert(p.first); } };
			neigh(PA); neigh(PB);
			if (us.size() > 40) us = direct;
			// what the guard of a loop compares the counters with: variables whose bounds differ on both sides
			{
				std::set<int> va, vb; A.P.vars(va); B.P.vars(vb);
				size_t extra = 0;
				for (int x : va) if (vb.count(x) && !us.count(x) && extra < 8) {
					Z l1, l2;
					bool h1 = A.P.varLo(x, l1), h2 = B.P.varLo(x, l2);
					bool d = h1 != h2 || (h1 && l1 != l2);
					bool g1 = A.P.varHi(x, l1), g2 = B.P.varHi(x, l2);
					if (d || g1 != g2 || (g1 && l1 != l2)) { us.insert(x); ++extra; }
				}
			}
			auto tryMin = [&](const Lin& l) {
				Z x, y;
				Lin na = PA.norm(l), nb = PB.norm(l);
				if (!PA.maxOf(-l, x)) return;
				if (!PB.maxOf(-l, y)) return;
				Z m = std::max(x, y);
				if (l.t.size() > 1) {   // nothing new when the bounds of the variables say it already
					Z lo = l.c, b; bool all = true;
					for (auto& t : l.t) { if (t.second > 0 ? !JP.varLo(t.first, b) : !JP.varHi(t.first, b)) { all = false; break; } lo += t.second * b; }
					if (all && lo >= -m) return;
				}
				JP.addGe(l + Lin(m));
			};
			for (auto& s : slots) { tryMin(Lin::var(s.v)); tryMin(-Lin::var(s.v)); }
			for (auto& s : slots) {
				if (slots.size() <= 14) for (int u : us) if (u != s.v) {
					tryMin(Lin::var(s.v) - Lin::var(u)); tryMin(Lin::var(u) - Lin::var(s.v));
				}
			}
			// a bound of a combination that moves together with a counter
			if (mode && slots.size() <= 14) {
				std::set<std::pair<std::vector<std::pair<int, Z>>, Z>> did;
				std::vector<Lin> ls;
				for (auto* P : {&A.P, &B.P}) for (auto& c : P->cons) if (c.t.size() >= 2 && c.t.size() <= 4) { Lin l = c; l.c = 0; if (did.insert({l.t, l.c}).second) ls.push_back(l); }
				for (auto& l : ls) {
					Z x, y;
					if (!PA.minOf(l, x) || !PB.minOf(l, y) || x == y) continue;
					Z d = y - x;
					for (auto& s : slots) { Lin e = s.eb - s.ea; if (e.isConst() && e.c != 0 && d % e.c == 0) tryMin(l - Lin::var(s.v) * (d / e.c)); }
				}
			}
			// bounds of variables constrained differently on both sides
			std::set<int> va, vb; A.P.vars(va); B.P.vars(vb);
			for (int x : va) if (vb.count(x)) {
				bool isSub = A.P.sub.count(x) || B.P.sub.count(x);
				Z l1, l2;
				bool h1 = A.P.varLo(x, l1), h2 = B.P.varLo(x, l2);
				bool d = h1 && h2 && l1 != l2;
				bool g1 = A.P.varHi(x, l1), g2 = B.P.varHi(x, l2);
				bool d2 = g1 && g2 && l1 != l2;
				if (isSub || d || d2) { tryMin(Lin::var(x)); tryMin(-Lin::var(x)); }
			}
		}
		for (int v : bools) { JP.addGe(Lin::var(v)); JP.addGe(Lin(1) - Lin::var(v)); }
		// apply replacements to J
		J.P = JP;
		if (!repl.empty()) {
			auto rl = [&](Lin& l) { for (auto& kv : repl) if (l.coef(kv.first)) l = subst(l, kv.first, kv.second); };
			std::function<void(AVal&)> rv = [&](AVal& a) { rl(a.e); rl(a.nan); if (a.hasSub) { rl(a.slo); rl(a.shi); } for (auto& x : a.agg) rv(x); };
			for (auto& kv : J.env) rv(kv.second);
			for (auto& a : J.roots) rv(a);
			for (auto& kv : J.mem) {
				Region& r = J.rw(kv.first);
				rl(r.size); rl(r.owned); rl(r.elemDt);
				for (auto& c : r.cells) rv(c.second.v);
				for (auto& z : r.zero) { rl(z.first); rl(z.second); }
			}
			repls = repl;
		}
		// common ne facts
		for (auto& e : A.ne) if (std::find(J.ne.begin(), J.ne.end(), e) == J.ne.end() && std::find(B.ne.begin(), B.ne.end(), e) != B.ne.end()) J.ne.push_back(e);
		// stability (mode 2): every slot must have been a slot/variable and all of A's constraints survive
		if (mode >= 2) {
			if (boolUnstable) stable = false;
			// a renamed variable must not also occur under its old name, nor stand for two different values
			std::set<int> used;
			{
				auto vv = [&](const AVal& a) { visitVal(a, [&](const AVal& v) { collectVars(v.e, used); collectVars(v.nan, used); if (v.hasSub) { collectVars(v.slo, used); collectVars(v.shi, used); } }); };
				for (auto& kv : J.env) vv(kv.second);
				for (auto& a : J.roots) vv(a);
				for (auto& c : J.callers) for (auto& kv : *c) vv(kv.second);
				for (auto& kv : J.mem) { const Region& r = *kv.second; collectVars(r.size, used); collectVars(r.owned, used); collectVars(r.elemDt, used); for (auto& c : r.cells) vv(c.second.v); for (auto& z : r.zero) { collectVars(z.first, used); collectVars(z.second, used); } }
				for (auto& l : J.links) { collectVars(l.dt, used); collectVars(l.es, used); }
				for (auto& e : J.ne) collectVars(e, used);
			}
			for (int x : oldBools) { if (used.count(x)) stable = false; for (auto& s : slots) if (s.ea.coef(x)) stable = false; }
			std::set<int> factorVars;
			{ std::set<int> pv; A.P.vars(pv); for (int v : pv) for (int f : VT.v[v].factors) factorVars.insert(f); for (auto& kv : A.P.sub) for (auto& p : kv.second.t) for (int f : VT.v[p.first].factors) factorVars.insert(f); }
			std::map<int, Lin> image;
			for (auto& s : slots) if (s.ea.t.size() == 1 && zabs(s.ea.t[0].second) == 1) {
				int x = s.ea.t[0].first;
				if (used.count(x)) { stable = false; break; }
				Lin im = (s.eb - Lin(s.ea.c)) * s.ea.t[0].second;   // what x becomes in B
				auto it = image.find(x);
				if (it == image.end()) image[x] = im; else if (!PB.entailsEq(it->second - im)) { stable = false; break; }
			}
			if (stable) for (auto& s : slots) {
				bool renamed = s.ea.t.size() == 1 && zabs(s.ea.t[0].second) == 1;
				if (renamed) { int x = s.ea.t[0].first; if (!VT.v[x].factors.empty() || factorVars.count(x)) renamed = false; }
				if (!renamed) { stable = false; break; }
			}
			if (stable) {
				// every constraint of A (with slots rewritten) must be entailed by B
				for (auto& c : A.P.cons) {
					if (c.t.size() == 1 && oldBools.count(c.t[0].first) && (c.t[0].second > 0 ? c.c >= 0 : c.c >= 1)) continue;   // the new one is 0 or 1 as well
					Lin r(c.c);
					std::map<int, Lin> m;
					for (auto& s : slots) if (s.ea.t.size() == 1) { int x = s.ea.t[0].first; if (!m.count(x)) m[x] = (Lin::var(s.v) - Lin(s.ea.c)) * s.ea.t[0].second; }
					for (auto& p : c.t) { auto it = m.find(p.first); if (it == m.end()) { Lin q; q.t.push_back(p); r = r + q; } else r = linComb(r, 1, it->second, p.second); }
					if (!PB.entailsGe(r)) { stable = false; break; }
				}
				for (auto& kv : A.P.sub) { if (!stable) break; Lin d = Lin::var(kv.first) - kv.second;
					std::map<int, Lin> m;
					for (auto& s : slots) if (s.ea.t.size() == 1) { int x = s.ea.t[0].first; if (!m.count(x)) m[x] = (Lin::var(s.v) - Lin(s.ea.c)) * s.ea.t[0].second; }
					Lin r(d.c); for (auto& p : d.t) { auto it = m.find(p.first); if (it == m.end()) { Lin q; q.t.push_back(p); r = r + q; } else r = linComb(r, 1, it->second, p.second); }
					if (!PB.entailsEq(r)) stable = false; }
			}
			// structural stability
			if (stable) for (auto& kv : rmap) {
				if (!A.has(kv.first.first) || !J.has(kv.second)) continue;
				const Region& ra = A.ro(kv.first.first); const Region& rj = J.ro(kv.second);
				if (ra.cells.size() != rj.cells.size() || ra.zero.size() != rj.zero.size() || ra.deflt != rj.deflt || ra.nullState != rj.nullState || ra.lazy != rj.lazy) { stable = false; break; }
				for (auto& c : ra.cells) { auto it = rj.cells.find(c.first); if (it == rj.cells.end() || it->second.v.k != c.second.v.k) stable = false; }
				if (kv.first.first != kv.first.second && kv.second != kv.first.first) {
					// region renamed: stable only if A's region already was a join region with same attributes
				}
			}
			if (stable) for (auto& kv : A.env) { auto it = J.env.find(kv.first); if (it == J.env.end() || it->second.k != kv.second.k) { stable = false; break; } }
			if (stable && A.ne.size() != J.ne.size()) stable = false;
		}
		return true;
	}
	std::map<int, Lin> repls;
};
}
JoinRes joinStates(const State& a, const State& b, int mode, const AVal* ra, const AVal* rb, AVal* rout) {
	JoinRes r;
	Joiner j(a, b, mode);
	AVal ro;
	if (!j.run(ra, rb, &ro)) { r.why = j.why; return r; }
	if (!j.constraints(r.stable)) { r.why = j.why; return r; }
	if (rout && ra) {
		*rout = ro;
		std::function<void(AVal&)> rv = [&](AVal& x) { for (auto& kv : j.repls) { x.e = Joiner::subst(x.e, kv.first, kv.second); x.nan = Joiner::subst(x.nan, kv.first, kv.second); } for (auto& y : x.agg) rv(y); };
		rv(*rout);
	}
	r.ok = true;
	r.s = std::move(j.J);
	return r;
}
