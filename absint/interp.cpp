// Abstract execution of LLVM IR: instructions, calls, loops, library models.
#include "engine.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include <cmath>
#include <cstring>
using namespace llvm;
static Z pow2(int n) { return (Z)1 << n; }
static Z smin(int b) { return -pow2(b - 1); }
static Z smax(int b) { return pow2(b - 1) - 1; }
static const Z ORD_INF = 0x7ff0000000000000LL;

// ------------------------------------------------------------------ per-function facts
const FnInfo& Engine::info(const Function* F) {
	auto it = finfo.find(F);
	if (it != finfo.end()) return it->second;
	FnInfo& fi = finfo[F];
	fi.DT = std::make_unique<DominatorTree>(*const_cast<Function*>(F));
	fi.LI = std::make_unique<LoopInfo>(*fi.DT);
	ReversePostOrderTraversal<const Function*> rpot(F);
	// loop-aware order: blocks of a loop come before blocks after it
	int n = 0;
	std::vector<const BasicBlock*> order(rpot.begin(), rpot.end());
	for (auto* b : order) fi.rpo[b] = n++;
	for (bool ch = true; ch;) {
		ch = false;
		for (auto oi = order.rbegin(); oi != order.rend(); ++oi) {
			const BasicBlock* b = *oi;
			std::set<const Value*> live;
			for (auto* s : successors(b)) {
				auto& l = fi.liveIn[s];
				live.insert(l.begin(), l.end());
				for (auto& ph : s->phis()) { const Value* v = ph.getIncomingValueForBlock(b); if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v); }
			}
			for (auto i = b->rbegin(); i != b->rend(); ++i) {
				live.erase(&*i);
				if (isa<PHINode>(&*i) || isa<DbgInfoIntrinsic>(&*i)) continue;
				for (auto& op : i->operands()) if (isa<Instruction>(op) || isa<Argument>(op)) live.insert(op);
			}
			if (live != fi.liveIn[b]) { fi.liveIn[b] = live; ch = true; }
		}
	}
	return fi;
}
static void pruneTo(State& s, const std::set<const Value*>& live) {
	for (auto it = s.env.begin(); it != s.env.end();) {
		if (!live.count(it->first) && !isa<AllocaInst>(it->first)) it = s.env.erase(it); else ++it;
	}
}
void Engine::pruneEnv(State& s, const BasicBlock* bb, const BasicBlock* from) {
	auto& fi = info(bb->getParent());
	std::set<const Value*> live = fi.liveIn.at(bb);
	for (auto& ph : bb->phis()) live.insert(&ph);
	if (bb->isLandingPad()) live.insert(bb->getLandingPadInst());
	pruneTo(s, live);
}
static void liveAfter(const FnInfo& fi, const Instruction* I, std::set<const Value*>& live) {
	const BasicBlock* b = I->getParent();
	for (auto* s : successors(b)) {
		auto it = fi.liveIn.find(s);
		if (it != fi.liveIn.end()) live.insert(it->second.begin(), it->second.end());
		for (auto& ph : s->phis()) { const Value* v = ph.getIncomingValueForBlock(b); live.insert(v); }
	}
	for (auto i = std::next(I->getIterator()); i != b->end(); ++i) for (auto& op : i->operands()) live.insert(op);
	live.insert(I);
}

// ------------------------------------------------------------------ merging
// Two states that agree on every small constant they hold (a rank, a flag, an element kind) lose little when joined; states that
// disagree lose the connection between that constant and everything else.  Joins are therefore made in order of disagreement, and the
// limit is soft for states that disagree.
struct SigV { bool k; Z c; Lin e; };
typedef std::map<std::pair<const void*, int64_t>, SigV> Sig;
static void sigVal(const State& s, Sig& g, const void* k, int64_t o, const AVal& v) {
	if (v.k == VInt) {
		Lin e = s.P.norm(v.e);
		g[{k, o}] = {e.isConst() && e.c >= -64 && e.c <= 64, e.c, e};
	} else if (v.k == VPtr) { Lin e = s.P.norm(v.e); g[{k, o}] = {true, Z(-1000000) - v.reg, e}; }
}
static Sig sigOf(const State& s) {
	Sig g;
	for (auto& kv : s.env) sigVal(s, g, kv.first, -1, kv.second);
	for (auto& kv : s.mem) if (kv.second) for (auto& c : kv.second->cells) sigVal(s, g, (const void*)(intptr_t)kv.first, c.first, c.second.v);
	return g;
}
static int sigDist(const Sig& a, const Sig& b) {
	int d = 0;
	auto i = a.begin(); auto j = b.begin();
	while (i != a.end() && j != b.end()) {
		if (i->first < j->first) ++i; else if (j->first < i->first) ++j;
		else {
			if (i->second.k != j->second.k || (i->second.k && i->second.c != j->second.c)) d += 8;
			else if (!(i->second.e == j->second.e)) d += 1;
			++i; ++j;
		}
	}
	return d;
}
template <class T> static void thin(std::vector<T>& v, size_t limit) {
	if (v.size() <= limit) return;
	std::vector<T> out;
	for (size_t i = 0; i < limit; ++i) out.push_back(std::move(v[i * v.size() / limit]));
	v.swap(out);
}
static bool keepApart = false;
template <class T, class GetS, class TryJoin> static void mergeVec(std::vector<T>& v, size_t limit, GetS gs, TryJoin tj) {
	if (keepApart) { thin(v, limit); return; }
	if (v.size() <= limit) return;
	std::vector<Sig> sg;
	for (auto& x : v) sg.push_back(sigOf(x.*gs));
	size_t n = v.size(), alive = n;
	std::vector<char> dead(n, 0);
	std::vector<std::vector<int>> dist(n, std::vector<int>(n, -1));
	for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) dist[i][j] = sigDist(sg[i], sg[j]);
	while (alive > limit) {
		int best = 1 << 30; size_t bi = 0, bj = 0;
		for (size_t i = 0; i < n; ++i) if (!dead[i]) for (size_t j = i + 1; j < n; ++j) if (!dead[j] && dist[i][j] >= 0 && dist[i][j] < best) { best = dist[i][j]; bi = i; bj = j; }
		if (best == 1 << 30) break;
		if (best >= 8 && alive <= limit + limit / 2) break;
		if (!tj(v[bi], v[bj])) { dist[bi][bj] = -1; continue; }
		dead[bj] = 1; --alive;
		sg[bi] = sigOf(v[bi].*gs);
		for (size_t k = 0; k < n; ++k) if (!dead[k] && k != bi) (k < bi ? dist[k][bi] : dist[bi][k]) = sigDist(sg[k], sg[bi]);
	}
	std::vector<T> out;
	for (size_t i = 0; i < n; ++i) if (!dead[i]) out.push_back(std::move(v[i]));
	v.swap(out);
}
void Engine::mergeEdges(std::vector<EdgeState>& v, size_t limit) {
	keepApart = confirm;
	mergeVec(v, limit, &EdgeState::s, [&](EdgeState& y, EdgeState& x) {
		tick();
		auto jr = joinStates(y.s, x.s, 0);
		if (trace && !jr.ok) fprintf(stderr, "  [merge edge fail: %s]\n", jr.why.c_str());
		if (!jr.ok) return false;
		y.s = std::move(jr.s);
		return true;
	});
	if (v.size() > 64) throw GiveUp{"too many distinct shapes at a program point"};
}
static void mergeStates(Engine& E, std::vector<State>& v, size_t limit) {
	keepApart = E.confirm;
	struct W { State s; };
	std::vector<W> w;
	for (auto& x : v) w.push_back({std::move(x)});
	mergeVec(w, limit, &W::s, [&](W& y, W& x) {
		E.tick();
		auto jr = joinStates(y.s, x.s, 0);
		if (E.trace && !jr.ok) fprintf(stderr, "  [merge fail: %s]\n", jr.why.c_str());
		if (!jr.ok) return false;
		y.s = std::move(jr.s);
		return true;
	});
	v.clear();
	for (auto& x : w) v.push_back(std::move(x.s));
	if (v.size() > 64) throw GiveUp{"too many distinct shapes at a program point"};
}
void Engine::mergeOutcomes(std::vector<Outcome>& v, size_t limit) {
	keepApart = confirm;
	size_t nn = 0; for (auto& o : v) if (!o.thrown) ++nn;
	std::vector<Outcome> nv, tv, out;
	for (auto& o : v) (o.thrown ? tv : nv).push_back(std::move(o));
	auto tj = [&](Outcome& y, Outcome& x) {
		if (y.exc != x.exc) return false;
		tick();
		AVal rv;
		auto jr = joinStates(y.s, x.s, 0, &y.v, &x.v, &rv);
		if (trace && !jr.ok) fprintf(stderr, "  [merge outcome fail: %s]\n", jr.why.c_str());
		if (!jr.ok) return false;
		y.s = std::move(jr.s); y.v = rv;
		return true;
	};
	mergeVec(nv, limit, &Outcome::s, tj);
	std::map<std::string, std::vector<Outcome>> byExc;
	for (auto& o : tv) byExc[o.exc].push_back(std::move(o));
	v.clear();
	for (auto& o : nv) v.push_back(std::move(o));
	for (auto& kv : byExc) { mergeVec(kv.second, limit > 20 ? limit : 2, &Outcome::s, tj); for (auto& o : kv.second) v.push_back(std::move(o)); }
	if (v.size() > 120) throw GiveUp{"too many distinct outcomes"};
}

// ------------------------------------------------------------------ values
bool Engine::forceInt(State& s, const Value* v, std::vector<State>& retry) {
	AVal a = val(s, v);
	if (a.k == VInt) return true;
	if (a.k == VCond) {
		int bits = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 1;
		for (int t = 1; t >= 0; --t) { State n = s; if (assumeCond(n, a, t)) { n.env[v] = AVal::Int(bits, Lin(t)); retry.push_back(std::move(n)); } }
		return false;
	}
	if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) return true;
	s.env[v] = freshOf(s, v->getType(), a.k == VUndef ? "undef" : "top");
	return true;
}
static bool isUndefOperand(Engine& E, State& s, const Value* v) { AVal a = E.val(s, v); return a.k == VUndef; }
// result r of exact arithmetic reduced to `bits`
void Engine::wrapTo(State& s, const Instruction& I, const Lin& r0, int bits, std::vector<State>& more, bool, const char* what) {
	Lin r = s.P.norm(r0);
	if (r.isConst()) {
		Z c = r.c, m = pow2(bits);
		c = c - zfloor(c, m) * m; if (c > smax(bits)) c -= m;
		s.env[&I] = AVal::Int(bits, Lin(c));
		return;
	}
	bool hiOk = s.P.entailsGe(Lin(smax(bits)) - r), loOk = s.P.entailsGe(r - Lin(smin(bits)));
	if (hiOk && loOk) { s.env[&I] = AVal::Int(bits, r); return; }
	bool one = s.P.entailsGe(Lin(smax(bits) + pow2(bits)) - r) && s.P.entailsGe(r - Lin(smin(bits) - pow2(bits)));
	State base_ = s;
	std::vector<State> res;
	{ State n = base_; if (assumeGe(n, Lin(smax(bits)) - r) && assumeGe(n, r - Lin(smin(bits)))) { n.env[&I] = AVal::Int(bits, r); res.push_back(std::move(n)); } }
	if (!hiOk) { State n = base_; if (assumeGe(n, r - Lin(smax(bits) + 1))) {
		n.notes.insert("wrap");
		if (one) n.env[&I] = AVal::Int(bits, r - Lin(pow2(bits)));
		else { Lin f = freshInt(n, bits, "wrap"); Lin q = Lin::var(VT.fresh("q")); n.P.addGe(q - Lin(1)); try { n.P.addEq(r - f - q * pow2(bits)); } catch (Ovf&) {} n.env[&I] = AVal::Int(bits, f); }
		res.push_back(std::move(n)); } }
	if (!loOk) { State n = base_; if (assumeGe(n, Lin(smin(bits) - 1) - r)) {
		n.notes.insert("wrap");
		if (one) n.env[&I] = AVal::Int(bits, r + Lin(pow2(bits)));
		else { Lin f = freshInt(n, bits, "wrap"); Lin q = Lin::var(VT.fresh("q")); n.P.addGe(Lin(-1) - q); try { n.P.addEq(r - f - q * pow2(bits)); } catch (Ovf&) {} n.env[&I] = AVal::Int(bits, f); }
		res.push_back(std::move(n)); } }
	if (res.empty()) { s.P.bottom = true; return; }
	s = std::move(res[0]);
	for (size_t i = 1; i < res.size(); i++) more.push_back(std::move(res[i]));
}
static void signSplit(Engine& E, const State& s, const Lin& e, std::vector<std::pair<State, bool>>& out) {
	if (s.P.entailsGe(e)) { out.push_back({s, true}); return; }
	if (s.P.entailsGe(-e - Lin(1))) { out.push_back({s, false}); return; }
	{ State n = s; if (E.assumeGe(n, e)) out.push_back({n, true}); }
	{ State n = s; if (E.assumeGe(n, -e - Lin(1))) out.push_back({n, false}); }
}
static void finish(State& s, std::vector<State>& res, std::vector<State>& more) {
	if (res.empty()) { s.P.bottom = true; return; }
	s = std::move(res[0]);
	for (size_t i = 1; i < res.size(); i++) more.push_back(std::move(res[i]));
}
AVal Engine::gep(State& s, const GEPOperator& G) {
	AVal p = val(s, G.getPointerOperand());
	if (p.k == VFn) return AVal::Top();
	if (p.k == VInt && s.P.norm(p.e) == Lin(0)) p = AVal::Null();
	if (p.k != VPtr) return p.k == VUndef ? p : AVal::Top();
	Type* t = G.getSourceElementType();
	Lin off = p.e;
	bool first = true;
	Lin lastArrBase; bool arr = false; Lin arrSize;
	for (auto it = G.idx_begin(); it != G.idx_end(); ++it) {
		const Value* iv = *it;
		Lin idx;
		if (auto* ci = dyn_cast<ConstantInt>(iv)) idx = Lin((Z)ci->getSExtValue());
		else {
			AVal a = val(s, iv);
			if (a.k == VInt) idx = a.e;
			else if (a.k == VUndef) return AVal::Undef();
			else { idx = freshOf(s, iv->getType(), "idx").e; }
		}
		if (first) { off = off + linMul(idx, Lin((Z)DL.getTypeAllocSize(t).getFixedValue())); first = false; continue; }
		if (auto* st = dyn_cast<StructType>(t)) {
			unsigned n = (unsigned)(int64_t)idx.c;
			off = off + Lin((Z)DL.getStructLayout(st)->getElementOffset(n).getFixedValue());
			t = st->getElementType(n);
			arr = false;
		} else if (auto* at = dyn_cast<ArrayType>(t)) {
			lastArrBase = off; arr = at->getNumElements() != 0; arrSize = Lin((Z)DL.getTypeAllocSize(at).getFixedValue());
			t = at->getElementType();
			off = off + linMul(idx, Lin((Z)DL.getTypeAllocSize(t).getFixedValue()));
		} else return AVal::Top();
	}
	AVal r = p;
	r.e = s.P.norm(off);
	if (arr) { r.hasSub = true; r.slo = lastArrBase; r.shi = lastArrBase + arrSize; }
	return r;
}
// u >= 0 divided by c > 0 where u is a multiple of c plus a rest that stays within one step: quotient and rest without new names
bool exactDiv(State& n, const Lin& u0, Z c, Lin& q, Lin& r) {
	Lin u = n.P.norm(u0);
	q = Lin(u.c / c); r = Lin(u.c % c);
	for (auto& t : u.t) { Z k = t.second / c, m = t.second % c; if (k != 0) q = q + n.P.norm(Lin::var(t.first)) * k; if (m != 0) r = r + n.P.norm(Lin::var(t.first)) * m; }
	Z lo, hi;
	if (!n.P.minOf(r, lo) || !n.P.maxOf(r, hi)) return false;
	auto fl = [&](Z v) { return v >= 0 ? v / c : -((-v + c - 1) / c); };
	Z f = fl(lo);
	if (f != fl(hi)) return false;
	q = q + Lin(f); r = r - Lin(f * c);
	return true;
}
int Engine::binop(State& s, const BinaryOperator& I, std::vector<State>& more) {
	int bits = I.getType()->getIntegerBitWidth();
	AVal a = val(s, I.getOperand(0)), b = val(s, I.getOperand(1));
	auto freshRes = [&](const char* n) { s.env[&I] = freshOf(s, I.getType(), n); return 1; };
	if (a.k != VInt || b.k != VInt) return freshRes("arith");
	Lin x = s.P.norm(a.e), y = s.P.norm(b.e);
	try {
		switch (I.getOpcode()) {
		case Instruction::Add: wrapTo(s, I, x + y, bits, more, false, "addition"); return s.P.bottom ? 0 : 1;
		case Instruction::Sub: wrapTo(s, I, x - y, bits, more, false, "subtraction"); return s.P.bottom ? 0 : 1;
		case Instruction::Mul: {
			Lin r;
			try { r = linMul(x, y); } catch (Ovf&) { return freshRes("mul"); }
			if (!x.isConst() && !y.isConst()) {
				// bounds of a product from bounds of its factors
				Z xl, xh, yl, yh;
				if (s.P.minOf(x, xl) && s.P.maxOf(x, xh) && s.P.minOf(y, yl) && s.P.maxOf(y, yh)) {
					Z c[4] = {zmul(xl, yl), zmul(xl, yh), zmul(xh, yl), zmul(xh, yh)};
					Z lo = c[0], hi = c[0];
					for (int i = 1; i < 4; i++) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
					s.P.addGe(r - Lin(lo)); s.P.addGe(Lin(hi) - r);
				}
			}
			wrapTo(s, I, r, bits, more, false, "multiplication");
			return s.P.bottom ? 0 : 1;
		}
		case Instruction::Shl: {
			if (!y.isConst()) {
				// a number that is known moved up by an amount within limits
				Z lo, hi;
				freshRes("shl");
				if (x.isConst() && x.c > 0 && s.P.minOf(y, lo) && s.P.maxOf(y, hi) && lo >= 0 && hi < bits - 1 && x.c <= smax(bits) / pow2((int)hi)) {
					Lin r = s.env[&I].e;
					s.P.addGe(r - Lin(x.c * pow2((int)lo))); s.P.addGe(Lin(x.c * pow2((int)hi)) - r);
				}
				return 1;
			}
			if (y.c < 0 || y.c >= bits) { alarm("div", &I, "shift amount out of range", &s); return freshRes("shl"); }
			wrapTo(s, I, x * pow2((int)y.c), bits, more, false, "shift");
			return s.P.bottom ? 0 : 1;
		}
		case Instruction::AShr: case Instruction::LShr: {
			if (!y.isConst()) return freshRes("shr");
			if (y.c < 0 || y.c >= bits) { alarm("div", &I, "shift amount out of range", &s); return freshRes("shr"); }
			if (y.c == 0) { s.env[&I] = AVal::Int(bits, x); return 1; }
			int k = (int)y.c;
			std::vector<std::pair<State, bool>> sp; std::vector<State> res;
			signSplit(*this, s, x, sp);
			for (auto& p : sp) {
				State& n = p.first;
				bool ash = I.getOpcode() == Instruction::AShr;
				Lin u = (p.second || ash) ? x : x + Lin(pow2(bits));
				Lin q;
				Lin eq, er;
				if (k == bits - 1) q = Lin(p.second ? 0 : ash ? -1 : 1);
				else if (exactDiv(n, u, pow2(k), eq, er)) q = n.P.norm(eq);
				else if (n.P.norm(u).isConst()) { Z v = n.P.norm(u).c, w = v / pow2(k); q = Lin(v % pow2(k) < 0 ? w - 1 : w); }
				else {
					q = Lin::var(VT.fresh("shr"));
					n.P.addGe(u - q * pow2(k)); n.P.addGe(q * pow2(k) + Lin(pow2(k) - 1) - u);
					if (p.second || !ash) n.P.addGe(q); else n.P.addGe(-q - Lin(1));
					n.P.addGe(Lin(smax(bits)) - q); n.P.addGe(q - Lin(smin(bits)));
				}
				n.env[&I] = AVal::Int(bits, q);
				res.push_back(std::move(n));
			}
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		case Instruction::And: {
			if (x.isConst()) std::swap(x, y);
			if (x == y) { s.env[&I] = AVal::Int(bits, x); return 1; }
			if (y.isConst() && y.c == 0) { s.env[&I] = AVal::Int(bits, Lin(0)); return 1; }
			if (y.isConst() && y.c == -1) { s.env[&I] = AVal::Int(bits, x); return 1; }
			if (x.isConst() && y.isConst()) { s.env[&I] = AVal::Int(bits, Lin(x.c & y.c)); return 1; }
			if (y.isConst()) {
				// the runs of one bits in the mask
				std::vector<std::pair<int, int>> runs;
				for (int i = 0; i < bits; ) { if (!((y.c >> i) & 1)) { ++i; continue; } int j = i; while (j < bits && ((y.c >> j) & 1)) ++j; runs.push_back({i, j}); i = j; }
				if (runs.size() <= 3) {
					auto low = [&](int n) -> Lin {
						if (n == 0) return Lin(0);
						if (n >= bits) return x;   // with the sign
						Z l, h, m = pow2(n); Lin eq, er;
						if (exactDiv(s, x, m, eq, er)) return er;
						if (s.P.minOf(x, l) && s.P.maxOf(x, h)) {
							auto fl = [&](Z v) { Z q = v / m; return v % m < 0 ? q - 1 : q; };
							if (fl(l) == fl(h)) return x - Lin(fl(l) * m);
						}
						Lin q = Lin::var(VT.fresh("q")), r = freshRange(s, 0, m - 1, "and");
						s.P.addEq(x - q * m - r);
						return r;
					};
					Lin r(0);
					for (auto& p : runs) r = r + low(p.second) - low(p.first);
					s.env[&I] = AVal::Int(bits, s.P.norm(r));
					return 1;
				}
			}
			Lin r = freshOf(s, I.getType(), "and").e;
			bool xp = s.P.entailsGe(x), yp = s.P.entailsGe(y);
			if (xp || yp) s.P.addGe(r);
			if (xp) s.P.addGe(x - r);
			if (yp) s.P.addGe(y - r);
			// x & y = x - (x & ~y)
			if (!yp && s.P.entailsGe(-y - Lin(1))) { s.P.addGe(x - r); s.P.addGe(r - x - y - Lin(1)); }
			if (!xp && s.P.entailsGe(-x - Lin(1))) { s.P.addGe(y - r); s.P.addGe(r - x - y - Lin(1)); }
			if (bits == 1 || (xp && yp && s.P.entailsGe(Lin(1) - x) && s.P.entailsGe(Lin(1) - y))) s.P.addGe(r - x - y + Lin(1));
			s.env[&I] = AVal::Int(bits, r);
			return 1;
		}
		case Instruction::Or: {
			if (x == y || (y.isConst() && y.c == 0)) { s.env[&I] = AVal::Int(bits, x); return 1; }
			if (x.isConst() && x.c == 0) { s.env[&I] = AVal::Int(bits, y); return 1; }
			if ((x.isConst() && x.c == -1) || (y.isConst() && y.c == -1)) { s.env[&I] = AVal::Int(bits, Lin(-1)); return 1; }
			if (x.isConst() && y.isConst()) { s.env[&I] = AVal::Int(bits, Lin(x.c | y.c)); return 1; }
			Lin r = freshOf(s, I.getType(), "or").e;
			if (s.P.entailsGe(-x - Lin(1)) || s.P.entailsGe(-y - Lin(1))) s.P.addGe(-r - Lin(1));
			else if (s.P.entailsGe(x) && s.P.entailsGe(y)) {
				s.P.addGe(r - x); s.P.addGe(r - y); s.P.addGe(x + y - r);
				if (s.P.entailsGe(Lin(1) - x) && s.P.entailsGe(Lin(1) - y)) s.P.addGe(Lin(1) - r);
			}
			// x | y = x + (y & ~x)
			else if (s.P.entailsGe(y)) { s.P.addGe(r - x); s.P.addGe(x + y - r); }
			else if (s.P.entailsGe(x)) { s.P.addGe(r - y); s.P.addGe(x + y - r); }
			s.env[&I] = AVal::Int(bits, r);
			return 1;
		}
		case Instruction::Xor: {
			if (x == y) { s.env[&I] = AVal::Int(bits, Lin(0)); return 1; }
			if (y.isConst() && y.c == -1) { s.env[&I] = AVal::Int(bits, -x - Lin(1)); return 1; }
			if (y.isConst() && y.c == 0) { s.env[&I] = AVal::Int(bits, x); return 1; }
			if (y.isConst() && y.c == 1 && s.P.entailsGe(x) && s.P.entailsGe(Lin(1) - x)) { s.env[&I] = AVal::Int(bits, Lin(1) - x); return 1; }
			if (x.isConst() && y.isConst()) { s.env[&I] = AVal::Int(bits, Lin(x.c ^ y.c)); return 1; }
			if (x.isConst() && x.c == smin(bits)) std::swap(x, y);
			if (y.isConst() && y.c == smin(bits)) {   // the top bit changes
				std::vector<std::pair<State, bool>> sp; std::vector<State> res;
				signSplit(*this, s, x, sp);
				for (auto& p : sp) { p.first.env[&I] = AVal::Int(bits, p.first.P.norm(p.second ? x + Lin(smin(bits)) : x - Lin(smin(bits)))); res.push_back(std::move(p.first)); }
				finish(s, res, more);
				return s.P.bottom ? 0 : 1;
			}
			Lin r = freshOf(s, I.getType(), "xor").e;
			bool xp = s.P.entailsGe(x), yp = s.P.entailsGe(y), xn = s.P.entailsGe(-x - Lin(1)), yn = s.P.entailsGe(-y - Lin(1));
			if ((xp && yp) || (xn && yn)) s.P.addGe(r);
			else if ((xp && yn) || (xn && yp)) s.P.addGe(-r - Lin(1));
			else if (xp || xn || yp || yn || bits > 1) {
				// split on the signs: sign of the result is what overflow tests look at
				std::vector<std::pair<State, bool>> sp; std::vector<State> res;
				signSplit(*this, s, x, sp);
				for (auto& p : sp) {
					std::vector<std::pair<State, bool>> sq;
					signSplit(*this, p.first, y, sq);
					for (auto& q : sq) { State n = q.first; if (p.second == q.second) n.P.addGe(r); else n.P.addGe(-r - Lin(1)); n.env[&I] = AVal::Int(bits, r); res.push_back(std::move(n)); }
				}
				finish(s, res, more);
				return s.P.bottom ? 0 : 1;
			}
			s.env[&I] = AVal::Int(bits, r);
			return 1;
		}
		case Instruction::SDiv: case Instruction::SRem: {
			bool rem = I.getOpcode() == Instruction::SRem;
			// obligations
			if (!y.isConst()) {
				State z = s;
				if (assumeEq(z, y)) { alarm("div", &I, "division by a value that can be zero", &s, {{y, -y}}); if (!assumeNe(s, y)) return 0; }
				else ok("div", &I);
			} else if (y.c == 0) { alarm("div", &I, "division by zero", &s); return 0; }
			else ok("div", &I);
			if (bits >= 32) {
				State z = s;
				if (assumeEq(z, y + Lin(1)) && assumeEq(z, x - Lin(smin(bits)))) {
					alarm("div", &I, "quotient does not fit (minimum divided by -1)", &z);
					if (assumeEq(s, y + Lin(1))) { if (!assumeGe(s, x - Lin(smin(bits) + 1))) return 0; }
				}
			}
			if (y.isConst()) {   // every term is a multiple of the divisor
				bool all = x.c % y.c == 0;
				for (auto& t : x.t) if (t.second % y.c != 0) all = false;
				if (all) {
					Lin q = x; q.c /= y.c; for (auto& t : q.t) t.second /= y.c;
					s.env[&I] = AVal::Int(bits, rem ? Lin(0) : q);
					return 1;
				}
			}
			std::vector<std::pair<State, bool>> sp; std::vector<State> res;
			signSplit(*this, s, x, sp);
			for (auto& p : sp) {
				State& n = p.first;
				if (y.isConst()) {
					Z c = y.c, ac = zabs(c);
					Lin eq, er;
					if (exactDiv(n, p.second ? x : -x, ac, eq, er)) {
						n.env[&I] = AVal::Int(bits, n.P.norm(rem ? (p.second ? er : -er) : (p.second == (c > 0) ? eq : -eq)));
						res.push_back(std::move(n));
						continue;
					}
					Lin q = Lin::var(VT.fresh("q")), r = Lin::var(VT.fresh("r"));
					// x = q*c + r
					Lin aq = q;   // quotient by |c|
					if (p.second) { n.P.addGe(r); n.P.addGe(Lin(ac - 1) - r); n.P.addGe(aq); n.P.addGe(x - aq); }
					else { n.P.addGe(-r); n.P.addGe(r + Lin(ac - 1)); n.P.addGe(-aq); n.P.addGe(aq - x); }
					n.P.addEq(x - aq * ac - r);
					n.env[&I] = AVal::Int(bits, n.P.norm(rem ? r : (c < 0 ? -aq : aq)));
					res.push_back(std::move(n));
				} else {
					std::vector<std::pair<State, bool>> sq;
					signSplit(*this, n, y, sq);
					for (auto& qq : sq) {
						State m = qq.first;
						Lin ax = p.second ? x : -x, ay = qq.second ? y : -y;
						if (m.P.entailsGe(ay - ax - Lin(1))) { m.env[&I] = AVal::Int(bits, rem ? x : Lin(0)); res.push_back(std::move(m)); continue; }
						if (m.P.entailsEq(ax - ay)) { m.env[&I] = AVal::Int(bits, rem ? Lin(0) : Lin(p.second == qq.second ? 1 : -1)); res.push_back(std::move(m)); continue; }
						if (rem) {
							Lin r = freshOf(m, I.getType(), "r").e;
							Lin ay = qq.second ? y : -y;
							if (p.second) { m.P.addGe(r); m.P.addGe(ay - Lin(1) - r); m.P.addGe(x - r); }
							else { m.P.addGe(-r); m.P.addGe(r + ay - Lin(1)); m.P.addGe(r - x); }
							m.env[&I] = AVal::Int(bits, r);
						} else {
							Lin q = freshOf(m, I.getType(), "q").e; if (confirm && p.second && qq.second) m.approx.erase(q.t[0].first);
							bool pos = p.second == qq.second;
							Lin ax = p.second ? x : -x;
							if (pos) { m.P.addGe(q); m.P.addGe(ax - q); } else { m.P.addGe(-q); m.P.addGe(ax + q); }
							if (p.second && qq.second) try { Lin qb = linMul(q, y); m.P.addGe(x - qb); m.P.addGe(qb + y - Lin(1) - x); } catch (Ovf&) {}
							m.env[&I] = AVal::Int(bits, q);
						}
						res.push_back(std::move(m));
					}
				}
			}
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		case Instruction::UDiv: case Instruction::URem: {
			bool rem = I.getOpcode() == Instruction::URem;
			if (!y.isConst()) {
				State z = s;
				if (assumeEq(z, y)) { alarm("div", &I, "division by a value that can be zero", &s, {{y, -y}}); if (!assumeNe(s, y)) return 0; }
				else ok("div", &I);
			} else if (y.c == 0) { alarm("div", &I, "division by zero", &s); return 0; }
			else ok("div", &I);
			std::vector<std::pair<State, bool>> sp; std::vector<State> res;
			signSplit(*this, s, x, sp);
			for (auto& p : sp) {
				State& n = p.first;
				Lin u = p.second ? x : x + Lin(pow2(bits));
				Lin eq, er;
				Lin un = n.P.norm(u);
				auto canon = [&](Z v) { v = v - zfloor(v, pow2(bits)) * pow2(bits); return v > smax(bits) ? v - pow2(bits) : v; };
				if (y.isConst() && un.isConst()) { Z yu = y.c < 0 ? y.c + pow2(bits) : y.c; n.env[&I] = AVal::Int(bits, Lin(canon(rem ? un.c % yu : un.c / yu))); }
				else if (y.isConst() && y.c == 1) n.env[&I] = AVal::Int(bits, rem ? Lin(0) : x);
				else if (y.isConst() && y.c < 0) {   // a divisor in the upper half goes in at most once
					State m = n; Lin yu = y + Lin(pow2(bits));
					if (!p.second && assumeGe(m, u - yu)) { m.env[&I] = AVal::Int(bits, rem ? m.P.norm(x - y) : Lin(1)); res.push_back(std::move(m)); }
					if (!assumeGe(n, yu - Lin(1) - u)) continue;
					n.env[&I] = AVal::Int(bits, rem ? x : Lin(0));
				} else if (y.isConst() && y.c >= 2 && exactDiv(n, u, y.c, eq, er)) n.env[&I] = AVal::Int(bits, n.P.norm(rem ? er : eq));
				else if (y.isConst() && y.c >= 2) {
					Lin q = Lin::var(VT.fresh("q")), r = Lin::var(VT.fresh("r"));
					n.P.addGe(r); n.P.addGe(Lin(y.c - 1) - r); n.P.addGe(q); n.P.addGe(u - q);
					n.P.addEq(u - q * y.c - r);
					n.env[&I] = AVal::Int(bits, n.P.norm(rem ? r : q));
				} else {
					AVal v = freshOf(n, I.getType(), "udiv");
					if (p.second) { n.P.addGe(v.e); n.P.addGe(u - v.e); if (rem && n.P.entailsGe(y)) n.P.addGe(y - Lin(1) - v.e); }
					n.env[&I] = v;
				}
				res.push_back(std::move(n));
			}
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		default: return freshRes("arith");
		}
	} catch (Ovf&) {
		return freshRes("arith");
	}
}
// ------------------------------------------------------------------ floating point
void Engine::fltBounds(State& s, const AVal& a, double& lo, double& hi) {
	Z l, h;
	lo = -INFINITY; hi = INFINITY;
	if (a.k != VFlt) return;
	if (s.P.minOf(a.e, l) && l >= -ORD_INF && l <= ORD_INF) lo = ordToDbl(l);
	if (s.P.maxOf(a.e, h) && h >= -ORD_INF && h <= ORD_INF) hi = ordToDbl(h);
	if (lo == 0 && hi == 0 && a.zs == 2) lo = hi = -0.0;
}
AVal Engine::fltFromRange(State& s, int bits, double lo, double hi, int nan, const std::string& name) {
	if (std::isnan(lo)) lo = -INFINITY;
	if (std::isnan(hi)) hi = INFINITY;
	Lin nl = nan ? freshRange(s, 0, 1, name + ".nan") : Lin(0);
	return AVal::Flt(bits, freshRange(s, dblToOrd(lo), dblToOrd(hi), name), nl);
}
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }
int Engine::fbinop(State& s, const BinaryOperator& I, std::vector<State>& more) {
	int bits = I.getType()->isFloatTy() ? 32 : 64;
	AVal a = val(s, I.getOperand(0)), b = val(s, I.getOperand(1));
	if (a.k != VFlt || b.k != VFlt) { s.env[&I] = freshOf(s, I.getType(), "f"); return 1; }
	double al, ah, bl, bh;
	fltBounds(s, a, al, ah); fltBounds(s, b, bl, bh);
	bool nan = !(s.P.norm(a.nan) == Lin(0) && s.P.norm(b.nan) == Lin(0));
	double lo = -INFINITY, hi = INFINITY;
	auto fin = [](double x) { return std::isfinite(x); };
	double slack32 = bits == 32 ? 1 : 0;
	if (s.P.norm(a.nan) == Lin(1) || s.P.norm(b.nan) == Lin(1)) {   // not-a-number stays not-a-number
		AVal r = freshFlt(s, bits, "f"); r.nan = Lin(1);
		markApprox(s, r.e); markApprox(s, a); markApprox(s, b);
		s.env[&I] = r;
		return 1;
	}
	if (!nan && al == ah && bl == bh) {                            // infinity less infinity, or times zero
		auto op = I.getOpcode();
		double v = op == Instruction::FAdd ? al + bl : op == Instruction::FSub ? al - bl : op == Instruction::FMul ? al * bl : op == Instruction::FDiv && bl != 0 ? al / bl : 0;
		if (std::isnan(v)) { AVal r = freshFlt(s, bits, "f"); r.nan = Lin(1); markApprox(s, r.e); s.env[&I] = r; return 1; }
	}
	if (I.getOpcode() == Instruction::FDiv && bl == 0 && bh == 0 && !nan) {
		// division by zero: the sign of the zero counts
		std::vector<State> out;
		for (int k = 0; k < 3; ++k) {
			State u = s;
			if (k == 0 ? !assumeEq(u, a.e) : k == 1 ? !assumeGe(u, a.e - Lin(1)) : !assumeGe(u, -a.e - Lin(1))) continue;
			if (k == 0) { AVal r = freshFlt(u, bits, "f"); r.nan = Lin(1); markApprox(u, r.e); u.env[&I] = r; out.push_back(u); continue; }
			for (int sg = -1; sg <= 1; sg += 2) { if (b.zs && (b.zs == 1) != ((k == 1) == (sg == 1))) continue; State w = u; w.env[&I] = AVal::Flt(bits, Lin(sg * ORD_INF), Lin(0)); if (confirm && !b.zs) { w.lossy = true; } out.push_back(w); }
		}
		if (out.empty()) { s.P.bottom = true; return 0; }
		finish(s, out, more);
		return 1;
	}
	if (I.getOpcode() == Instruction::FDiv && bl <= 0 && bh >= 0 && !(bl == 0 && bh == 0)) {   // the sign of the divisor
		std::vector<State> out, none;
		for (int k = -1; k <= 1; ++k) {
			State u = s;
			if (k == 0 ? !assumeEq(u, b.e) : !assumeGe(u, k > 0 ? b.e - Lin(1) : -b.e - Lin(1))) continue;
			double l, h; fltBounds(u, b, l, h);
			if (k != 0 && l <= 0 && h >= 0) { out.clear(); break; }
			std::vector<State> m2;
			if (fbinop(u, I, m2) && !u.P.bottom) out.push_back(std::move(u));
			for (auto& z : m2) out.push_back(std::move(z));
		}
		if (!out.empty()) { finish(s, out, more); return 1; }
	}
	switch (I.getOpcode()) {
	case Instruction::FAdd: lo = al + bl; hi = ah + bh; if ((!fin(al) && !fin(bh)) || (!fin(ah) && !fin(bl))) nan = true; break;
	case Instruction::FSub: lo = al - bh; hi = ah - bl; if ((!fin(al) && !fin(bl)) || (!fin(ah) && !fin(bh))) nan = true; break;
	case Instruction::FMul: {
		double c[4] = {al * bl, al * bh, ah * bl, ah * bh};
		bool anyNan = false;
		lo = INFINITY; hi = -INFINITY;
		for (double d : c) { if (std::isnan(d)) anyNan = true; else { lo = std::min(lo, d); hi = std::max(hi, d); } }
		if (anyNan) { lo = -INFINITY; hi = INFINITY; nan = true; }
		if ((!fin(al) || !fin(ah)) && bl <= 0 && bh >= 0) nan = true;
		if ((!fin(bl) || !fin(bh)) && al <= 0 && ah >= 0) nan = true;
		break;
	}
	case Instruction::FDiv: {
		if (bl <= 0 && bh >= 0) { nan = true; break; }
		double c[4] = {al / bl, al / bh, ah / bl, ah / bh};
		lo = INFINITY; hi = -INFINITY;
		bool anyNan = false;
		for (double d : c) { if (std::isnan(d)) anyNan = true; else { lo = std::min(lo, d); hi = std::max(hi, d); } }
		if (anyNan) { lo = -INFINITY; hi = INFINITY; nan = true; }
		break;
	}
	default: nan = true;
	}
	bool exact = al == ah && bl == bh && fin(lo) && lo == hi && I.getOpcode() != Instruction::FRem;
	if (bits == 32) { lo = (double)(float)lo; hi = (double)(float)hi; }   // rounding to nearest is monotone: the corners bound every result
	AVal fr = fltFromRange(s, bits, lo, hi, nan, "f");
	if (exact && lo == 0 && (al != 0 || a.zs) && (bl != 0 || b.zs)) fr.zs = std::signbit(lo) ? 2 : 1;
	if (!exact && !nan && al == 0 && ah == 0 && (bl > 0 || bh < 0) && (I.getOpcode() == Instruction::FDiv || I.getOpcode() == Instruction::FMul)) {
		exact = true;                                              // zero divided by, or times, a number of known sign
		if (a.zs) fr.zs = bl > 0 ? a.zs : 3 - a.zs;
	}
	if (confirm && !exact) { markApprox(s, fr); markApprox(s, a); markApprox(s, b); }
	s.env[&I] = fr;
	return 1;
}
int Engine::fcmp(State& s, const FCmpInst& I, std::vector<State>& more) {
	AVal a = val(s, I.getOperand(0)), b = val(s, I.getOperand(1));
	auto pr = I.getPredicate();
	if (a.k != VFlt || b.k != VFlt) { s.env[&I] = freshOf(s, I.getType(), "fc"); return 1; }
	bool unordTrue = CmpInst::isUnordered(pr);
	std::vector<State> res;
	bool an = s.P.norm(a.nan) == Lin(0), bn = s.P.norm(b.nan) == Lin(0);
	State all = s;
	// some NaN
	if (!an) { State n = all; if (assumeEq(n, a.nan - Lin(1))) { n.env[&I] = AVal::Int(1, Lin(unordTrue ? 1 : 0)); res.push_back(std::move(n)); } }
	if (!bn && !(a.nan == b.nan)) { State n = all; if (assumeEq(n, a.nan) && assumeEq(n, b.nan - Lin(1))) { n.env[&I] = AVal::Int(1, Lin(unordTrue ? 1 : 0)); res.push_back(std::move(n)); } }
	State n = all;
	if (assumeEq(n, a.nan) && assumeEq(n, b.nan)) {
		AVal r;
		Lin d = b.e - a.e;
		switch (pr) {
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = AVal::Cond(1, d); break;
		case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = AVal::Cond(2, d); break;
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = AVal::Cond(0, d - Lin(1)); break;
		case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = AVal::Cond(0, d); break;
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = AVal::Cond(0, -d - Lin(1)); break;
		case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = AVal::Cond(0, -d); break;
		case CmpInst::FCMP_ORD: r = AVal::Int(1, Lin(1)); break;
		case CmpInst::FCMP_UNO: r = AVal::Int(1, Lin(0)); break;
		case CmpInst::FCMP_TRUE: r = AVal::Int(1, Lin(1)); break;
		default: r = AVal::Int(1, Lin(0));
		}
		n.env[&I] = r;
		res.push_back(std::move(n));
	}
	finish(s, res, more);
	return s.P.bottom ? 0 : 1;
}
static bool nullish(const State& s, const AVal& v, int& st) { // st: 0 non-null 1 null 2 unknown
	if (v.k == VFn) { st = 0; return true; }
	if (v.k == VInt) { if (s.P.norm(v.e) == Lin(0)) { st = 1; return true; } return false; }
	if (v.k != VPtr) return false;
	if (v.reg == 0) { st = s.P.norm(v.e) == Lin(0) ? 1 : 0; return true; }
	if (!s.has(v.reg)) { st = 0; return true; }
	st = s.ro(v.reg).nullState;
	return true;
}
int Engine::icmp(State& s, const ICmpInst& I, std::vector<State>& more, std::vector<State>& retry) {
	const Value *A = I.getOperand(0), *B = I.getOperand(1);
	auto pr = I.getPredicate();
	if (A->getType()->isPointerTy()) {
		AVal a = val(s, A), b = val(s, B);
		int na, nb;
		if (a.k == VUndef || b.k == VUndef) alarm("uninit", &I, "comparison of a pointer that was never set", &s);
		if (!nullish(s, a, na) || !nullish(s, b, nb)) { s.env[&I] = freshOf(s, I.getType(), "pc"); return 1; }
		bool eq = pr == CmpInst::ICMP_EQ;
		if (!I.isEquality()) {
			if (a.k == VPtr && b.k == VPtr && a.reg == b.reg) {
				Lin d = b.e - a.e; AVal r;
				switch (pr) {
				case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = AVal::Cond(0, d - Lin(1)); break;
				case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = AVal::Cond(0, d); break;
				case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = AVal::Cond(0, -d - Lin(1)); break;
				default: r = AVal::Cond(0, -d); break;
				}
				s.env[&I] = r; return 1;
			}
			s.env[&I] = freshOf(s, I.getType(), "pc"); return 1;
		}
		if (a.k == VPtr && b.k == VPtr && a.reg == b.reg) { s.env[&I] = AVal::Cond(eq ? 1 : 2, s.P.norm(a.e - b.e)); return 1; }
		// split unknown null states
		for (auto* v : {&a, &b}) if (v->k == VPtr && v->reg && s.has(v->reg) && s.ro(v->reg).nullState == 2) {
			{ State n = s; n.rw(v->reg).nullState = 0; retry.push_back(std::move(n)); }
			{ State n = s; n.rw(v->reg).nullState = 1; retry.push_back(std::move(n)); }
			return 0;
		}
		bool same = na == 1 && nb == 1;
		if (a.k == VFn && b.k == VFn) same = a.fn == b.fn;
		s.env[&I] = AVal::Int(1, Lin((same == eq) ? 1 : 0));
		return 1;
	}
	AVal a = val(s, A), b = val(s, B);
	// boolean tests of conditions
	if (a.k == VCond && b.k == VInt && s.P.norm(b.e) == Lin(0) && I.isEquality()) {
		AVal c = a; c.bits = 1;
		if (pr == CmpInst::ICMP_EQ) { if (c.op == 0) c.e = -c.e - Lin(1); else c.op = c.op == 1 ? 2 : 1; }
		s.env[&I] = c;
		return 1;
	}
	if (!forceInt(s, A, retry)) return 0;
	if (!forceInt(s, B, retry)) return 0;
	a = val(s, A); b = val(s, B);
	if (a.k != VInt || b.k != VInt) { s.env[&I] = freshOf(s, I.getType(), "ic"); return 1; }
	int bits = A->getType()->getIntegerBitWidth();
	auto mk = [&](State& t, const Lin& x, const Lin& y) {
		Lin d = t.P.norm(y - x);
		AVal r;
		switch (pr) {
		case CmpInst::ICMP_EQ: r = AVal::Cond(1, d); break;
		case CmpInst::ICMP_NE: r = AVal::Cond(2, d); break;
		case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: r = AVal::Cond(0, d - Lin(1)); break;
		case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: r = AVal::Cond(0, d); break;
		case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: r = AVal::Cond(0, -d - Lin(1)); break;
		default: r = AVal::Cond(0, -d); break;
		}
		t.env[&I] = r;
	};
	if (!I.isUnsigned()) { mk(s, a.e, b.e); return 1; }
	std::vector<std::pair<State, bool>> sp; std::vector<State> res;
	signSplit(*this, s, a.e, sp);
	for (auto& p : sp) {
		std::vector<std::pair<State, bool>> sq;
		signSplit(*this, p.first, b.e, sq);
		for (auto& q : sq) {
			Lin x = p.second ? a.e : a.e + Lin(pow2(bits)), y = q.second ? b.e : b.e + Lin(pow2(bits));
			State n = q.first;
			mk(n, x, y);
			res.push_back(std::move(n));
		}
	}
	finish(s, res, more);
	return s.P.bottom ? 0 : 1;
}
int Engine::castop(State& s, const CastInst& I, std::vector<State>& more) {
	const Value* A = I.getOperand(0);
	AVal a = val(s, A);
	Type* T = I.getType();
	switch (I.getOpcode()) {
	case Instruction::BitCast:
		if (T->isPointerTy() && A->getType()->isPointerTy()) { s.env[&I] = a; return 1; }
		if (a.k == VFlt && s.P.norm(a.nan) == Lin(0) && s.P.norm(a.e).isConst() && T->isIntegerTy() && (a.bits == 64 || a.bits == 32)) {
			double d = ordToDbl(s.P.norm(a.e).c);
			if (a.bits == 64) { int64_t b; memcpy(&b, &d, 8); if (d == 0) b = a.zs == 2 ? INT64_MIN : 0; if (d != 0 || a.zs) { s.env[&I] = AVal::Int(64, Lin((Z)b)); return 1; } }
			else { float f = (float)d; int32_t b; memcpy(&b, &f, 4); if (f == 0) b = a.zs == 2 ? INT32_MIN : 0; if (f != 0 || a.zs) { s.env[&I] = AVal::Int(32, Lin((Z)b)); return 1; } }
		}
		if (a.k == VFlt && a.bits == 64 && T->isIntegerTy(64) && A->getType()->isDoubleTy()) {
			// the bits of a positive number are its position among the numbers; a set top bit makes it negative
			const Z top = smin(64), inf = (Z)0x7ff0000000000000LL;
			std::vector<State> res;
			Lin e = s.P.norm(a.e);
			auto put = [&](State& n, const Lin& b) { n.env[&I] = AVal::Int(64, n.P.norm(b)); res.push_back(std::move(n)); };
			{ State n = s; if (assumeEq(n, a.nan) && assumeGe(n, e - Lin(1))) put(n, e); }
			{ State n = s; if (assumeEq(n, a.nan) && assumeGe(n, -e - Lin(1))) put(n, Lin(top) - e); }
			for (int neg = 0; neg < 2; ++neg) { if (a.zs && a.zs != 1 + neg) continue; State n = s; if (assumeEq(n, a.nan) && assumeEq(n, e)) { if (confirm && !a.zs && (e.isConst() || neg)) n.lossy = true; put(n, Lin(neg ? top : (Z)0)); } }
			for (int neg = 0; neg < 2; ++neg) { State n = s; if (assumeEq(n, a.nan - Lin(1))) { Lin p = freshRange(n, inf + 1, smax(64), "nanbits"); put(n, neg ? Lin(top) + p : p); } }
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		if (a.k == VInt && T->isDoubleTy() && A->getType()->isIntegerTy(64)) {
			const Z top = smin(64), inf = (Z)0x7ff0000000000000LL;
			std::vector<State> res;
			Lin e = s.P.norm(a.e);
			{ State n = s; if (assumeGe(n, e) && assumeGe(n, Lin(inf) - e)) { AVal v = AVal::Flt(64, e, Lin(0)); v.zs = 1; n.env[&I] = v; res.push_back(std::move(n)); } }
			{ State n = s; Lin m = e - Lin(top); if (assumeGe(n, -e - Lin(1)) && assumeGe(n, Lin(inf) - m)) { AVal v = AVal::Flt(64, n.P.norm(-m), Lin(0)); v.zs = 2; n.env[&I] = v; res.push_back(std::move(n)); } }
			{ State n = s; if (assumeGe(n, e - Lin(inf + 1))) { n.env[&I] = AVal::Flt(64, Lin(0), Lin(1)); res.push_back(std::move(n)); } }
			{ State n = s; if (assumeGe(n, -e - Lin(1)) && assumeGe(n, e - Lin(top) - Lin(inf + 1))) { n.env[&I] = AVal::Flt(64, Lin(0), Lin(1)); res.push_back(std::move(n)); } }
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		if (a.k == VFlt && a.bits == 32 && T->isIntegerTy(32) && A->getType()->isFloatTy()) {
			// by magnitude: the classes of numbers lie in ranges of bit patterns
			std::vector<State> res;
			Lin e = s.P.norm(a.e);
			const Z oN = dblToOrd((double)1.17549435e-38f), oI = dblToOrd(INFINITY);
			struct R { Z lo, hi; long bl, bh; } rs[] = {{1, oN - 1, 1, 0x7fffff}, {oN, oI - 1, 0x800000, 0x7f7fffff}, {oI, oI, 0x7f800000, 0x7f800000}, {0, 0, 0, 0}};
			for (auto& r : rs) for (int neg = 0; neg < 2; ++neg) {
				if (r.lo == 0 && a.zs && a.zs != 1 + neg) continue;
				State n = s; Lin m = neg ? -e : e;
				if (!assumeEq(n, a.nan) || !assumeGe(n, m - Lin(r.lo)) || !assumeGe(n, Lin(r.hi) - m)) continue;
				Lin b = r.bl == r.bh ? Lin((Z)r.bl) : freshRange(n, r.bl, r.bh, "bits");
				if (r.bl != r.bh) markApprox(n, b);
				if (r.lo == 0 && confirm && !a.zs && e.isConst()) n.lossy = true;
				n.env[&I] = AVal::Int(32, neg ? b + Lin(smin(32)) : b);
				res.push_back(std::move(n));
			}
			for (int neg = 0; neg < 2; ++neg) { State n = s; if (assumeEq(n, a.nan - Lin(1))) { Lin p = freshRange(n, 0x7f800001, smax(32), "nanbits"); n.env[&I] = AVal::Int(32, neg ? Lin(smin(32)) + p : p); res.push_back(std::move(n)); } }
			finish(s, res, more);
			return s.P.bottom ? 0 : 1;
		}
		s.env[&I] = freshOf(s, T, "bits"); return 1;
	case Instruction::ZExt: case Instruction::SExt: {
		int bits = T->getIntegerBitWidth(), fb = A->getType()->getIntegerBitWidth();
		if (a.k == VCond) {
			if (I.getOpcode() == Instruction::ZExt || fb > 1) { a.bits = bits; s.env[&I] = a; return 1; }
			{ Lin sx = freshRange(s, -1, 0, "sx"); markApprox(s, sx); s.env[&I] = AVal::Int(bits, sx); } return 1;
		}
		if (a.k != VInt) { s.env[&I] = freshOf(s, T, "ext"); return 1; }
		if (fb == 1) { s.env[&I] = AVal::Int(bits, I.getOpcode() == Instruction::ZExt ? a.e : -a.e); return 1; }
		if (I.getOpcode() == Instruction::SExt) { s.env[&I] = AVal::Int(bits, a.e); return 1; }
		std::vector<std::pair<State, bool>> sp; std::vector<State> res;
		signSplit(*this, s, a.e, sp);
		for (auto& p : sp) { p.first.env[&I] = AVal::Int(bits, p.first.P.norm(p.second ? a.e : a.e + Lin(pow2(fb)))); res.push_back(std::move(p.first)); }
		finish(s, res, more);
		return s.P.bottom ? 0 : 1;
	}
	case Instruction::Trunc: {
		int bits = T->getIntegerBitWidth();
		if (a.k == VCond) { a.bits = bits; s.env[&I] = a; return 1; }
		if (a.k != VInt) { s.env[&I] = freshOf(s, T, "trunc"); return 1; }
		if (bits == 1) {
			if (s.P.entailsGe(a.e) && s.P.entailsGe(Lin(1) - a.e)) { s.env[&I] = AVal::Int(1, a.e); return 1; }
			if (s.P.norm(a.e).isConst()) { s.env[&I] = AVal::Int(1, Lin(s.P.norm(a.e).c & 1)); return 1; }
			s.env[&I] = freshOf(s, T, "bit"); return 1;
		}
		Lin r = s.P.norm(a.e);
		bool in = s.P.entailsGe(Lin(smax(bits)) - r) && s.P.entailsGe(r - Lin(smin(bits)));
		if (in) { s.env[&I] = AVal::Int(bits, r); return 1; }
		if (r.isConst()) { wrapTo(s, I, r, bits, more, false, "trunc"); return 1; }
		// in range kept exactly; otherwise reduced
		State n = s;
		std::vector<State> res;
		if (assumeGe(n, Lin(smax(bits)) - r) && assumeGe(n, r - Lin(smin(bits)))) { n.env[&I] = AVal::Int(bits, r); res.push_back(n); }
		for (int side = 0; side < 2; side++) {
			State m = s;
			if (!(side ? assumeGe(m, r - Lin(smax(bits) + 1)) : assumeGe(m, Lin(smin(bits) - 1) - r))) continue;
			m.notes.insert("trunc");
			Z hi, lo; bool one = side ? (m.P.maxOf(r, hi) && hi <= smax(bits) + pow2(bits)) : (m.P.minOf(r, lo) && lo >= smin(bits) - pow2(bits));
			if (one) m.env[&I] = AVal::Int(bits, side ? r - Lin(pow2(bits)) : r + Lin(pow2(bits)));
			else {
				Lin f = freshInt(m, bits, "trunc");
				Lin q = Lin::var(VT.fresh("q"));
				try { m.P.addEq(r - f - q * pow2(bits)); } catch (Ovf&) {}
				m.env[&I] = AVal::Int(bits, f);
			}
			res.push_back(m);
		}
		finish(s, res, more);
		return s.P.bottom ? 0 : 1;
	}
	case Instruction::SIToFP: case Instruction::UIToFP: {
		int bits = T->isFloatTy() ? 32 : 64;
		if (a.k != VInt) { s.env[&I] = freshOf(s, T, "f"); return 1; }
		int fb = A->getType()->getIntegerBitWidth();
		std::vector<std::pair<State, bool>> sp; std::vector<State> res;
		if (I.getOpcode() == Instruction::UIToFP) signSplit(*this, s, a.e, sp);
		else if (fb < 16 || s.P.norm(a.e).isConst()) sp.push_back({s, true});
		else for (int k = -1; k <= 1; ++k) {   // the sign survives the conversion
			State u = s;
			if (k == 0 ? assumeEq(u, a.e) : assumeGe(u, k > 0 ? a.e - Lin(1) : -a.e - Lin(1))) sp.push_back({std::move(u), true});
		}
		if (sp.empty()) { s.P.bottom = true; return 0; }
		for (auto& p : sp) {
			State& u = p.first;
			Lin v = p.second ? a.e : a.e + Lin(pow2(fb));
			Z lo, hi;
			if (!u.P.minOf(v, lo)) lo = p.second ? (I.getOpcode() == Instruction::UIToFP ? (Z)0 : smin(fb)) : pow2(fb - 1);
			if (!u.P.maxOf(v, hi)) hi = p.second ? smax(fb) : pow2(fb) - 1;
			double l = bits == 32 ? (double)(float)lo : (double)lo, h = bits == 32 ? (double)(float)hi : (double)hi;
			AVal fr = fltFromRange(u, bits, l, h, 0, "fi");
			fr.zs = 1;
			if (confirm && l != h) { markApprox(u, fr); markApprox(u, a.e); }
			u.env[&I] = fr;
			res.push_back(std::move(u));
		}
		if (sp.size() == 1) { s = std::move(res[0]); return 1; }
		finish(s, res, more);
		return s.P.bottom ? 0 : 1;
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		int bits = T->getIntegerBitWidth();
		if (a.k != VFlt) { s.env[&I] = freshOf(s, T, "fi"); return 1; }
		bool sg = I.getOpcode() == Instruction::FPToSI;
		double lim = sg ? std::ldexp(1.0, bits - 1) : std::ldexp(1.0, bits);
		double low = sg ? (bits <= 32 ? -lim - 1 : up(-lim) ) : -1.0;
		// representable iff trunc(x) in range: low < x < lim   (for 64 bits: x >= -2^63)
		Z ordLow = sg && bits > 32 ? dblToOrd(-lim) : dblToOrd(low) + 1;
		Z ordHigh = dblToOrd(lim) - 1;
		(void)low;
		bool bad = false;
		State before = s;
		auto finOrd = [](Z o) { return o; };
		(void)finOrd;
		const Z margin = 16;
		if (!s.P.entailsEq(a.nan)) { bad = true; if (!assumeEq(s, a.nan)) { alarm("fpcast", &I, "not-a-number is converted to an integer", &before); return 0; } }
		if (!s.P.entailsGe(a.e - Lin(ordLow))) { bad = true; if (!assumeGe(s, a.e - Lin(ordLow))) { alarm("fpcast", &I, "floating value is converted to an integer type it does not fit", &before, {{a.e - Lin(ordHigh + margin)}, {Lin(ordLow - margin) - a.e}}); return 0; } }
		if (!s.P.entailsGe(Lin(ordHigh) - a.e)) { bad = true; if (!assumeGe(s, Lin(ordHigh) - a.e)) { alarm("fpcast", &I, "floating value is converted to an integer type it does not fit", &before, {{a.e - Lin(ordHigh + margin)}, {Lin(ordLow - margin) - a.e}}); return 0; } }
		if (bad) alarm("fpcast", &I, "floating value that may be NaN or out of range is converted to an integer", &before, {{a.nan - Lin(1)}, {a.e - Lin(ordHigh + margin), -a.nan}, {Lin(ordLow - margin) - a.e, -a.nan}});
		else ok("fpcast", &I);
		Z half = dblToOrd(std::ldexp(1.0, bits - 1));
		std::vector<State> res;
		for (int hi = 0; hi < 2; ++hi) {
			// of an unsigned type: the upper half reads as negative
			State u = s;
			if (sg) { if (hi) break; }
			else if (hi ? !assumeGe(u, a.e - Lin(half)) : !assumeGe(u, Lin(half - 1) - a.e)) continue;
			double l, h; fltBounds(u, a, l, h);
			Z il = (Z)std::trunc(l), ih = (Z)std::trunc(h);
			if (!sg && !hi && ih > smax(bits)) ih = smax(bits);
			if (hi) { il -= pow2(bits); ih -= pow2(bits); if (ih > -1) ih = -1; }
			Lin r = u.P.norm(a.e).isConst() ? Lin(il) : freshRange(u, il, ih, "fi");
			if (confirm && !r.isConst()) { markApprox(u, r); markApprox(u, a.e); }
			u.env[&I] = AVal::Int(bits, r);
			res.push_back(std::move(u));
		}
		if (res.size() == 1) { s = std::move(res[0]); return 1; }
		finish(s, res, more);
		return s.P.bottom ? 0 : 1;
	}
	case Instruction::FPExt: { if (a.k == VFlt) a.bits = T->isDoubleTy() ? 64 : 80; else a = freshOf(s, T, "f"); s.env[&I] = a; return 1; }
	case Instruction::FPTrunc: {
		if (a.k != VFlt) { s.env[&I] = freshOf(s, T, "f"); return 1; }
		double l, h; fltBounds(s, a, l, h);
		AVal r = fltFromRange(s, 32, (double)(float)l, (double)(float)h, 0, "ft"); r.nan = a.nan;
		if (l == 0 && h == 0) r.zs = a.zs;
		if (confirm && l != h) { markApprox(s, r.e); markApprox(s, a.e); }
		s.env[&I] = r; return 1;
	}
	case Instruction::PtrToInt: case Instruction::IntToPtr:
		if (a.k == VPtr && (!T->isIntegerTy() || T->getIntegerBitWidth() == 64)) s.env[&I] = a;
		else if (T->isIntegerTy()) s.env[&I] = freshOf(s, T, "ptr");
		else s.env[&I] = AVal::Top();
		return 1;
	default: s.env[&I] = freshOf(s, T, "cast"); return 1;
	}
}

// ------------------------------------------------------------------ instructions
static bool isThrown(const std::string& ti) { return !ti.empty(); }
// the search for a certain failure: floating point results are exact only when their operands are known, so some operands are tried
void Engine::picks(State& s, const Instruction& I, std::vector<State>& retry) {
	bool fp = I.getType()->isFloatingPointTy() || isa<FPToSIInst>(I) || isa<FPToUIInst>(I);
	if (!fp || s.lossy) return;
	if (!(isa<BinaryOperator>(I) || isa<SIToFPInst>(I) || isa<UIToFPInst>(I) || isa<FPToSIInst>(I) || isa<FPToUIInst>(I) || isa<FPTruncInst>(I) || isa<CallInst>(I))) return;
	if (auto* c = dyn_cast<CallInst>(&I)) { auto* f = c->getCalledFunction(); if (!f || !f->isDeclaration()) return; }
	for (auto& op : I.operands()) {
		if (!(op->getType()->isFloatingPointTy() || op->getType()->isIntegerTy())) continue;
		AVal v = val(s, op);
		if (v.k != VFlt && v.k != VInt) continue;
		Lin e = s.P.norm(v.e), n = v.k == VFlt ? s.P.norm(v.nan) : Lin(0);
		if (e.isConst() && n.isConst()) continue;
		if (usesApprox(s, e)) return;
		// a value that depends on a product: a factor is tried first
		int factor = -1;
		{
			auto look = [&](int v) { if (factor < 0) for (int f : VT.factors(v)) if (!s.P.norm(Lin::var(f)).isConst()) { factor = f; break; } };
			for (auto& t : e.t) look(t.first);
			for (auto& kv : s.P.sub) if (!VT.factors(kv.first).empty() && factor < 0) for (auto& t : kv.second.t) if (e.coef(t.first) != 0) { look(kv.first); break; }
		}
		if (factor >= 0) { e = s.P.norm(Lin::var(factor)); n = Lin(0); if (usesApprox(s, e)) return; }
		std::set<Z> c; Z lo, hi;
		if (e.isConst()) c.insert(e.c);
		else {
			if (!s.P.minOf(e, lo) || !s.P.maxOf(e, hi)) return;
			c.insert(lo); c.insert(hi);
			if (lo <= 0 && hi >= 0) c.insert(0);
			if (hi - lo > 4) c.insert(lo + (hi - lo) / 2);
			for (Z q : {v.k == VFlt ? dblToOrd(1.0) : (Z)1, v.k == VFlt ? dblToOrd(-1.0) : (Z)-1}) if (lo <= q && q <= hi) c.insert(q);
		}
		for (Z q : c) { State u = s; if (assumeEq(u, e - Lin(q)) && (n.isConst() || assumeEq(u, n)) && !u.P.bottom) retry.push_back(std::move(u)); }
		if (!n.isConst()) { State u = s; if (assumeEq(u, n - Lin(1)) && (e.isConst() || assumeEq(u, e - Lin(*c.begin())))) retry.push_back(std::move(u)); }
		return;
	}
}
int Engine::step(State& s, const Instruction& I, const EdgeState& es, std::vector<State>& more, std::vector<State>& retry, std::vector<EdgeState>& edges, std::vector<Outcome>& outs) {
	if (confirm) picks(s, I, retry);
	tick();
	// operands that were never initialised
	auto useOk = [&](const Value* v) {
		AVal a = val(s, v);
		if (a.k != VUndef) { return; }
		if (isa<UndefValue>(v)) return;
		alarm("uninit", &I, "a value that was never set is used", &s);
		s.env[v] = v->getType()->isPointerTy() ? AVal::Top() : freshOf(s, v->getType(), "undef");
	};
	if (auto* al = dyn_cast<AllocaInst>(&I)) {
		Lin n(1);
		if (al->isArrayAllocation()) { if (!forceInt(s, al->getArraySize(), retry)) return 0; AVal a = val(s, al->getArraySize()); n = a.e; if (!s.P.entailsGe(n)) { alarm("alloc", &I, "stack block of a possibly negative size", &s, {{-n - Lin(1)}}); if (!assumeGe(s, n)) return 0; } }
		int r = newRegion(s, RStack, linMul(n, Lin((Z)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue())), "local '" + al->getName().str() + "'");
		s.env[&I] = AVal::Ptr(r);
		return 1;
	}
	if (auto* ld = dyn_cast<LoadInst>(&I)) {
		AVal p = val(s, ld->getPointerOperand());
		Lin w((Z)DL.getTypeStoreSize(I.getType()).getFixedValue());
		Acc a = checkAccess(s, p, w, false, &I, retry);
		if (a != ACC_OK) return 0;
		bool didRetry;
		AVal v = loadMem(s, p, I.getType(), &I, retry, didRetry);
		if (didRetry) return 0;
		if (v.k == VUndef) {
			alarm("uninit", &I, "memory is read before anything was stored in it [" + s.ro(p.reg).role + "]", &s);
			v = I.getType()->isPointerTy() ? AVal::Top() : freshOf(s, I.getType(), "undef");
		} else ok("uninit", &I);
		s.env[&I] = v;
		// remember what was read so that a second read gives the same value
		if (p.k == VPtr && s.P.norm(p.e).isConst() && (v.k == VInt || v.k == VFlt || v.k == VPtr || v.k == VCond) && s.ro(p.reg).kind != RGlobal) {
			int64_t o = (int64_t)s.P.norm(p.e).c; int64_t ww = (int64_t)w.c;
			const Region& r = s.ro(p.reg);
			bool overlap = false;
			for (auto& c : r.cells) if (c.first < o + ww && o < c.first + c.second.w) overlap = true;
			if (!overlap) s.rw(p.reg).cells[o] = {ww, v};
		}
		return 1;
	}
	if (auto* st = dyn_cast<StoreInst>(&I)) {
		AVal p = val(s, st->getPointerOperand());
		AVal v = val(s, st->getValueOperand());
		Type* T = st->getValueOperand()->getType();
		int64_t w = (int64_t)DL.getTypeStoreSize(T).getFixedValue();
		Acc a = checkAccess(s, p, Lin((Z)w), true, &I, retry);
		if (a != ACC_OK) return 0;
		storeMem(s, p, v, w);
		return 1;
	}
	if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
		for (auto& ix : g->indices()) { useOk(ix); if (!isa<Constant>(ix) && !forceInt(s, ix, retry)) return 0; }
		s.env[&I] = gep(s, *cast<GEPOperator>(g));
		return 1;
	}
	if (auto* b = dyn_cast<BinaryOperator>(&I)) {
		useOk(b->getOperand(0)); useOk(b->getOperand(1));
		if (I.getType()->isFloatingPointTy()) return fbinop(s, *b, more);
		if (!I.getType()->isIntegerTy()) throw GiveUp{"vector arithmetic"};
		AVal a0 = val(s, b->getOperand(0)), a1 = val(s, b->getOperand(1));
		if (b->getOpcode() == Instruction::Xor && a0.k == VCond && a1.k == VInt && s.P.norm(a1.e) == Lin(1)) {
			if (a0.op == 0) a0.e = -a0.e - Lin(1); else a0.op = a0.op == 1 ? 2 : 1;
			s.env[&I] = a0;
			return 1;
		}
		if (b->getOpcode() == Instruction::Sub && a0.k == VPtr && a1.k == VPtr && a0.reg == a1.reg && a0.reg != 0) {   // distance within one object
			s.env[&I] = AVal::Int(64, s.P.norm(a0.e - a1.e));
			return 1;
		}
		if (!forceInt(s, b->getOperand(0), retry)) return 0;
		if (!forceInt(s, b->getOperand(1), retry)) return 0;
		return binop(s, *b, more);
	}
	if (I.getOpcode() == Instruction::FNeg) {
		useOk(I.getOperand(0));
		AVal a = val(s, I.getOperand(0));
		if (a.k == VFlt) { a.e = -a.e; a.zs = a.zs ? 3 - a.zs : 0; s.env[&I] = a; } else s.env[&I] = freshOf(s, I.getType(), "neg");
		return 1;
	}
	if (auto* c = dyn_cast<ICmpInst>(&I)) { if (!c->getOperand(0)->getType()->isPointerTy()) { useOk(c->getOperand(0)); useOk(c->getOperand(1)); } return icmp(s, *c, more, retry); }
	if (auto* c = dyn_cast<FCmpInst>(&I)) { useOk(c->getOperand(0)); useOk(c->getOperand(1)); return fcmp(s, *c, more); }
	if (auto* c = dyn_cast<CastInst>(&I)) {
		if (!c->getOperand(0)->getType()->isPointerTy()) useOk(c->getOperand(0));
		return castop(s, *c, more);
	}
	if (auto* se = dyn_cast<SelectInst>(&I)) {
		useOk(se->getCondition());
		AVal c = val(s, se->getCondition());
		std::vector<State> res;
		for (int t = 1; t >= 0; --t) { State n = s; if (assumeCond(n, c, t)) { n.env[&I] = val(n, t ? se->getTrueValue() : se->getFalseValue()); res.push_back(std::move(n)); } }
		finish(s, res, more);
		return s.P.bottom ? 0 : 1;
	}
	if (auto* br = dyn_cast<BranchInst>(&I)) {
		if (br->isUnconditional()) { edges.push_back({s, I.getParent(), br->getSuccessor(0), AVal(), ""}); return 0; }
		useOk(br->getCondition());
		AVal c = val(s, br->getCondition());
		for (int t = 1; t >= 0; --t) {
			State n = s;
			if (assumeCond(n, c, t)) edges.push_back({std::move(n), I.getParent(), br->getSuccessor(t ? 0 : 1), AVal(), ""});
		}
		return 0;
	}
	if (auto* sw = dyn_cast<SwitchInst>(&I)) {
		useOk(sw->getCondition());
		if (!forceInt(s, sw->getCondition(), retry)) return 0;
		AVal c = val(s, sw->getCondition());
		State d = s; bool live = true;
		std::vector<Z> cases;
		for (auto& k : sw->cases()) {
			Z v = (Z)k.getCaseValue()->getSExtValue();
			State n = s;
			if (c.k != VInt || assumeEq(n, c.e - Lin(v))) edges.push_back({std::move(n), I.getParent(), k.getCaseSuccessor(), AVal(), ""});
			cases.push_back(v);
		}
		if (c.k == VInt) {
			std::sort(cases.begin(), cases.end());
			for (bool ch = true; ch && live;) { ch = false; for (size_t i = 0; i < cases.size() && live; i++) { size_t before = d.ne.size(); Z lo, hi; bool hadL = d.P.minOf(c.e, lo), hadH = d.P.maxOf(c.e, hi); if (hadL && hadH && (cases[i] < lo || cases[i] > hi)) continue; if ((hadL && cases[i] == lo) || (hadH && cases[i] == hi)) ch = true; live = assumeNe(d, c.e - Lin(cases[i])); (void)before; } }
		}
		if (live) edges.push_back({std::move(d), I.getParent(), sw->getDefaultDest(), AVal(), ""});
		return 0;
	}
	if (auto* r = dyn_cast<ReturnInst>(&I)) {
		Outcome o; o.thrown = false;
		if (r->getReturnValue()) {
			AVal v = val(s, r->getReturnValue());
			if (v.k == VUndef) { alarm("uninit", &I, "a result that was never set is returned", &s); v = r->getReturnValue()->getType()->isPointerTy() ? AVal::Top() : freshOf(s, r->getReturnValue()->getType(), "undef"); }
			else ok("uninit", &I);
			o.v = v;
		}
		o.s = std::move(s);
		outs.push_back(std::move(o));
		return 0;
	}
	if (isa<LandingPadInst>(&I)) return 1;
	if (auto* rs = dyn_cast<ResumeInst>(&I)) {
		AVal v = val(s, rs->getValue());
		Outcome o; o.thrown = true;
		if (v.k == VAgg && !v.agg.empty()) o.v = v.agg[0];
		o.exc = "?";
		for (auto& n : s.notes) if (n.rfind("exc:", 0) == 0) o.exc = n.substr(4);
		o.s = std::move(s);
		outs.push_back(std::move(o));
		return 0;
	}
	if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
		AVal v = val(s, ev->getAggregateOperand());
		for (unsigned i : ev->indices()) { if (v.k == VAgg && i < v.agg.size()) v = AVal(v.agg[i]); else { v = AVal::Top(); break; } }
		if (v.k == VTop) v = I.getType()->isPointerTy() ? AVal::Top() : freshOf(s, I.getType(), "agg");
		s.env[&I] = v;
		return 1;
	}
	if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
		AVal v = val(s, iv->getAggregateOperand());
		unsigned n = I.getType()->isStructTy() ? I.getType()->getStructNumElements() : (unsigned)I.getType()->getArrayNumElements();
		if (v.k != VAgg) { v = AVal(); v.k = VAgg; v.agg.resize(n, AVal::Undef()); }
		if (iv->getNumIndices() != 1) throw GiveUp{"nested aggregate"};
		v.agg[iv->getIndices()[0]] = val(s, iv->getInsertedValueOperand());
		s.env[&I] = v;
		return 1;
	}
	if (isa<UnreachableInst>(&I)) {
		// reached only if something that should not return did
		alarm("unreachable", &I, "control reaches a point the compiler assumes unreachable (missing return value)", &s);
		return 0;
	}
	if (isa<FreezeInst>(&I)) { s.env[&I] = val(s, I.getOperand(0)); return 1; }
	if (auto* cb = dyn_cast<CallBase>(&I)) return doCall(s, *cb, more, retry, edges, outs);
	throw GiveUp{std::string("instruction ") + I.getOpcodeName()};
}

// ------------------------------------------------------------------ calls
static std::string typeinfoClass(const std::string& ti, bool& ptr) {
	std::string d = demangle(ti);
	auto p = d.find("typeinfo for ");
	if (p != std::string::npos) d = d.substr(p + 13);
	ptr = !d.empty() && d.back() == '*';
	if (ptr) d.pop_back();
	if (d.size() > 6 && d.substr(d.size() - 6) == " const") d = d.substr(0, d.size() - 6);
	auto q = d.rfind("::");
	return q == std::string::npos ? d : d.substr(q + 2);
}
int Engine::doCall(State& s, const CallBase& I, std::vector<State>& more, std::vector<State>& retry, std::vector<EdgeState>& edges, std::vector<Outcome>& outs) {
	std::vector<AVal> args;
	const Function* F = I.getCalledFunction();
	if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
		auto id = II->getIntrinsicID();
		if (isa<DbgInfoIntrinsic>(II) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::donothing) return 1;
	}
	if (!F) {
		if (I.isInlineAsm()) return 1;
		AVal c = val(s, I.getCalledOperand());
		if (c.k == VFn) F = c.fn;
		else if (c.k == VPtr && (c.reg == 0)) { alarm("null", &I, "call through null", &s); return 0; }
		else if (c.k == VUndef) { alarm("uninit", &I, "call through a pointer that was never set", &s); return 0; }
		else if (auto* ga = dyn_cast<GlobalAlias>(I.getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
		else { alarm("badptr", &I, "call through something that is not a method table"); return 0; }
	}
	if (!F) throw GiveUp{"unresolved call"};
	for (unsigned i = 0; i < I.arg_size(); i++) {
		const Value* v = I.getArgOperand(i);
		AVal a = val(s, v);
		if (a.k == VCond && v->getType()->isIntegerTy()) {}
		if (a.k == VUndef && !isa<UndefValue>(v)) {
			alarm("uninit", &I, "a value that was never set is passed on", &s);
			a = v->getType()->isPointerTy() ? AVal::Top() : freshOf(s, v->getType(), "undef");
			s.env[v] = a;
		}
		args.push_back(a);
	}
	std::string name = F->getName().str();
	auto done = [&](State& t) {   // continue after a call in state t
		if (auto* inv = dyn_cast<InvokeInst>(&I)) edges.push_back({std::move(t), I.getParent(), inv->getNormalDest(), AVal(), ""});
		else more.push_back(std::move(t));
	};
	auto thrown = [&](Outcome& o) {
		if (auto* inv = dyn_cast<InvokeInst>(&I)) edges.push_back({std::move(o.s), I.getParent(), inv->getUnwindDest(), o.v, o.exc});
		else outs.push_back(std::move(o));
	};
	int rc = 1;
	std::vector<State> m2; std::vector<Outcome> o2;
	size_t nr = retry.size();
	if (externCall(s, I, name, args, m2, retry, rc, o2)) {
		(void)nr;
		for (auto& t : m2) done(t);
		for (auto& o : o2) thrown(o);
		if (rc) {
			if (isa<InvokeInst>(&I)) { done(s); return 0; }
			return 1;
		}
		return 0;
	}
	if (F->isDeclaration()) throw GiveUp{"call to unmodelled external function " + name};
	bool needRet = !I.getType()->isVoidTy();
	auto os = callFunction(std::move(s), F, args, &I);
	for (auto& o : os) {
		if (o.thrown) { thrown(o); continue; }
		if (needRet) o.s.env[&I] = o.v;
		done(o.s);
	}
	return 0;
}
std::vector<Outcome> Engine::callFunction(State s, const Function* F, const std::vector<AVal>& args, const Instruction* site) {
	if (F->isDeclaration()) throw GiveUp{"call to unmodelled external function " + F->getName().str()};
	int depth = 0;
	for (auto& p : stack) if (p.first == F) ++depth;
	if (depth > 2) throw GiveUp{"recursion through " + ::demangle(F->getName().str())};
	if (stack.size() > 60) throw GiveUp{"call depth"};
	reached.insert(F);
	stack.push_back({F, site});
	if (trace) fprintf(stderr, "%*sCALL %s steps=%ld\n", (int)stack.size(), "", ::demangle(F->getName().str()).c_str(), steps);
	// values of the caller that are dead after the call need not be carried along
	if (site) {
		auto& fi = info(site->getFunction());
		std::set<const Value*> live;
		liveAfter(fi, site, live);
		pruneTo(s, live);
	}
	auto frame = std::make_shared<Env>(std::move(s.env));
	s.callers.push_back(frame);
	s.env.clear();
	unsigned i = 0;
	for (auto& a : F->args()) {
		AVal v = i < args.size() ? args[i] : AVal::Top();
		if (a.hasByValAttr() && v.k == VPtr) {
			int64_t sz = (int64_t)DL.getTypeAllocSize(a.getParamByValType()).getFixedValue();
			int r = newRegion(s, RStack, Lin((Z)sz), "by-value argument");
			std::vector<State> rt;
			if (checkAccess(s, v, Lin((Z)sz), false, site, rt) == ACC_OK) copyMem(s, AVal::Ptr(r), v, Lin((Z)sz));
			v = AVal::Ptr(r);
		}
		s.env[&a] = v;
		++i;
	}
	std::vector<EdgeState> start, exits, backs;
	start.push_back({std::move(s), nullptr, &F->getEntryBlock(), AVal(), ""});
	std::vector<Outcome> outs;
	runBlocks(F, nullptr, std::move(start), exits, backs, outs);
	std::vector<Outcome> keep;
	for (auto& o : outs) {
		if (o.s.P.bottom || (confirm && o.s.lossy)) continue;
		for (auto& kv : o.s.env) if (isa<AllocaInst>(kv.first) && kv.second.k == VPtr && o.s.has(kv.second.reg)) o.s.rw(kv.second.reg).freed = true;
		o.s.env.clear();
		gcState(o.s, {o.v});
		keep.push_back(std::move(o));
	}
	static const int LO[4][3] = {{16, 4, 2}, {40, 8, 4}, {40, 16, 8}, {60, 32, 16}};
	mergeOutcomes(keep, confirm ? cap : LO[level][stack.size() <= 1 ? 0 : stack.size() == 2 ? 1 : 2]);
	for (auto& o : keep) {
		o.s.env = *frame;
		o.s.callers.pop_back();
	}
	if (trace && getenv("ABS_VERBOSE")) for (auto& o : keep) fprintf(stderr, "== outcome thrown=%d links=%zu\n%s\n", o.thrown, o.s.links.size(), o.s.P.str().c_str());
	if (trace) fprintf(stderr, "%*sRET %s %zu outcomes steps=%ld\n", (int)stack.size(), "", ::demangle(F->getName().str()).c_str(), keep.size(), steps);
	stack.pop_back();
	return keep;
}

// ------------------------------------------------------------------ blocks and loops
// prepares a state for entering block `to`: landing pad selection, phi evaluation, pruning. false: state does not enter.
static bool enter(Engine& E, EdgeState& es, std::vector<Outcome>& outs) {
	const BasicBlock* bb = es.to;
	State& s = es.s;
	if (s.P.bottom || (E.confirm && s.lossy)) return false;
	if (bb->isLandingPad()) {
		auto* lp = bb->getLandingPadInst();
		bool tp; std::string tc = typeinfoClass(es.excT, tp);
		int sel = -1;
		for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
			if (!lp->isCatch(i)) continue;
			auto* c = lp->getClause(i);
			if (isa<ConstantPointerNull>(c)) { sel = 1000; break; }
			bool cp; std::string cc = typeinfoClass(c->getName().str(), cp);
			if (c->getName() == es.excT || (cp && tp && E.isSubclass(tc, cc))) { auto* g = dyn_cast<GlobalVariable>(c); sel = g ? E.gvReg[g] + 2000 : 1000; }
		}
		if (sel < 0) {
			if (!lp->isCleanup()) {
				Outcome o; o.thrown = true; o.v = es.exc; o.exc = es.excT; o.s = std::move(s);
				outs.push_back(std::move(o));
				return false;
			}
			sel = 0;
		}
		AVal a; a.k = VAgg; a.agg.push_back(es.exc); a.agg.push_back(AVal::Int(32, Lin(sel)));
		s.env[lp] = a;
		for (auto it = s.notes.begin(); it != s.notes.end();) { if (it->rfind("exc:", 0) == 0) it = s.notes.erase(it); else ++it; }
		s.notes.insert("exc:" + es.excT);
	}
	if (es.from) {
		std::vector<std::pair<const Value*, AVal>> ph;
		for (auto& p : bb->phis()) ph.push_back({&p, E.val(s, p.getIncomingValueForBlock(es.from))});
		for (auto& p : ph) s.env[p.first] = p.second;
	}
	E.pruneEnv(s, bb, es.from);
	return true;
}
void Engine::execBlock(EdgeState es, std::vector<EdgeState>& edges, std::vector<Outcome>& outs) {
	const BasicBlock* bb = es.to;
	std::vector<State> cur;
	cur.push_back(std::move(es.s));
	es.s = State();
	const FnInfo& fi = info(bb->getParent());
	size_t limit = confirm ? cap : stack.size() <= 1 ? 24 : 10;
	for (auto& I : *bb) {
		if (isa<PHINode>(&I) || isa<DbgInfoIntrinsic>(&I)) continue;
		std::vector<State> next, todo = std::move(cur);
		std::reverse(todo.begin(), todo.end());
		cur.clear();
		long guard = 0;
		while (!todo.empty()) {
			State s = std::move(todo.back()); todo.pop_back();
			if (++guard > 4000) throw GiveUp{"case split explosion"};
			std::vector<State> more, retry;
			int rc;
			const size_t firstNew = VT.v.size();
			bool taint = false;
			if (confirm && !isa<CallBase>(&I) && !s.approx.empty()) for (auto& op : I.operands()) { auto it = s.env.find(op); if (it != s.env.end() && (it->second.k == VInt || it->second.k == VFlt || it->second.k == VCond) && usesApprox(s, it->second.e)) taint = true; }
			try { rc = step(s, I, es, more, retry, edges, outs); }
			catch (Ovf&) { throw GiveUp{"arithmetic overflow inside the analysis at " + where(&I)}; }
			if (taint) {   // what is computed from something approximate is approximate
				auto mark = [&](State& t) { for (int v = (int)firstNew; v < (int)VT.v.size(); ++v) if (VT.factors(v).empty()) t.approx.insert(v); };
				mark(s); for (auto& m : more) mark(m);
			}
			if (rc && !s.P.bottom && !(confirm && s.lossy)) next.push_back(std::move(s));
			for (auto& m : more) if (!m.P.bottom && !(confirm && m.lossy)) next.push_back(std::move(m));
			for (auto i = retry.rbegin(); i != retry.rend(); ++i) if (!i->P.bottom && !(confirm && i->lossy)) todo.push_back(std::move(*i));
			if (confirm && todo.size() > 400) thin(todo, 200);
		}
		if (next.size() > limit) {
			std::set<const Value*> live;
			liveAfter(fi, &I, live);
			for (auto& s : next) { pruneTo(s, live); gcState(s); }
			mergeStates(*this, next, limit);
		}
		cur = std::move(next);
		if (cur.empty()) break;
	}
}
void Engine::runBlocks(const Function* F, const Loop* L, std::vector<EdgeState> start, std::vector<EdgeState>& exits, std::vector<EdgeState>& backs, std::vector<Outcome>& outs) {
	const FnInfo& fi = info(F);
	std::map<int, std::vector<EdgeState>> work;
	for (auto& e : start) {
		if (e.from || e.to == &F->getEntryBlock()) { /* fresh edges are prepared by the caller for loops */ }
		work[fi.rpo.at(e.to)].push_back(std::move(e));
	}
	auto place = [&](std::vector<EdgeState>& es) {
		for (auto& e : es) {
			tick();
			if (L && e.to == L->getHeader()) { if (enter(*this, e, outs)) { gcState(e.s); backs.push_back(std::move(e)); } continue; }
			if (L && !L->contains(e.to)) { exits.push_back(std::move(e)); continue; }
			if (!enter(*this, e, outs)) continue;
			work[fi.rpo.at(e.to)].push_back(std::move(e));
		}
	};
	bool firstHeader = true;
	while (!work.empty()) {
		auto it = work.begin();
		std::vector<EdgeState> es = std::move(it->second);
		work.erase(it);
		const BasicBlock* bb = es[0].to;
		static const int LE[4][2] = {{6, 3}, {16, 6}, {24, 12}, {40, 24}};
		size_t limit = confirm ? cap : LE[level][stack.size() <= 1 ? 0 : 1];
		if (es.size() > limit) { for (auto& e : es) gcState(e.s); mergeEdges(es, limit); }
		const Loop* inner = fi.LI->getLoopFor(bb);
		if (inner && inner->getHeader() == bb && inner != L) {
			std::vector<EdgeState> ex;
			handleLoop(F, inner, std::move(es), ex, outs);
			place(ex);
			continue;
		}
		(void)firstHeader;
		std::vector<EdgeState> edges;
		for (auto& e : es) execBlock(std::move(e), edges, outs);
		place(edges);
	}
}
void Engine::handleLoop(const Function* F, const Loop* L, std::vector<EdgeState> entry, std::vector<EdgeState>& exits, std::vector<Outcome>& outs) {
	const BasicBlock* H = L->getHeader();
	std::vector<EdgeState> cur = std::move(entry);
	for (auto& e : cur) gcState(e.s);
	if (confirm) {
		int productive = 0;
		for (int it = 0; it < (exactText ? 1100 : 140) && productive < loopCap; ++it) {
			thin(cur, cap / 2);
			std::vector<EdgeState> bk; size_t n0 = exits.size() + outs.size();
			runBlocks(F, L, std::move(cur), exits, bk, outs);
			if (exits.size() + outs.size() > n0) ++productive;
			cur = std::move(bk);
			if (cur.empty()) break;
		}
		return;
	}
	const size_t LH = level == 0 ? 2 : level == 3 ? 6 : 3;
	mergeEdges(cur, LH);
	std::vector<EdgeState> bk;
	for (int it = 0;; ++it) {
		std::vector<EdgeState> ex; std::vector<Outcome> ou; bk.clear();
		for (size_t i = 0; i < cur.size(); ++i) cur[i].s.lineage[L] = (int)i;
		runBlocks(F, L, cur, ex, bk, ou);
		if (ex.empty() || bk.empty() ) {
			for (auto& e : ex) exits.push_back(std::move(e));
			for (auto& o : ou) outs.push_back(std::move(o));
			if (bk.empty()) return;
			if (it < (exactText ? 1100 : 40)) { mergeEdges(bk, LH); cur = std::move(bk); continue; }
			// could not be unrolled: fall through with the last states
			ex.clear();
			bk.clear();
			runBlocks(F, L, cur, ex, bk, ou);
		}
		break;
	}
	struct Group { State s; int joins = 0; };
	std::vector<Group> G;
	for (auto& e : cur) { int gi = (int)G.size(); G.push_back({std::move(e.s), 0}); G.back().s.lineage[L] = gi; }
	++mute;
	struct Unmute { int& m; ~Unmute() { --m; } };
	{
		Unmute um{mute};
		std::vector<EdgeState> backs = std::move(bk);
		for (int round = 0;; ++round) {
			if (round > 25) throw GiveUp{"loop does not stabilise in " + ::demangle(F->getName().str())};
			bool changed = false;
			// a state that comes back is joined with the one it started from
			std::vector<EdgeState> merged;
			for (size_t gi = 0; gi < G.size(); ++gi) {
				std::vector<EdgeState> part;
				for (auto& b : backs) if (b.s.lineage.count(L) && b.s.lineage.at(L) == (int)gi) part.push_back(std::move(b));
				mergeEdges(part, backs.size() > LH + 1 ? 2 : LH + 1);
				for (auto& b : part) merged.push_back(std::move(b));
			}
			backs = std::move(merged);
			for (auto& b : backs) {
				bool absorbed = false;
				for (auto& g : G) {
					JoinRes st = joinStates(g.s, b.s, 2);
					if (st.ok && st.stable) { absorbed = true; break; }
				}
				if (absorbed) continue;
				Sig bs = sigOf(b.s);
				std::vector<std::pair<int, size_t>> order;
				int from = b.s.lineage.count(L) ? b.s.lineage.at(L) : -1;
				for (size_t gi = 0; gi < G.size(); ++gi) order.push_back({(int)gi == from ? -1 : sigDist(sigOf(G[gi].s), bs), gi});
				std::sort(order.begin(), order.end());
				for (auto& od : order) {
					Group& g = G[od.second];
					int mode = g.joins == 0 ? 1 : g.joins < 4 ? 3 : 2;
					JoinRes jr = joinStates(g.s, b.s, mode);
					if (!jr.ok) { if (trace) fprintf(stderr, "  [loop join fail: %s]\n", jr.why.c_str()); continue; }
					if (trace) fprintf(stderr, "  [loop %s join mode %d: %zu cons]\n", H->getName().str().c_str(), mode, jr.s.P.cons.size());
					if (trace && getenv("ABS_LOOP")) fprintf(stderr, "--- old\n%s\n--- back\n%s\n--- new\n%s\n", g.s.P.str().c_str(), b.s.P.str().c_str(), jr.s.P.str().c_str());
					g.s = std::move(jr.s); gcState(g.s); g.joins++; changed = true; absorbed = true;
					break;
				}
				if (!absorbed) {
					if (G.size() > 10) throw GiveUp{"too many loop shapes in " + ::demangle(F->getName().str())};
					G.push_back({b.s, 0}); changed = true;
				}
			}
			if (!changed) break;
			backs.clear();
			std::vector<EdgeState> st, ex; std::vector<Outcome> ou;
			for (size_t gi = 0; gi < G.size(); ++gi) { G[gi].s.lineage[L] = (int)gi; st.push_back({G[gi].s, nullptr, H, AVal(), ""}); }
			runBlocks(F, L, std::move(st), ex, backs, ou);
		}
	}
	std::vector<EdgeState> st, ex, backs;
	for (auto& g : G) { if (trace && !mute) fprintf(stderr, "LOOPINV %s/%s\n%s\n", F->getName().str().c_str(), H->getName().str().c_str(), g.s.P.str().c_str()); st.push_back({g.s, nullptr, H, AVal(), ""}); }
	runBlocks(F, L, std::move(st), ex, backs, outs);
	for (auto& e : ex) exits.push_back(std::move(e));
}
