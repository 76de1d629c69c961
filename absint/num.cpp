#include "num.h"
VarTab VT;
Stats ST;
std::string zstr(Z v) {
	if (v == 0) return "0";
	bool neg = v < 0;
	std::string s;
	unsigned __int128 u = neg ? (unsigned __int128)(-(v + 1)) + 1 : (unsigned __int128)v;
	while (u) { s.push_back('0' + (int)(u % 10)); u /= 10; }
	if (neg) s.push_back('-');
	std::reverse(s.begin(), s.end());
	return s;
}
std::string linStr(const Lin& l) {
	std::string s;
	for (auto& p : l.t) {
		Z k = p.second;
		if (!s.empty()) s += k < 0 ? " - " : " + ";
		else if (k < 0) s += "-";
		if (zabs(k) != 1) s += zstr(zabs(k)) + "*";
		s += VT.v[p.first].name + (VT.v[p.first].factors.empty() ? "#" + std::to_string(p.first) : "");
	}
	if (s.empty()) return zstr(l.c);
	if (l.c > 0) s += " + " + zstr(l.c);
	if (l.c < 0) s += " - " + zstr(-l.c);
	return s;
}
Lin linMul(const Lin& a, const Lin& b) {
	if (a.isConst()) return b * a.c;
	if (b.isConst()) return a * b.c;
	if (a.t.size() * b.t.size() > 40) throw Ovf();
	Lin r = a * b.c + b * a.c;
	r.c = zmul(a.c, b.c);
	for (auto& p : a.t) for (auto& q : b.t) {
		std::vector<int> f;
		auto add = [&](int v) { if (VT.v[v].factors.empty()) f.push_back(v); else for (int x : VT.v[v].factors) f.push_back(x); };
		add(p.first); add(q.first);
		if (f.size() > 4) throw Ovf();
		Lin m; m.t.push_back({VT.monomial(f), zmul(p.second, q.second)});
		r = r + m;
	}
	return r;
}
Lin Poly::norm(const Lin& e) const {
	if (sub.empty()) return e;
	Lin cur = e;
	for (int iter = 0; iter < 50; iter++) {
		bool ch = false;
		Lin r; r.c = cur.c;
		for (auto& p : cur.t) {
			auto it = sub.find(p.first);
			if (it != sub.end()) { r = linComb(r, 1, it->second, p.second); ch = true; continue; }
			const auto& f = VT.v[p.first].factors;
			bool hit = false;
			if (!f.empty()) for (int x : f) if (sub.count(x)) { hit = true; break; }
			if (hit) {
				Lin m(1);
				try {
					for (int x : f) { auto s = sub.find(x); m = linMul(m, s != sub.end() ? s->second : Lin::var(x)); }
					r = linComb(r, 1, m, p.second); ch = true; continue;
				} catch (Ovf&) { }
			}
			Lin m; m.t.push_back(p);
			r = r + m;
		}
		cur = r;
		if (!ch) return cur;
	}
	return cur;
}
static void tighten(Lin& e) {
	if (e.t.empty()) return;
	Z g = 0;
	for (auto& p : e.t) { g = zgcd(g, p.second); if (g == 1) return; }
	if (g > 1) { for (auto& p : e.t) p.second /= g; e.c = zfloor(e.c, g); }
}
bool Poly::lookupMin(const std::vector<std::pair<int, Z>>& t, Z& c) const {
	Lin k; k.t = t; k.c = 0;
	auto it = std::lower_bound(cons.begin(), cons.end(), k, [](const Lin& a, const Lin& b) { return a.t < b.t; });
	if (it != cons.end() && it->t == t) { c = it->c; return true; }
	return false;
}
void Poly::insertCon(Lin e) {
	auto it = std::lower_bound(cons.begin(), cons.end(), e, [](const Lin& a, const Lin& b) { return a.t < b.t; });
	if (it != cons.end() && it->t == e.t) { if (e.c < it->c) it->c = e.c; }
	else cons.insert(it, e);
}
static bool evalWit(const std::map<int, Rat>& w, const Lin& e, Rat& r) {
	try {
		Rat s(e.c);
		for (auto& p : e.t) {
			auto it = w.find(p.first);
			if (it == w.end()) return false;
			s = s + it->second * Rat(p.second);
		}
		r = s;
		return true;
	} catch (Ovf&) { return false; }
}
void Poly::addRaw(Lin e) {
	tighten(e);
	if (e.isConst()) { if (e.c < 0) bottom = true; return; }
	Z c;
	if (lookupMin(e.t, c) && c <= e.c) return;
	Lin neg = -e;
	if (lookupMin(neg.t, c)) {
		// neg.t + c >= 0  and e.t + e.c >= 0 : -(e.t) + c >= 0 => e.t in [-e.c, c]
		if (zadd(c, e.c) < 0) { bottom = true; return; }
		if (zadd(c, e.c) == 0) {
			// equality: remove the opposite and add as equation
			insertCon(e);
			addEq(e);
			return;
		}
	}
	if (wit) { Rat r; if (!evalWit(*wit, e, r) || r.sgn() < 0) wit.reset(); }
	insertCon(e);
}
void Poly::addGe(const Lin& e0) {
	if (bottom) return;
	try { addRaw(norm(e0)); } catch (Ovf&) { lost = true; }
}
void Poly::addEq(const Lin& e0, int prefer) {
	if (bottom) return;
	try {
		Lin e = norm(e0);
		if (e.isConst()) { if (e.c != 0) bottom = true; return; }
		Z g = 0;
		for (auto& p : e.t) g = zgcd(g, p.second);
		if (g > 1) {
			if (e.c % g != 0) { bottom = true; return; }
			for (auto& p : e.t) p.second /= g;
			e.c /= g;
		}
		// choose variable with unit coefficient; prefer highest id that is not a factor of another monomial in e
		int best = -1; Z bk = 0; int bestScore = -1;
		for (auto& p : e.t) if (zabs(p.second) == 1) {
			bool isMono = !VT.v[p.first].factors.empty();
			bool used = false;
			for (auto& q : e.t) if (q.first != p.first) { auto& f = VT.v[q.first].factors; if (std::find(f.begin(), f.end(), p.first) != f.end()) used = true; if (isMono) { auto& fp = VT.v[p.first].factors; if (std::find(fp.begin(), fp.end(), q.first) != fp.end()) {} } }
			if (used) continue;
			int score = isMono ? 0 : 1;
			if (p.first == prefer && !isMono) score = 2;
			if (score > bestScore || (score == bestScore && p.first > best)) { best = p.first; bk = p.second; bestScore = score; }
		}
		if (best < 0) {
			insertCon(e); insertCon(-e);
			if (wit) { Rat r; if (!evalWit(*wit, e, r) || r.sgn() != 0) wit.reset(); }
			return;
		}
		Lin rest = e;
		rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](auto& p) { return p.first == best; }), rest.t.end());
		Lin sol = bk > 0 ? -rest : rest;
		if (wit) { Rat r; if (!evalWit(*wit, e, r) || r.sgn() != 0) wit.reset(); }
		sub[best] = sol;
		for (auto& kv : sub) if (kv.first != best) kv.second = norm(kv.second);
		std::vector<Lin> old; old.swap(cons);
		for (auto& k : old) { if (bottom) return; addRaw(norm(k)); }
		// a product that was solved for, with factors that are known by now
		std::vector<Lin> known;
		for (auto& kv : sub) {
			const auto& f = VT.v[kv.first].factors;
			if (f.empty() || std::find(f.begin(), f.end(), best) == f.end()) continue;
			Lin m(1); int open = 0;
			for (int x : f) { Lin n = norm(Lin::var(x)); if (!n.isConst()) ++open; if (open > 1) break; m = linMul(m, n); }
			if (open <= 1) known.push_back(m - kv.second);
		}
		for (auto& k : known) { if (bottom) return; addEq(k); }
	} catch (Ovf&) { lost = true; }
}
bool Poly::varLo(int v, Z& b) const { std::vector<std::pair<int, Z>> t{{v, 1}}; Z c; if (!lookupMin(t, c)) return false; b = -c; return true; }
bool Poly::varHi(int v, Z& b) const { std::vector<std::pair<int, Z>> t{{v, -1}}; Z c; if (!lookupMin(t, c)) return false; b = c; return true; }
bool Poly::quickMin(const Lin& e, Z& b) const {
	try {
		Z s = e.c;
		for (auto& p : e.t) {
			Z x;
			if (p.second > 0) { if (!varLo(p.first, x)) return false; }
			else { if (!varHi(p.first, x)) return false; }
			s = zadd(s, zmul(x, p.second));
		}
		b = s;
		return true;
	} catch (Ovf&) { return false; }
}
void Poly::vars(std::set<int>& s) const {
	for (auto& c : cons) for (auto& p : c.t) s.insert(p.first);
	for (auto& kv : sub) { s.insert(kv.first); for (auto& p : kv.second.t) s.insert(p.first); }
}
// lp: mode feasibility with (e <= -1): returns 1 feasible, 0 infeasible, -1 unknown; wantMax: 1 bounded (r=floor max), 0 infeasible, 2 unbounded, -1 unknown
template <class Q> int Poly::lpT(const Lin& e, bool wantMax, Z& r) const {
	// relevant component
	std::set<int> vs;
	std::vector<int> work;
	auto addv = [&](int v) { if (vs.insert(v).second) work.push_back(v); };
	for (auto& p : e.t) addv(p.first);
	std::vector<char> usedc(cons.size(), 0);
	static thread_local std::unordered_map<int, std::vector<int>> occ;
	occ.clear();
	for (size_t i = 0; i < cons.size(); i++) if (cons[i].t.size() > 1) for (auto& p : cons[i].t) occ[p.first].push_back((int)i);
	bool all = e.t.empty();
	if (all) for (auto& c : cons) for (auto& p : c.t) addv(p.first);
	std::vector<Lin> lemmas;
	std::set<int> monosDone;
	auto process = [&]() {
		while (!work.empty()) {
			int v = work.back(); work.pop_back();
			auto it = occ.find(v);
			if (it != occ.end()) for (int ci : it->second) if (!usedc[ci]) { usedc[ci] = 1; for (auto& p : cons[ci].t) addv(p.first); }
			for (int f : VT.v[v].factors) addv(f);
		}
	};
	process();
	// nonlinear lemmas by saturation over existing monomials
	auto nonneg = [&](int v) { Z b; return varLo(v, b) && b >= 0; };
	auto restNonneg = [&](const std::vector<int>& rest) {
		std::map<int, int> cnt; for (int x : rest) cnt[x]++;
		for (auto& kv : cnt) if (kv.second % 2 && !nonneg(kv.first)) return false;
		return true;
	};
	bool hasMono = false;
	int created = 0;
	std::set<int> known;
	for (auto& c : cons) for (auto& p : c.t) if (!VT.v[p.first].factors.empty()) known.insert(p.first);
	auto pull = [&]() {   // products known to the state whose factors take part
		for (int mv : known) if (!vs.count(mv)) { for (int f : VT.v[mv].factors) if (vs.count(f)) { addv(mv); break; } }
		process();
	};
	for (int v : vs) if (!VT.v[v].factors.empty()) hasMono = true;
	if (!hasMono && !known.empty()) { pull(); for (int v : vs) if (!VT.v[v].factors.empty()) hasMono = true; }
	if (hasMono) {
		pull();
		for (int round = 0; round < 4; round++) {
			std::vector<int> monos;
			for (int v : vs) if (!VT.v[v].factors.empty() && !monosDone.count(v)) monos.push_back(v);
			if (monos.empty()) break;
			for (int mv : monos) {
				monosDone.insert(mv);
				const std::vector<int> f = VT.v[mv].factors;
				if (restNonneg(f)) lemmas.push_back(Lin::var(mv));
				// remove each non-empty proper sub-multiset 'x' (single factor or pair) and multiply constraints on it by the rest
				std::set<std::vector<int>> parts;
				for (size_t i = 0; i < f.size(); i++) parts.insert({f[i]});
				if (f.size() >= 3) for (size_t i = 0; i < f.size(); i++) for (size_t j = i + 1; j < f.size(); j++) { std::vector<int> pr{f[i], f[j]}; std::sort(pr.begin(), pr.end()); parts.insert(pr); }
				if (f.size() >= 4) for (size_t i = 0; i < f.size(); i++) { std::vector<int> pr; for (size_t j = 0; j < f.size(); j++) if (j != i) pr.push_back(f[j]); parts.insert(pr); }
				for (auto& part : parts) {
					std::vector<int> rest = f;
					for (int x : part) rest.erase(std::find(rest.begin(), rest.end(), x));
					if (!restNonneg(rest)) continue;
					int pv = VT.lookupMonomial(part);
					if (pv < 0) continue;
					for (size_t ci = 0; ci < cons.size(); ci++) {
						const Lin& c = cons[ci];
						if (c.t.size() > 4 || c.coef(pv) == 0) continue;
						// multiply c by rest
						Lin prod, weak; bool ok = true, dropped = false;
						try {
							auto addm = [&](std::vector<int> g, Z k) {
								for (int x : rest) g.push_back(x);
								int id = VT.lookupMonomial(g);
								if (id < 0 || !(vs.count(id) || VT.v[id].factors.empty())) {
									// a term that only pulls the product down may be dropped
									if (!(k < 0 && restNonneg(g))) { ok = false; return; }
									dropped = true;
									if (round == 0 && c.t.size() == 2 && g.size() <= 3 && created < 12) { id = VT.monomial(g); ++created; Lin m; m.t.push_back({id, k}); prod = prod + m; }
									return;
								}
								Lin m; m.t.push_back({id, k}); prod = prod + m; weak = weak + m;
							};
							for (auto& q : c.t) { std::vector<int> g = VT.v[q.first].factors; if (g.empty()) g = {q.first}; addm(g, q.second); if (!ok) break; }
							if (ok && c.c != 0) { Lin m; m.t.push_back({VT.monomial(rest), c.c}); prod = prod + m; weak = weak + m; }
						} catch (Ovf&) { ok = false; }
						if (ok && dropped && weak != prod) lemmas.push_back(weak);
						if (ok) { lemmas.push_back(prod); }
					}
				}
			}
			for (auto& l : lemmas) for (auto& p : l.t) addv(p.first);
			process();
			pull();
		}
		// lower bounds >=1 of single factors: M >= rest  (var lo bound)
	}
	std::map<int, int> col;
	for (int v : vs) { int k = (int)col.size(); col[v] = k; }
	Simplex<Q> S;
	S.init((int)col.size());
	for (auto& kv : col) {
		Z b;
		if (varLo(kv.first, b)) { S.hasLo[kv.second] = 1; fromZ(S.lo[kv.second], b); }
		if (varHi(kv.first, b)) { S.hasHi[kv.second] = 1; fromZ(S.hi[kv.second], b); }
	}
	auto addCon = [&](const Lin& c) {
		std::vector<std::pair<int, Z>> row;
		for (auto& p : c.t) row.push_back({col[p.first], p.second});
		if (row.size() == 1 && false) return;
		int id = S.addRow(row);
		S.hasLo[id] = 1; fromZ(S.lo[id], -c.c);
	};
	for (size_t i = 0; i < cons.size(); i++) if (usedc[i]) addCon(cons[i]);
	for (auto& l : lemmas) if (!l.t.empty()) { if (l.t.size() == 1 && l.t[0].second > 0) {
			int k = col[l.t[0].first]; Q b; fromZ(b, zceil(-l.c, l.t[0].second));
			if (!S.hasLo[k] || S.lo[k] < b) { S.hasLo[k] = 1; S.lo[k] = b; }
		} else addCon(l); }
	int zrow = -1;
	if (!e.t.empty()) {
		std::vector<std::pair<int, Z>> row;
		for (auto& p : e.t) row.push_back({col[p.first], p.second});
		zrow = S.addRow(row);
		if (!wantMax) { S.hasHi[zrow] = 1; fromZ(S.hi[zrow], zsub(-1, e.c)); }
	}
	S.start();
	if (!S.check()) return 0;
	if constexpr (std::is_same<Q, Rat>::value) {
		auto* self = const_cast<Poly*>(this);
		std::shared_ptr<std::map<int, Rat>> w = self->wit ? std::make_shared<std::map<int, Rat>>(*self->wit) : std::make_shared<std::map<int, Rat>>();
		for (auto& kv : col) (*w)[kv.first] = S.val[kv.second];
		self->wit = w;
	}
	if (!wantMax) return 1;
	Q res(0);
	if (!S.maximize(zrow, res)) return 2;
	if constexpr (std::is_same<Q, Rat>::value) { r = zadd(zfloor(res.n, res.d), e.c); }
	else {
		mpz_class q; mpz_fdiv_q(q.get_mpz_t(), res.get_num_mpz_t(), res.get_den_mpz_t());
		if (mpz_sizeinbase(q.get_mpz_t(), 2) > 120) return 2;
		mpz_class a = abs(q), hi, lo; 
		mpz_fdiv_q_2exp(hi.get_mpz_t(), a.get_mpz_t(), 60);
		mpz_fdiv_r_2exp(lo.get_mpz_t(), a.get_mpz_t(), 60);
		Z v = ((Z)hi.get_si() << 60) + (Z)lo.get_si();
		if (sgn(q) < 0) v = -v;
		r = zadd(v, e.c);
	}
	return 1;
}
int Poly::lp(const Lin& e, bool wantMax, Z& r) const {
	++ST.lp;
	try { return lpT<Rat>(e, wantMax, r); } catch (Ovf&) {}
	++ST.lpGmp;
	try { return lpT<mpq_class>(e, wantMax, r); } catch (Ovf&) {}
	return -1;
}
bool Poly::entailsGe(const Lin& e0) const {
	if (bottom) return true;
	try {
		Lin e = norm(e0);
		tighten(e);
		if (e.isConst()) { if (e.c >= 0) return true; /* need full infeasibility */ return false; }
		Z b;
		if (lookupMin(e.t, b) && b <= e.c) { ++ST.quick; return true; }
		if (quickMin(e, b) && b >= 0) { ++ST.quick; return true; }
		bool mono = false;
		for (auto& p : e.t) if (!VT.v[p.first].factors.empty()) mono = true;
		if (wit && !mono) { Rat r; if (evalWit(*wit, e, r) && r.n <= -r.d) { ++ST.witnessHit; return false; } }
		Z dummy;
		return lp(e, false, dummy) == 0;
	} catch (Ovf&) { return false; }
}
bool Poly::feasible() const {
	if (bottom) return false;
	Z d;
	return lp(Lin(), false, d) != 0;
}
bool Poly::maxOf(const Lin& e0, Z& r) const {
	if (bottom) return false;
	try {
		Lin e = norm(e0);
		if (e.isConst()) { r = e.c; return true; }
		return lp(e, true, r) == 1;
	} catch (Ovf&) { return false; }
}
void Poly::eliminateVar(int v) {
	std::vector<Lin> pos, neg, rest;
	for (auto& c : cons) { Z k = c.coef(v); if (k > 0) pos.push_back(c); else if (k < 0) neg.push_back(c); else rest.push_back(c); }
	if (pos.size() * neg.size() > pos.size() + neg.size() + 12) { cons = rest; lost = true; return; }
	cons = rest;
	for (auto& p : pos) for (auto& n : neg) {
		try {
			Z a = p.coef(v), b = -n.coef(v), g = zgcd(a, b);
			Lin e = linComb(p, b / g, n, a / g);
			if (e.t.size() <= 6) addRaw(e); else lost = true;
		} catch (Ovf&) { lost = true; }
		if (bottom) return;
	}
}
std::string Poly::str() const {
	std::string s = bottom ? "BOTTOM\n" : "";
	for (auto& kv : sub) s += "  " + VT.v[kv.first].name + "#" + std::to_string(kv.first) + " = " + linStr(kv.second) + "\n";
	for (auto& c : cons) s += "  " + linStr(c) + " >= 0\n";
	return s;
}
