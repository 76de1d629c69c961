// Exact arithmetic, linear expressions, and the polyhedral constraint domain.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef __int128 Z;
struct Ovf {};
static inline Z zadd(Z a, Z b) { Z r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline Z zsub(Z a, Z b) { Z r; if (__builtin_sub_overflow(a, b, &r)) throw Ovf(); return r; }
static inline Z zmul(Z a, Z b) { Z r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline Z zabs(Z a) { return a < 0 ? -a : a; }
static inline Z zgcd(Z a, Z b) {
	a = zabs(a); b = zabs(b);
	if (a == 1 || b == 1) return 1;
	while (b) {
		if (a <= (Z)INT64_MAX && b <= (Z)INT64_MAX) {
			uint64_t x = (uint64_t)a, y = (uint64_t)b;
			while (y) { uint64_t t = x % y; x = y; y = t; }
			return (Z)x;
		}
		Z t = a % b; a = b; b = t;
	}
	return a;
}
static inline Z zfloor(Z a, Z b) { Z q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) --q; return q; }
static inline Z zceil(Z a, Z b) { return -zfloor(-a, b); }
std::string zstr(Z v);

struct Rat {
	Z n, d;
	Rat() : n(0), d(1) {}
	Rat(Z v) : n(v), d(1) {}
	Rat(int v) : n(v), d(1) {}
	Rat(Z a, Z b) : n(a), d(b) { norm(); }
	void norm() {
		if (d == 1) return;
		if (n == 0) { d = 1; return; }
		Z g = zgcd(n, d);
		if (g != 1) { n /= g; d /= g; }
		if (d < 0) { n = -n; d = -d; }
	}
	int sgn() const { return n > 0 ? 1 : n < 0 ? -1 : 0; }
};
static inline Rat operator+(const Rat& a, const Rat& b) {
	if (a.d == 1 && b.d == 1) { Rat r; r.n = zadd(a.n, b.n); return r; }
	if (a.n == 0) return b;
	if (b.n == 0) return a;
	if (a.d == b.d) return Rat(zadd(a.n, b.n), a.d);
	return Rat(zadd(zmul(a.n, b.d), zmul(b.n, a.d)), zmul(a.d, b.d));
}
static inline Rat operator-(const Rat& a) { Rat r = a; r.n = -r.n; return r; }
static inline Rat operator-(const Rat& a, const Rat& b) { return a + (-b); }
static inline Rat operator*(const Rat& a, const Rat& b) {
	if (a.d == 1 && b.d == 1) { Rat r; r.n = zmul(a.n, b.n); return r; }
	if (a.n == 0 || b.n == 0) return Rat();
	Z g1 = zgcd(a.n, b.d), g2 = zgcd(b.n, a.d);
	Rat r; r.n = zmul(a.n / g1, b.n / g2); r.d = zmul(a.d / g2, b.d / g1);
	return r;
}
static inline Rat operator/(const Rat& a, const Rat& b) {
	Rat i; i.n = b.d; i.d = b.n;
	if (i.d < 0) { i.d = -i.d; i.n = -i.n; }
	return a * i;
}
static inline bool operator<(const Rat& a, const Rat& b) {
	if (a.d == b.d) return a.n < b.n;
	if ((a.n < 0) != (b.n < 0)) return a.n < b.n;
	return zmul(a.n, b.d) < zmul(b.n, a.d);
}
static inline bool operator==(const Rat& a, const Rat& b) { return a.n == b.n && a.d == b.d; }
static inline int sgn_(const Rat& a) { return a.sgn(); }
static inline int sgn_(const mpq_class& a) { return sgn(a); }
static inline mpz_class toMpz(Z v) {
	bool neg = v < 0;
	unsigned __int128 u = neg ? (unsigned __int128)(-(v + 1)) + 1 : (unsigned __int128)v;
	mpz_class hi = (unsigned long)(u >> 64), lo = (unsigned long)(u & ~0ull);
	mpz_class r = hi * mpz_class("18446744073709551616") + lo;
	return neg ? mpz_class(-r) : r;
}
static inline void fromZ(Rat& r, Z v) { r = Rat(v); }
static inline void fromZ(mpq_class& r, Z v) { r = mpq_class(toMpz(v)); }

// ---------------------------------------------------------------- simplex
// General simplex with bounds (Dutertre / de Moura). Variables 0..n-1 are structural, n.. are row slacks.
template <class Q> struct Simplex {
	int n = 0, m = 0;
	std::vector<std::vector<Q>> T;          // m rows x (columns = nonbasic)
	std::vector<int> basic, nonbasic;       // variable ids
	std::vector<char> hasLo, hasHi;
	std::vector<Q> lo, hi, val;
	long pivots = 0;
	void init(int nv) {
		n = nv; m = 0; T.clear(); basic.clear(); nonbasic.resize(n);
		for (int i = 0; i < n; i++) nonbasic[i] = i;
		hasLo.assign(n, 0); hasHi.assign(n, 0); lo.assign(n, Q(0)); hi.assign(n, Q(0)); val.assign(n, Q(0));
	}
	// before any pivot: add row s = sum coef x
	int addRow(const std::vector<std::pair<int, Z>>& r) {
		std::vector<Q> row(n, Q(0));
		for (auto& p : r) fromZ(row[p.first], p.second);
		T.push_back(row);
		int id = n + m; ++m;
		basic.push_back(id);
		hasLo.push_back(0); hasHi.push_back(0); lo.push_back(Q(0)); hi.push_back(Q(0)); val.push_back(Q(0));
		return id;
	}
	void start() {
		for (int j = 0; j < n; j++) {
			int x = nonbasic[j];
			if (hasLo[x] && sgn_(Q(lo[x])) > 0) val[x] = lo[x];
			else if (hasHi[x] && sgn_(Q(hi[x])) < 0) val[x] = hi[x];
			else val[x] = Q(0);
			if (hasLo[x] && val[x] < lo[x]) val[x] = lo[x];
			if (hasHi[x] && hi[x] < val[x]) val[x] = hi[x];
		}
		for (int i = 0; i < m; i++) {
			Q s(0);
			for (int j = 0; j < n; j++) if (sgn_(T[i][j])) s = s + T[i][j] * val[nonbasic[j]];
			val[basic[i]] = s;
		}
	}
	void pivot(int r, int c) {
		++pivots;
		std::vector<Q>& R = T[r];
		Q p = R[c];
		Q inv = Q(1) / p;
		// x_b = sum R_j x_j  ->  x_c = inv x_b - sum_{j!=c} R_j*inv x_j
		for (int j = 0; j < n; j++) if (j != c && sgn_(R[j])) R[j] = -(R[j] * inv);
		R[c] = inv;
		for (int i = 0; i < m; i++) {
			if (i == r) continue;
			Q k = T[i][c];
			if (!sgn_(k)) continue;
			T[i][c] = Q(0);
			for (int j = 0; j < n; j++) if (sgn_(R[j])) T[i][j] = T[i][j] + k * R[j];
		}
		std::swap(basic[r], nonbasic[c]);
	}
	void update(int c, const Q& delta) {   // nonbasic col c moves by delta
		for (int i = 0; i < m; i++) if (sgn_(T[i][c])) val[basic[i]] = val[basic[i]] + T[i][c] * delta;
		val[nonbasic[c]] = val[nonbasic[c]] + delta;
	}
	bool check() {
		for (int x = 0; x < n + m; x++) if (hasLo[x] && hasHi[x] && hi[x] < lo[x]) return false;
		for (;;) {
			int r = -1, bv = INT32_MAX; bool below = false;
			for (int i = 0; i < m; i++) {
				int b = basic[i];
				if (b >= bv) continue;
				if (hasLo[b] && val[b] < lo[b]) { r = i; bv = b; below = true; }
				else if (hasHi[b] && hi[b] < val[b]) { r = i; bv = b; below = false; }
			}
			if (r < 0) return true;
			int c = -1, nv = INT32_MAX;
			for (int j = 0; j < n; j++) {
				int s = sgn_(T[r][j]);
				if (!s) continue;
				int x = nonbasic[j];
				bool up = below ? s > 0 : s < 0;
				bool ok = up ? (!hasHi[x] || val[x] < hi[x]) : (!hasLo[x] || lo[x] < val[x]);
				if (ok && x < nv) { c = j; nv = x; }
			}
			if (c < 0) return false;
			Q target = below ? lo[bv] : hi[bv];
			Q delta = (target - val[bv]) / T[r][c];
			update(c, delta);
			pivot(r, c);
			if (pivots > 5000) throw Ovf();
		}
	}
	// maximise basic/any variable z (must be feasible). returns false if unbounded
	bool maximize(int z, Q& res) {
		for (;;) {
			int r = -1;
			for (int i = 0; i < m; i++) if (basic[i] == z) r = i;
			if (r < 0) {
				// nonbasic: try to make it basic by pivoting with any row, else it is free to move alone
				int c = -1;
				for (int j = 0; j < n; j++) if (nonbasic[j] == z) c = j;
				int pr = -1;
				for (int i = 0; i < m; i++) if (sgn_(T[i][c])) { pr = i; break; }
				if (pr < 0) { if (!hasHi[z]) return false; res = hi[z]; return true; }
				pivot(pr, c);
				continue;
			}
			int c = -1, nv = INT32_MAX; bool up = true;
			for (int j = 0; j < n; j++) {
				int s = sgn_(T[r][j]);
				if (!s) continue;
				int x = nonbasic[j];
				bool u = s > 0;
				bool ok = u ? (!hasHi[x] || val[x] < hi[x]) : (!hasLo[x] || lo[x] < val[x]);
				if (ok && x < nv) { c = j; nv = x; up = u; }
			}
			if (c < 0) { res = val[z]; return true; }
			// ratio test
			int x = nonbasic[c];
			bool bounded = false; Q best(0); int br = -1; int bestid = INT32_MAX;
			if (up ? hasHi[x] : hasLo[x]) { bounded = true; best = up ? Q(hi[x] - val[x]) : Q(val[x] - lo[x]); br = -1; bestid = x; }
			for (int i = 0; i < m; i++) {
				int s = sgn_(T[i][c]);
				if (!s || i == r) { if (i == r && s) {
					int b = basic[i]; if (hasHi[b]) { Q lim = (hi[b] - val[b]) / T[i][c]; if (!up) lim = -lim; if (!bounded || lim < best) { bounded = true; best = lim; br = i; bestid = b; } } }
					continue; }
				int b = basic[i];
				bool inc = (s > 0) == up;
				if (inc ? !hasHi[b] : !hasLo[b]) continue;
				Q room = inc ? Q(hi[b] - val[b]) : Q(val[b] - lo[b]);
				Q t = T[i][c]; if (sgn_(t) < 0) t = -t;
				Q lim = room / t;
				if (!bounded || lim < best || (lim == best && b < bestid)) { bounded = true; best = lim; br = i; bestid = b; }
			}
			if (!bounded) return false;
			update(c, up ? best : Q(-best));
			if (br >= 0) { if (br == r) { res = val[z]; return true; } pivot(br, c); }
			if (++pivots > 5000) throw Ovf();
		}
	}
};

// ---------------------------------------------------------------- linear expressions
struct Lin {
	std::vector<std::pair<int, Z>> t;
	Z c = 0;
	Lin() {}
	Lin(Z k) : c(k) {}
	Lin(int k) : c(k) {}
	static Lin var(int v) { Lin l; l.t.push_back({v, 1}); return l; }
	bool isConst() const { return t.empty(); }
	Z coef(int v) const { for (auto& p : t) if (p.first == v) return p.second; return 0; }
	bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
	bool operator!=(const Lin& o) const { return !(*this == o); }
	bool operator<(const Lin& o) const { if (t != o.t) return t < o.t; return c < o.c; }
};
static inline Lin linComb(const Lin& a, Z ka, const Lin& b, Z kb) {
	Lin r;
	r.c = zadd(zmul(a.c, ka), zmul(b.c, kb));
	size_t i = 0, j = 0;
	r.t.reserve(a.t.size() + b.t.size());
	while (i < a.t.size() || j < b.t.size()) {
		if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { if (ka) r.t.push_back({a.t[i].first, zmul(a.t[i].second, ka)}); ++i; }
		else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { if (kb) r.t.push_back({b.t[j].first, zmul(b.t[j].second, kb)}); ++j; }
		else { Z s = zadd(zmul(a.t[i].second, ka), zmul(b.t[j].second, kb)); if (s != 0) r.t.push_back({a.t[i].first, s}); ++i; ++j; }
	}
	return r;
}
static inline Lin operator+(const Lin& a, const Lin& b) { return linComb(a, 1, b, 1); }
static inline Lin operator-(const Lin& a, const Lin& b) { return linComb(a, 1, b, -1); }
static inline Lin operator-(const Lin& a) { return linComb(a, -1, Lin(), 0); }
static inline Lin operator*(const Lin& a, Z k) { return k == 0 ? Lin() : linComb(a, k, Lin(), 0); }

// global variable table
struct VarTab {
	struct Info { std::string name; std::vector<int> factors; };
	std::vector<Info> v;
	std::map<std::vector<int>, int> mono;
	int fresh(const std::string& n) { v.push_back({n, {}}); return (int)v.size() - 1; }
	const std::vector<int>& factors(int x) const { return v[x].factors; }
	int monomial(std::vector<int> f) {
		std::sort(f.begin(), f.end());
		if (f.size() == 1) return f[0];
		auto it = mono.find(f);
		if (it != mono.end()) return it->second;
		std::string n;
		for (int x : f) n += (n.empty() ? "" : "*") + v[x].name;
		v.push_back({n, f});
		int id = (int)v.size() - 1;
		mono[f] = id;
		return id;
	}
	int lookupMonomial(std::vector<int> f) {
		std::sort(f.begin(), f.end());
		if (f.size() == 1) return f[0];
		auto it = mono.find(f);
		return it == mono.end() ? -1 : it->second;
	}
};
extern VarTab VT;
std::string linStr(const Lin& l);
// product; degree limited (throws Ovf beyond)
Lin linMul(const Lin& a, const Lin& b);

struct Stats { long lp = 0, lpGmp = 0, quick = 0, witnessHit = 0; };
extern Stats ST;

struct Poly {
	std::vector<Lin> cons;            // each >= 0, sorted by terms, one per term vector
	std::map<int, Lin> sub;           // solved equalities
	bool bottom = false;
	bool lost = false;                // a constraint had to be dropped
	std::shared_ptr<std::map<int, Rat>> wit;  // witness (maybe stale -> null)
	Lin norm(const Lin& e) const;
	void addGe(const Lin& e);         // e >= 0
	void addEq(const Lin& e, int prefer = -1);         // e == 0
	bool lookupMin(const std::vector<std::pair<int, Z>>& t, Z& c) const; // constraint t + c >= 0
	bool varLo(int v, Z& b) const;
	bool varHi(int v, Z& b) const;
	bool quickMin(const Lin& e, Z& b) const;  // interval lower bound
	bool entailsGe(const Lin& e) const; // P => e >= 0
	bool entailsEq(const Lin& e) const { return entailsGe(e) && entailsGe(-e); }
	bool feasible() const;            // LP feasibility of everything
	bool feasibleWithGe(const Lin& e) const { return !entailsGe(-e - Lin(1)); }  // may e >= 0 hold
	bool maxOf(const Lin& e, Z& r) const; // integer upper bound via LP; false if unbounded/unknown
	bool minOf(const Lin& e, Z& r) const { Z x; if (!maxOf(-e, x)) return false; r = -x; return true; }
	void vars(std::set<int>& s) const;
	void addRaw(Lin e);
	void eliminateVar(int v);
	std::string str() const;
private:
	void insertCon(Lin e);
	int lp(const Lin& e, bool wantMax, Z& r) const;  // see cpp
	template <class Q> int lpT(const Lin& e, bool wantMax, Z& r) const;
};
