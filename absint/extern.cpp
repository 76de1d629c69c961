// Models of compiler runtime and C library functions.
#include "engine.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include <cmath>
#include <functional>
#include <cstring>
using namespace llvm;
static Z pow2(int n) { return (Z)1 << n; }

static bool constWide(Engine& E, const Value* v, std::string& out) {
	auto* g = dyn_cast<GlobalVariable>(v->stripPointerCasts());
	if (!g || !g->hasInitializer() || !g->isConstant()) return false;
	auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer());
	if (!cd) return false;
	for (unsigned i = 0; i < cd->getNumElements(); i++) { auto c = cd->getElementAsInteger(i); if (!c) break; out += c < 128 ? (char)c : '?'; }
	return true;
}
// longest output a format can produce; -1 unknown. kinds: argument kinds in order
typedef std::function<bool(size_t, bool, long&, long&)> DigitsOf;   // length range of an integer argument in decimal
static long fmtMax(const std::string& f, std::vector<std::string>& kinds, long* least = nullptr, const DigitsOf& digits = nullptr) {
	long n = 0, mn = 0;
	for (size_t i = 0; i < f.size(); i++) {
		if (f[i] != '%') { ++n; ++mn; continue; }
		++i;
		if (i >= f.size()) return -1;
		if (f[i] == '%') { ++n; ++mn; continue; }
		long width = 0, prec = -1; bool lng = false, star = false;
		bool plain = true;
		while (i < f.size() && strchr("-+ #0", f[i])) { if (f[i] == '+' || f[i] == ' ' || f[i] == '#') plain = false; ++i; }
		while (i < f.size() && isdigit((unsigned char)f[i])) width = width * 10 + (f[i++] - '0');
		if (i < f.size() && f[i] == '*') { star = true; ++i; kinds.push_back("i32"); }
		if (i < f.size() && f[i] == '.') { ++i; prec = 0; if (i < f.size() && f[i] == '*') { star = true; ++i; kinds.push_back("i32"); } while (i < f.size() && isdigit((unsigned char)f[i])) prec = prec * 10 + (f[i++] - '0'); }
		std::string mod;
		while (i < f.size() && strchr("hlLqjzt", f[i])) mod += f[i++];
		lng = mod == "l" || mod == "ll" || mod == "j" || mod == "z" || mod == "t" || mod == "q";
		if (i >= f.size()) return -1;
		long m;
		switch (f[i]) {
		case 'd': case 'i': m = lng ? 20 : 11; kinds.push_back(lng ? "i64" : "i32"); if (prec + 1 > m) m = prec + 1; break;
		case 'u': m = lng ? 20 : 10; kinds.push_back(lng ? "i64" : "i32"); if (prec > m) m = prec; break;
		case 'x': case 'X': m = (lng ? 16 : 8) + 2; kinds.push_back(lng ? "i64" : "i32"); if (prec + 2 > m) m = prec + 2; break;
		case 'o': m = lng ? 23 : 12; kinds.push_back(lng ? "i64" : "i32"); break;
		case 'c': m = 1; kinds.push_back("i32"); break;
		case 'e': case 'E': case 'g': case 'G': m = (prec < 0 ? 6 : prec) + 10; kinds.push_back("f64"); break;
		case 'f': case 'F': m = 311 + (prec < 0 ? 6 : prec); kinds.push_back("f64"); break;
		case 's': m = -1; kinds.push_back(mod == "l" ? "wstr" : "str"); break;
		default: return -1;
		}
		long dmin = strchr("diuxXoceEgGfF", f[i]) ? 1 : 0;
		if (strchr("diu", f[i]) && !star && plain && prec < 0 && digits && !kinds.empty()) { long a, b; if (digits(kinds.size() - 1, f[i] == 'u', a, b)) { dmin = a; m = b; } }
		mn += star ? 0 : std::max(dmin, width);
		if (m < 0 || star) n = -100000; else n += std::max(m, width);
	}
	if (least) *least = mn;
	return n < 0 ? -1 : n;
}

bool Engine::externCall(State& s, const CallBase& I, const std::string& name, std::vector<AVal>& args, std::vector<State>& more, std::vector<State>& retry, int& rc, std::vector<Outcome>& outs) {
	rc = 1;
	Type* RT = I.getType();
	bool useful = !RT->isVoidTy();
	auto ret = [&](const AVal& v) { if (useful) s.env[&I] = v; return true; };
	auto retFresh = [&]() { if (useful) s.env[&I] = freshOf(s, RT, name); return true; };
	auto intArg = [&](unsigned i) -> Lin {
		if (args[i].k == VInt) return args[i].e;
		AVal v = freshOf(s, I.getArgOperand(i)->getType(), "arg");
		return v.e;
	};
	for (unsigned i = 0; i < I.arg_size(); i++) if (args[i].k == VCond && I.getArgOperand(i)->getType()->isIntegerTy()) {
		// only extern models need plain integers; internal callees take conditions as they are
		break;
	}
	auto deadRetry = [&](Acc a) { rc = 0; (void)a; return true; };
	// access with alternative: returns false if state ended/was retried
	auto access = [&](const AVal& p, const Lin& len, bool wr) { Acc a = checkAccess(s, p, len, wr, &I, retry, true); if (a != ACC_OK) { rc = 0; return false; } return true; };
	auto isNull = [&](const AVal& p) { return (p.k == VPtr && p.reg == 0) || (p.k == VPtr && s.has(p.reg) && s.ro(p.reg).nullState == 1) || (p.k == VInt && s.P.norm(p.e) == Lin(0)); };
	auto cstr = [&](const AVal& p, Lin& z) -> bool {   // wide string argument; z = offset of a terminator
		Acc a = checkAccess(s, p, Lin(4), false, &I, retry);
		if (a != ACC_OK) { rc = 0; return false; }
		if (nulAt(s, p, z)) { ok("bounds", &I); return true; }
		const Region& r = s.ro(p.reg);
		if (trace && !mute) { fprintf(stderr, "NO NUL p=%s region %s size %s zeros:", linStr(s.P.norm(p.e)).c_str(), r.role.c_str(), linStr(s.P.norm(r.size)).c_str()); for (auto& q : r.zero) fprintf(stderr, " [%s,%s)", linStr(s.P.norm(q.first)).c_str(), linStr(s.P.norm(q.second)).c_str()); fprintf(stderr, "\n%s\n", s.P.str().c_str()); }
		alarm("bounds", &I, "text handed to a C function is not known to end inside its object [" + r.role + "]");
		if (confirm) s.lossy = true;
		z = (p.hasSub ? p.shi : r.size) - Lin(4);
		return true;
	};
	auto absOf = [&](const AVal& x) {
		if (x.k != VFlt) return retFresh();
		State a = s, b = s;
		if (assumeGe(a, x.e)) { AVal v = x; v.zs = 1; if (useful) a.env[&I] = v; more.push_back(a); }
		if (assumeGe(b, -x.e - Lin(1))) { AVal v = x; v.e = -v.e; if (useful) b.env[&I] = v; more.push_back(b); }
		rc = 0;
		return true;
	};
	auto roundOf = [&](const AVal& x, char how) {
		if (x.k != VFlt) return retFresh();
		double l, h; fltBounds(s, x, l, h);
		auto f = [&](double d) { return how == 'f' ? std::floor(d) : how == 'c' ? std::ceil(d) : how == 't' ? std::trunc(d) : how == 'r' ? std::round(d) : std::nearbyint(d); };
		AVal v = fltFromRange(s, x.bits, f(l), f(h), 0, "round");
		v.nan = x.nan;
		if (f(l) != f(h)) {
			if (how == 'f' || (how == 't' && l >= 0)) s.P.addGe(x.e - v.e);
			if (how == 'c' || (how == 't' && h <= 0)) s.P.addGe(v.e - x.e);
		}
		if (l == 0 && h == 0) v.zs = x.zs; else if (h < 0) v.zs = 2; else if (l > 0) v.zs = 1;
		if (confirm) { if (f(l) != f(h)) markApprox(s, v.e); markApprox(s, x.e); }
		return ret(v);
	};
	auto copyBytes = [&](const Lin& n, bool apart) {

			if (!access(args[0], n, true)) return true;
			if (!access(args[1], n, false)) return true;
			if (s.P.entailsEq(n)) return true;
			if (isNull(args[0]) || isNull(args[1]) || args[0].k != VPtr || args[1].k != VPtr) return true;
			if (apart && args[0].reg == args[1].reg) {
				Lin d = args[0].e, r = args[1].e;
				bool fine = s.P.entailsGe(r - d - n) || s.P.entailsGe(d - r - n) || s.P.entailsEq(d - r);
				if (fine) ok("overlap", &I); else alarm("overlap", &I, "memcpy between overlapping ranges [" + s.ro(args[0].reg).role + "]", &s, {{n - Lin(1), d + n - r - Lin(1), r + n - d - Lin(1), d - r - Lin(1)}, {n - Lin(1), d + n - r - Lin(1), r + n - d - Lin(1), r - d - Lin(1)}});
			}
			copyMem(s, args[0], args[1], n);
			return true;
	};
	auto fillBytes = [&](const Lin& n) {
			
			if (!access(args[0], n, true)) return true;
			if (s.P.entailsEq(n) || args[0].k != VPtr || args[0].reg == 0) return true;
			bool zero = args[1].k == VInt && s.P.norm(args[1].e) == Lin(0);
			Region& r = s.rw(args[0].reg);
			killCells(s, r, args[0].e, n);
			if (!zero && confirm) { r.fuzz.push_back({args[0].e, args[0].e + n}); return true; }
			if (!zero) { demoteZero(s, r, args[0].e, n); if (r.deflt != DElems) r.deflt = DTop; writeZeroFacts(s, r, args[0].e, n, false); }
			else writeZeroFacts(s, r, args[0].e, n, true);
			return true;
	};
	// ---- the C mathematics library (double precision).  Arguments are split at the points where a function changes its nature; at a point, and for
	// constant arguments, the host library is asked; between two points the functions are monotone, so the ends bound every result.
	auto libm = [&](const std::string& fn) -> bool {
		// the remainders are exact, so the single precision forms are the same function
		const bool single = useful && RT->isFloatTy() && (fn == "fmodf" || fn == "remainderf");
		const std::string f = single ? fn.substr(0, fn.size() - 1) : fn;
		if (!useful || !(single || RT->isDoubleTy())) return retFresh();
		size_t nf = 0;
		for (size_t i = 0; i < args.size(); i++) { if (I.getArgOperand(i)->getType() == RT) { if (args[i].k != VFlt) return retFresh(); nf++; } else if (!I.getArgOperand(i)->getType()->isIntegerTy()) break; }
		if (!nf) return retFresh();
		typedef double (*F1)(double); typedef double (*F2)(double, double);
		struct One { F1 f; std::vector<double> pts; int how; };       // how: 1 rising, -1 falling, 2 falling below zero and rising above, 0 bounded by one in size, 3 anything
		static const double inf = INFINITY;
		static const std::map<std::string, One> ones = {
			{"sqrt", {::sqrt, {0, 1, inf}, 1}}, {"log", {::log, {0, 1, inf}, 1}}, {"log2", {::log2, {0, 1, inf}, 1}}, {"log10", {::log10, {0, 1, inf}, 1}}, {"log1p", {::log1p, {-1, 0, inf}, 1}},
			{"exp", {::exp, {-inf, 0, inf}, 1}}, {"exp2", {::exp2, {-inf, 0, inf}, 1}}, {"expm1", {::expm1, {-inf, 0, inf}, 1}}, {"sinh", {::sinh, {-inf, 0, inf}, 1}}, {"asinh", {::asinh, {-inf, 0, inf}, 1}},
			{"atan", {::atan, {-inf, 0, inf}, 1}}, {"cbrt", {::cbrt, {-inf, 0, inf}, 1}}, {"tanh", {::tanh, {-inf, 0, inf}, 1}}, {"asin", {::asin, {-1, 0, 1}, 1}}, {"acos", {::acos, {-1, 1}, -1}},
			{"acosh", {::acosh, {1, inf}, 1}}, {"atanh", {::atanh, {-1, 0, 1}, 1}}, {"cosh", {::cosh, {-inf, 0, inf}, 2}}, {"sin", {::sin, {-inf, 0, inf}, 0}}, {"cos", {::cos, {-inf, 0, inf}, 0}}, {"tan", {::tan, {-inf, 0, inf}, 3}}};
		static const std::map<std::string, F2> twos = {{"pow", ::pow}, {"atan2", ::atan2}, {"fmod", ::fmod}, {"remainder", ::remainder}, {"hypot", ::hypot}, {"copysign", ::copysign}, {"fmin", ::fmin}, {"fmax", ::fmax}};
		std::vector<State> work{s}, done;
		for (size_t i = 0; i < args.size(); i++) if (args[i].k == VFlt && I.getArgOperand(i)->getType() == RT) {
			std::vector<State> next;
			for (auto& w : work) {
				Lin nn = w.P.norm(args[i].nan);
				if (nn.isConst()) { next.push_back(std::move(w)); continue; }
				State a = w; if (assumeEq(a, nn)) next.push_back(std::move(a));
				if (assumeEq(w, nn - Lin(1))) next.push_back(std::move(w));
			}
			work.swap(next);
		}
		auto isNan = [&](State& w, size_t i) { return w.P.norm(args[i].nan) == Lin(1); };
		auto emit = [&](State& w, AVal v) { if (single) v.bits = 32; w.env[&I] = v; done.push_back(std::move(w)); };
		auto emitNan = [&](State& w) { AVal r = freshFlt(w, 64, f); r.nan = Lin(1); markApprox(w, r.e); for (auto& a : args) if (a.k == VFlt) markApprox(w, a.e); emit(w, r); };
		auto emitRange = [&](State& w, double lo, double hi, int zs, bool mayNan = false) {
			AVal r = fltFromRange(w, 64, lo, hi, mayNan, f); r.zs = zs;
			markApprox(w, r); for (auto& a : args) if (a.k == VFlt || a.k == VInt) markApprox(w, a.e);
			emit(w, r);
		};
		auto padded = [&](double v, bool down) { for (int i = 0; i < 4 && std::isfinite(v); i++) v = std::nextafter(v, down ? -INFINITY : INFINITY); return v; };
		auto emitValue = [&](State& w, double v, bool exact, int zs) {
			if (std::isnan(v)) return emitNan(w);
			if (v == 0 || v == 1 || v == -1 || std::isinf(v)) exact = true;
			if (exact) { AVal r = AVal::Flt(64, Lin(dblToOrd(v)), Lin(0)); r.zs = v == 0 ? zs : std::signbit(v) ? 2 : 1; return emit(w, r); }
			emitRange(w, padded(v, true), padded(v, false), v > 0 ? 1 : 2);
		};
		// the possible doubles behind an argument that is a constant (two when it is a zero of unknown sign)
		auto constOf = [&](State& w, const AVal& a, std::vector<double>& out) {
			Lin e = w.P.norm(a.e);
			if (!e.isConst()) return false;
			if (a.k == VInt) { out.push_back((double)e.c); return true; }
			double d = ordToDbl(e.c);
			if (d == 0 && a.zs == 2) out.push_back(-0.0);
			else { out.push_back(d); if (d == 0 && !a.zs) out.push_back(-0.0); }
			return true;
		};
		auto split = [&](std::vector<State> in, const AVal& x, const std::vector<double>& pts) {
			for (double t : pts) {
				std::vector<State> next;
				Lin d = x.e - Lin(dblToOrd(t));
				for (auto& w : in) {
					if (w.P.entailsGe(d - Lin(1)) || w.P.entailsGe(-d - Lin(1)) || w.P.entailsEq(d)) { next.push_back(std::move(w)); continue; }
					State a = w, b = w;
					if (assumeGe(a, -d - Lin(1))) next.push_back(std::move(a));
					if (assumeEq(b, d)) next.push_back(std::move(b));
					if (assumeGe(w, d - Lin(1))) next.push_back(std::move(w));
				}
				in.swap(next);
			}
			return in;
		};
		// all arguments constant: ask the host
		auto allConst = [&](State& w, const std::function<double(const std::vector<double>&)>& g, bool exact) {
			std::vector<std::vector<double>> combos{{}};
			for (auto& a : args) {
				std::vector<double> o;
				if (!constOf(w, a, o)) return false;
				std::vector<std::vector<double>> nx;
				for (auto& c : combos) for (double d : o) { auto c2 = c; c2.push_back(d); nx.push_back(c2); }
				combos.swap(nx);
			}
			double v = g(combos[0]); int zs = std::signbit(v) ? 2 : 1; bool same = true;
			for (auto& c : combos) { double q = g(c); if (std::isnan(q) != std::isnan(v) || (!std::isnan(q) && q != v)) same = false; else if (q == 0 && std::signbit(q) != std::signbit(v)) zs = 0; }
			if (!same) return false;
			emitValue(w, v, exact, zs);
			return true;
		};
		if (auto it = ones.find(f); it != ones.end() && args.size() == 1) {
			const One& o = it->second; const AVal& x = args[0];
			for (auto& w0 : work) {
				if (isNan(w0, 0)) { emitNan(w0); continue; }
				for (auto& w : split({w0}, x, o.pts)) {
					double l, h; fltBounds(w, x, l, h);
					if (allConst(w, [&](const std::vector<double>& c) { return o.f(c[0]); }, true)) continue;
					if (l == 0 && h == 0) {            // a zero of unknown sign
						double p = o.f(0.0), q = o.f(-0.0);
						if (p == q || (std::isnan(p) && std::isnan(q))) emitValue(w, p, false, std::signbit(p) == std::signbit(q) ? (std::signbit(p) ? 2 : 1) : x.zs);
						else emitRange(w, -inf, inf, 0, true);
						continue;
					}
					double mid = std::isinf(l) && std::isinf(h) ? 0.5 : std::isinf(l) ? h - 1 : std::isinf(h) ? l + 1 : l / 2 + h / 2;
					if (mid <= l) mid = h; if (mid >= h) mid = l;
					bool rising = o.how == 1 || (o.how == 2 && l >= 0), mono = o.how == 1 || o.how == -1 || o.how == 2;
					if (std::isnan(o.f(mid))) { emitNan(w); continue; }
					if (!mono) {                       // sine, cosine and tangent: rising or falling between their extremes (poles)
						if (std::max(std::fabs(l), std::fabs(h)) > 1e5) { emitRange(w, o.how == 0 ? -1 : -inf, o.how == 0 ? 1 : inf, 0); continue; }
						static const double pi = std::acos(-1.0);
						auto hits = [&](double c, double period) { double sl = 1e-9; return c + period * std::ceil((l - sl - c) / period) <= h + sl; };
						double a = std::min(o.f(l), o.f(h)), b = std::max(o.f(l), o.f(h));
						a = padded(a, true); b = padded(b, false);
						if (o.how == 3) { if (hits(pi / 2, pi)) { a = -inf; b = inf; } }
						else { double top = f == "sin" ? pi / 2 : 0; if (hits(top, 2 * pi)) b = 1; if (hits(top + pi, 2 * pi)) a = -1; a = std::max(a, -1.0); b = std::min(b, 1.0); }
						emitRange(w, a, b, a > 0 ? 1 : b < 0 ? 2 : 0);
						continue;
					}
					double a = o.f(l), b = o.f(h);
					if (!rising) std::swap(a, b);
					double lo = std::isnan(a) ? -inf : padded(a, true), hi = std::isnan(b) ? inf : padded(b, false);
					for (double t : o.pts) {           // a result does not cross the value at a point on either side
						double v = o.f(t); if (std::isnan(v) || (o.how == 2 && (rising ? t < 0 : t > 0))) continue;
						if (v != 0 && std::fabs(v) != 1) { v = (rising ? t <= l : t >= h) ? padded(v, true) : padded(v, false); }
						if (rising ? t <= l : t >= h) lo = std::max(lo, v); else if (rising ? t >= h : t <= l) hi = std::min(hi, v);
					}
					if (f == "sqrt") {
						AVal r = fltFromRange(w, 64, lo, hi, 0, f); r.zs = 1;
						w.P.addGe(h <= 1 ? r.e - x.e : x.e - r.e);
						markApprox(w, r); markApprox(w, x.e);
						emit(w, r);
						continue;
					}
					emitRange(w, lo, hi, lo >= 0 ? 1 : hi <= 0 ? 2 : 0);
				}
			}
		} else if (f == "pow" && args.size() == 2) {
			const AVal &x = args[0], &y = args[1];
			for (auto& w0 : work) {
				bool xn = isNan(w0, 0), yn = isNan(w0, 1);
				std::vector<State> ps{w0};
				if (!xn) ps = split(std::move(ps), x, {-inf, -1, 0, 1, inf});
				if (!yn) ps = split(std::move(ps), y, {-inf, 0, inf});
				for (auto& w : ps) {
					double l = 0, h = 0, m = 0, n = 0;
					if (!xn) fltBounds(w, x, l, h);
					if (!yn) fltBounds(w, y, m, n);
					if (!yn && m == 0 && n == 0) { emitValue(w, 1, true, 1); continue; }
					if (!xn && l == 1 && h == 1) { emitValue(w, 1, true, 1); continue; }
					if (xn || yn) { emitNan(w); continue; }
					if (allConst(w, [&](const std::vector<double>& c) { return ::pow(c[0], c[1]); }, true)) continue;
					if (m == 1 && n == 1) { AVal v = x; emit(w, v); continue; }
					bool big = l >= 1, small = l >= 0 && h <= 1;
					if (l >= 0) {
						double lo = 0, hi = inf;
						if (big && m >= 0) lo = 1; if (big && n <= 0) hi = 1;
						if (small && m >= 0) hi = 1; if (small && n <= 0) lo = 1;
						if (l == 0 && h == 0) { if (m > 0) lo = hi = 0; else lo = -inf; }
						if (std::isinf(l)) { if (m > 0) lo = hi; else if (n < 0) hi = lo = 0; }
						emitRange(w, lo, hi, l > 0 ? 1 : 0);
						continue;
					}
					bool ny = m == n && (m == std::floor(m));
					if (ny) { bool odd = std::fmod(m, 2) != 0; emitRange(w, odd ? -inf : 0, odd ? 0 : inf, odd ? 2 : 1); continue; }
					if (m == n && std::isfinite(l) && std::isfinite(h)) { emitNan(w); continue; }
					emitRange(w, -inf, inf, 0, true);
				}
			}
		} else if ((f == "atan2" || f == "fmod" || f == "remainder" || f == "hypot" || f == "copysign") && args.size() == 2) {
			const AVal &x = args[0], &y = args[1];
			F2 g = twos.at(f);
			for (auto& w0 : work) {
				if (f == "copysign") { emitRange(w0, -inf, inf, 0, isNan(w0, 0)); continue; }
				if (isNan(w0, 0) || isNan(w0, 1)) { if (f == "hypot") emitRange(w0, 0, inf, 1, true); else emitNan(w0); continue; }
				for (auto& w : split(split({w0}, x, {-inf, 0, inf}), y, {-inf, 0, inf})) {
					double l, h, m, n; fltBounds(w, x, l, h); fltBounds(w, y, m, n);
					if (allConst(w, [&](const std::vector<double>& c) { return g(c[0], c[1]); }, true)) continue;
					static const double pi = std::acos(-1.0);
					if (f == "hypot") { emitRange(w, 0, inf, 1); continue; }
					if (f == "atan2") {
						double big = padded(pi, false), half = padded(pi / 2, false), halfL = padded(pi / 2, true), lo = -big, hi = big;
						if (l > 0) lo = 0; if (h < 0) hi = 0;
						if (l >= 0 && h <= 0 && m > 0) { AVal r = AVal::Flt(64, Lin(0), Lin(0)); r.zs = x.zs; emit(w, r); continue; }
						if (m > 0) { lo = std::max(lo, -half); hi = std::min(hi, half); }
						if (n < 0) { if (l > 0) lo = halfL; if (h < 0) hi = -halfL; }
						emitRange(w, lo, hi, l > 0 ? 1 : h < 0 ? 2 : 0);
						continue;
					}
					if ((m == 0 && n == 0) || std::isinf(l) == std::isinf(h) && l == h && std::isinf(l)) { emitNan(w); continue; }
					if (m == n && std::isinf(m)) { AVal v = x; emit(w, v); continue; }
					if (l == 0 && h == 0) { AVal v = x; emit(w, v); continue; }
					double top = std::max(std::fabs(m), std::fabs(n));
					if (f == "remainder") { top = top / 2; double q = std::max(std::fabs(l), std::fabs(h)); emitRange(w, -std::min(top, q), std::min(top, q), l > 0 ? 1 : 2); }
					else {      // smaller than the divisor, and no larger than the dividend
						if (std::isfinite(top)) top = std::nextafter(top, 0.0);
						if (l > 0) emitRange(w, 0, std::min(top, h), 1); else emitRange(w, -std::min(top, -l), 0, 2);
					}
				}
			}
		} else if ((f == "scalbn" || f == "scalbln" || f == "ldexp") && args.size() == 2) {
			const AVal& x = args[0];
			Lin k = intArg(1);
			for (auto& w0 : work) {
				if (isNan(w0, 0)) { emitNan(w0); continue; }
				for (auto& w : split({w0}, x, {-inf, 0, inf})) {
					double l, h; fltBounds(w, x, l, h);
					Lin kn = w.P.norm(k);
					if ((l == 0 && h == 0) || (l == h && std::isinf(l))) { AVal v = x; emit(w, v); continue; }
					if (kn.isConst()) {
						int n = (int)std::max<Z>(-5000, std::min<Z>(5000, kn.c));
						double a = std::ldexp(l, n), b = std::ldexp(h, n);
						if (l == h) emitValue(w, a, true, std::signbit(a) ? 2 : 1);
						else if (n == 0) { AVal v = x; emit(w, v); }
						else emitRange(w, a, b, l > 0 ? 1 : 2);
						continue;
					}
					if (l > 0) emitRange(w, 0, inf, 1); else emitRange(w, -inf, 0, 2);
				}
			}
		} else if (f == "fma" && args.size() == 3) {
			for (auto& w : work) {
				if (isNan(w, 0) || isNan(w, 1) || isNan(w, 2)) { emitNan(w); continue; }
				if (allConst(w, [&](const std::vector<double>& c) { return ::fma(c[0], c[1], c[2]); }, true)) continue;
				double l[3], h[3]; for (int i = 0; i < 3; i++) fltBounds(w, args[i], l[i], h[i]);
				double lo = inf, hi = -inf; bool bad = false;
				for (int i = 0; i < 8; i++) { double v = ::fma(i & 1 ? h[0] : l[0], i & 2 ? h[1] : l[1], i & 4 ? h[2] : l[2]); if (std::isnan(v)) bad = true; lo = std::min(lo, v); hi = std::max(hi, v); }
				for (int i = 0; i < 3; i++) if (std::isinf(l[i]) || std::isinf(h[i])) bad = true;
				if (bad) emitRange(w, -inf, inf, 0, true); else emitRange(w, lo, hi, 0);
			}
		} else return retFresh();
		for (auto& d : done) more.push_back(std::move(d));
		rc = 0;
		return true;
	};
	auto modfOf = [&]() -> bool {
		if (!access(args[1], Lin(8), true)) return true;
		const AVal x = args[0];
		std::vector<State> done;
		auto put = [&](State& w, AVal whole, AVal frac) { storeMem(w, args[1], whole, 8); if (useful) w.env[&I] = frac; done.push_back(std::move(w)); };
		if (x.k != VFlt || x.bits != 64) {
			storeMem(s, args[1], freshOf(s, Type::getDoubleTy(M.getContext()), "whole"), 8);
			AVal v = fltFromRange(s, 64, -1, 1, 1, "frac"); markApprox(s, v);
			return ret(v);
		}
		State nn = s;
		if (assumeEq(nn, x.nan - Lin(1))) { AVal a = freshFlt(nn, 64, "whole"), b = freshFlt(nn, 64, "frac"); a.nan = b.nan = Lin(1); markApprox(nn, a.e); markApprox(nn, b.e); put(nn, a, b); }
		State fin = s;
		if (assumeEq(fin, x.nan)) for (int sg = -1; sg <= 1; ++sg) {
			State w = fin;
			if (sg == 0 ? !assumeEq(w, x.e) : !assumeGe(w, sg > 0 ? x.e - Lin(1) : -x.e - Lin(1))) continue;
			if (sg == 0) { AVal z = AVal::Flt(64, Lin(0), Lin(0)); z.zs = x.zs; put(w, z, z); continue; }
			double l, h; fltBounds(w, x, l, h);
			double a = std::trunc(l), b = std::trunc(h);
			if (l == h) {
				double fr = std::isinf(l) ? 0 : l - a;
				AVal p = AVal::Flt(64, Lin(dblToOrd(a)), Lin(0)), q = AVal::Flt(64, Lin(dblToOrd(fr)), Lin(0)); p.zs = q.zs = sg > 0 ? 1 : 2;
				put(w, p, q); continue;
			}
			AVal p = fltFromRange(w, 64, a, b, 0, "whole"), q = fltFromRange(w, 64, sg > 0 ? 0 : -1, sg > 0 ? 1 : 0, 0, "frac");
			p.zs = q.zs = sg > 0 ? 1 : 2;
			markApprox(w, p); markApprox(w, q); markApprox(w, x.e);
			put(w, p, q);
		}
		for (auto& d : done) more.push_back(std::move(d));
		rc = 0;
		return true;
	};
	auto ilogbOf = [&]() -> bool {
		const AVal x = args[0];
		if (x.k != VFlt || x.bits != 64) return retFresh();
		State w = s;
		Lin e = w.P.norm(x.e), n = w.P.norm(x.nan);
		if (n == Lin(1)) return ret(AVal::Int(32, Lin((Z)(int)FP_ILOGBNAN)));
		if (n == Lin(0)) {
			double l, h; fltBounds(w, x, l, h);
			if (l == h) return ret(AVal::Int(32, Lin((Z)::ilogb(l))));
			if (l > 0 || h < 0) {
				if (h < 0) { double t = -l; l = -h; h = t; }
				Lin q = freshRange(s, ::ilogb(l), ::ilogb(h), "ilogb"); markApprox(s, q); markApprox(s, x.e);
				return ret(AVal::Int(32, q));
			}
		}
		return retFresh();
	};
	if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
		switch (II->getIntrinsicID()) {
		case Intrinsic::memcpy: case Intrinsic::memmove: return copyBytes(intArg(2), II->getIntrinsicID() == Intrinsic::memcpy);
		case Intrinsic::memset: return fillBytes(intArg(2));
		case Intrinsic::abs: {
			Lin x = intArg(0); int bits = RT->getIntegerBitWidth();
			State a = s, b = s;
			bool la = assumeGe(a, x), lb = assumeGe(b, -x - Lin(1));
			if (lb) {
				if (b.P.entailsGe(x + Lin(pow2(bits - 1) - 1))) b.env[&I] = AVal::Int(bits, -x);
				else { State c = b; if (assumeEq(c, x + Lin(pow2(bits - 1)))) { c.env[&I] = AVal::Int(bits, x); more.push_back(c); } if (assumeGe(b, x + Lin(pow2(bits - 1) - 1))) b.env[&I] = AVal::Int(bits, -x); else lb = false; }
			}
			if (la) { a.env[&I] = AVal::Int(bits, x); more.push_back(a); }
			if (lb) more.push_back(b);
			rc = 0;
			return true;
		}
		case Intrinsic::umul_with_overflow: {
			Lin x = intArg(0), y = intArg(1);
			int bits = I.getArgOperand(0)->getType()->getIntegerBitWidth();
			auto agg = [&](const Lin& v, int o) { AVal a; a.k = VAgg; a.agg.push_back(AVal::Int(bits, v)); a.agg.push_back(AVal::Int(1, Lin(o))); return a; };
			State pos = s;
			bool lp = assumeGe(pos, x) && assumeGe(pos, y);
			if (lp) {
				Lin p = linMul(x, y);
				State ov = pos;
				if (assumeGe(ov, p - Lin(pow2(bits - 1)))) { ov.env[&I] = agg(freshOf(ov, I.getArgOperand(0)->getType(), "mul").e, 1); more.push_back(ov); }
				if (assumeGe(pos, Lin(pow2(bits - 1) - 1) - p)) { pos.env[&I] = agg(p, 0); more.push_back(pos); }
			}
			State neg = s;
			if (assumeGe(neg, -x - Lin(1))) { neg.env[&I] = agg(freshOf(neg, I.getArgOperand(0)->getType(), "mul").e, 1); more.push_back(neg); }
			rc = 0;
			return true;
		}
		case Intrinsic::fabs: return absOf(args[0]);
		case Intrinsic::floor: return roundOf(args[0], 'f');
		case Intrinsic::ceil: return roundOf(args[0], 'c');
		case Intrinsic::trunc: return roundOf(args[0], 't');
		case Intrinsic::rint: case Intrinsic::nearbyint: return roundOf(args[0], 'n');
		case Intrinsic::round: return roundOf(args[0], 'r');
		case Intrinsic::fmuladd: return retFresh();
		case Intrinsic::fma: return libm("fma");
		case Intrinsic::sqrt: return libm("sqrt");
		case Intrinsic::pow: return libm("pow");
		case Intrinsic::exp: return libm("exp");
		case Intrinsic::exp2: return libm("exp2");
		case Intrinsic::log: return libm("log");
		case Intrinsic::log2: return libm("log2");
		case Intrinsic::log10: return libm("log10");
		case Intrinsic::sin: return libm("sin");
		case Intrinsic::cos: return libm("cos");
		case Intrinsic::trap: alarm("unreachable", &I, "control reaches a trap (missing return value)", &s); rc = 0; return true;
		case Intrinsic::eh_typeid_for: { auto* g = dyn_cast<GlobalVariable>(I.getArgOperand(0)->stripPointerCasts()); return ret(AVal::Int(32, Lin(g ? gvReg[g] + 2000 : 1))); }
		case Intrinsic::stacksave: return ret(AVal::Top());
		case Intrinsic::stackrestore: return true;
		default: throw GiveUp{"intrinsic " + name};
		}
	}
	auto starts = [&](const char* p) { return name.rfind(p, 0) == 0; };
	// ---- allocation
	bool isNew = name == "_Znwm" || name == "_Znam" || (allocModel && name.find("my_operator_new_replacement") != std::string::npos);
	bool isDel = starts("_ZdlPv") || starts("_ZdaPv") || (allocModel && name.find("my_operator_delete_replacement") != std::string::npos);
	if ((isNew || isDel) && !allocModel && !(name == "_Znwm" || name == "_Znam" || starts("_Zd"))) return false;
	if (isNew && allocModel) {
		Lin n = intArg(0);
		bool bad = false;
		State before = s;
		if (!s.P.entailsGe(n)) { bad = true; if (!assumeGe(s, n)) { alarm("alloc", &I, "memory is requested with a negative or overflowed size", &before); rc = 0; return true; } }
		if (!s.P.entailsGe(Lin(pow2(40)) - n)) { bad = true; if (!assumeGe(s, Lin(pow2(40)) - n)) { alarm("alloc", &I, "memory is requested with a negative or overflowed size", &before); rc = 0; return true; } }
		if (bad) alarm("alloc", &I, "memory is requested with a size that may be negative or overflowed", &before, {{-n - Lin(1)}, {n - Lin(pow2(40)) - Lin(1)}}); else ok("alloc", &I);
		int r = newRegion(s, RHeap, s.P.norm(n), "new block");
		Region& R = s.rw(r);
		R.deflt = DZero; R.owned = Lin(1);
		return ret(AVal::Ptr(r));
	}
	if (isDel && allocModel) {
		const AVal& p = args[0];
		if (isNull(p)) return true;
		if (p.k != VPtr || !s.has(p.reg)) { alarm("free", &I, "something that is not a block of memory is released"); return true; }
		if (s.ro(p.reg).nullState == 2) {
			State a = s; a.rw(p.reg).nullState = 1; retry.push_back(a);
			State b = s; b.rw(p.reg).nullState = 0; retry.push_back(b);
			rc = 0; return true;
		}
		const Region& r = s.ro(p.reg);
		if (r.freed) { alarm("free", &I, "memory is released twice [" + r.role + "]", &s); rc = 0; return true; }
		if (r.kind == RStack || r.kind == RGlobal) { alarm("free", &I, "memory that was not allocated is released [" + r.role + "]", &s); rc = 0; return true; }
		if (!s.P.entailsEq(p.e)) { alarm("free", &I, "a pointer into the middle of a block is released [" + r.role + "]", &s, {{p.e - Lin(1)}, {-p.e - Lin(1)}}); rc = 0; return true; }
		if (r.kind == RInput) { s.rw(p.reg).freed = true; ok("free", &I); return true; }
		if (!s.P.entailsEq(r.owned - Lin(1))) { alarm("free", &I, "memory the library does not own is released [" + r.role + "]", &s, {{-r.owned}}); if (!assumeEq(s, r.owned - Lin(1))) { rc = 0; return true; } }
		else ok("free", &I);
		s.rw(p.reg).freed = true;
		return true;
	}
	if (name == "malloc") {
		Lin n = intArg(0);
		if (mallocFails) { State z = s; z.env[&I] = AVal::Null(); more.push_back(z); }
		if (!assumeGe(s, n)) { rc = 0; return true; }
		int r = newRegion(s, RHeap, s.P.norm(n), "malloc block"); s.rw(r).owned = Lin(1);
		return ret(AVal::Ptr(r));
	}
	if (name == "free" && !allocModel) {
		const AVal& p = args[0];
		if (isNull(p)) return true;
		if (p.k != VPtr || !s.has(p.reg)) { alarm("free", &I, "something that is not a block of memory is released"); return true; }
		const Region& r = s.ro(p.reg);
		if (r.freed) { alarm("free", &I, "memory is released twice [" + r.role + "]", &s); rc = 0; return true; }
		if (r.kind != RHeap) { alarm("free", &I, "memory that was not allocated is released [" + r.role + "]", &s); rc = 0; return true; }
		if (!s.P.entailsEq(p.e)) { alarm("free", &I, "a pointer into the middle of a block is released [" + r.role + "]", &s, {{p.e - Lin(1)}, {-p.e - Lin(1)}}); rc = 0; return true; }
		ok("free", &I); s.rw(p.reg).freed = true; return true;
	}
	if (name == "free") { const AVal& p = args[0]; if (p.k == VPtr && p.reg && s.has(p.reg)) s.rw(p.reg).freed = true; return true; }
	// ---- exceptions
	if (name == "__cxa_allocate_exception") {
		int r = newRegion(s, RHeap, s.P.norm(intArg(0)), "exception object"); s.rw(r).owned = Lin(0);
		return ret(AVal::Ptr(r));
	}
	if (name == "__cxa_free_exception" || name == "__cxa_end_catch" || name == "__cxa_atexit") { return useful ? ret(AVal::Int(32, Lin(0))) : true; }
	if (name == "__cxa_begin_catch") {
		AVal p = args[0];
		if (p.k == VPtr && p.reg && s.has(p.reg)) { auto& r = s.ro(p.reg); auto it = r.cells.find(0); if (it != r.cells.end() && it->second.v.k == VPtr) return ret(it->second.v); }
		return ret(p);
	}
	if (name == "__cxa_throw") {
		auto* g = dyn_cast<GlobalVariable>(I.getArgOperand(1)->stripPointerCasts());
		std::string ti = g ? g->getName().str() : "?";
		std::string d = demangle(ti);
		auto q = d.rfind("::"); std::string c = q == std::string::npos ? d : d.substr(q + 2);
		bool ptr = !c.empty() && c.back() == '*'; if (ptr) c.pop_back();
		if (!ptr || !isSubclass(c, "Exception")) alarm("throwtype", &I, "something other than an Exception is thrown", &s);
		else ok("throwtype", &I);
		Outcome o; o.thrown = true; o.exc = ti; o.v = args[0]; o.s = s;
		outs.push_back(std::move(o));
		rc = 0;
		return true;
	}
	if (name == "__cxa_rethrow") { Outcome o; o.thrown = true; o.exc = "?"; for (auto& n : s.notes) if (n.rfind("exc:", 0) == 0) o.exc = n.substr(4); o.v = AVal::Top(); o.s = s; outs.push_back(std::move(o)); rc = 0; return true; }
	if (name == "__clang_call_terminate" || name == "_ZSt9terminatev") { alarm("terminate", &I, "an exception would leave a place that cannot let it out", &s); rc = 0; return true; }
	if (name == "__cxa_pure_virtual") { alarm("badptr", &I, "pure virtual method is called", &s); rc = 0; return true; }
	if (name == "__cxa_throw_bad_array_new_length") { alarm("alloc", &I, "array of a negative or overflowed size is requested", &s); rc = 0; return true; }
	// characters known one by one from p on, at most n of them (n < 0: up to and including the terminator)
	auto charsAt = [&](const AVal& p, long n, std::vector<Lin>& ch) {
		ch.clear();
		if (p.k != VPtr || p.reg == 0 || !s.has(p.reg)) return false;
		Lin o = s.P.norm(p.e);
		if (!o.isConst()) return false;
		{ const Region& r = s.ro(p.reg); if (r.fuzzAll || !r.fuzz.empty()) return false; }
		for (int k = 0; n < 0 ? k < 1200 : k < n; ++k) {
			const Region& r = s.ro(p.reg);
			int64_t at = (int64_t)o.c + 4 * k;
			auto it = r.cells.find(at);
			if (it != r.cells.end()) { if (it->second.w != 4 || it->second.v.k != VInt) return false; ch.push_back(it->second.v.e); }
			else if (zeroAt(s, p.reg, Lin((Z)at), 4)) ch.push_back(Lin(0));
			else if (r.kind == RGlobal && r.gv && r.gv->isConstant()) { bool good; AVal v = loadConst(s, r.gv, at, Type::getInt32Ty(M.getContext()), good); if (!good || v.k != VInt) return false; ch.push_back(v.e); }
			else return false;
			if (n < 0 && s.P.norm(ch.back()) == Lin(0)) return true;
		}
		return n >= 0;
	};
	// splits states by whether the two sequences are equal
	auto splitEqual = [&](State a, const std::vector<Lin>& x, size_t xo, const std::vector<Lin>& y, size_t n, std::vector<State>& eq, std::vector<State>& ne) {
		for (size_t k = 0; k < n; ++k) {
			State b = a; bool live = assumeNe(b, x[xo + k] - y[k]);
			if (live) ne.push_back(std::move(b));
			if (!assumeEq(a, x[xo + k] - y[k])) return;
		}
		eq.push_back(std::move(a));
	};
	if (exactText && (name == "wcsstr" || name == "memcmp" || name == "bcmp" || (name == "wmemcmp" && [&] { for (auto* u : I.users()) { auto* c = dyn_cast<ICmpInst>(u); if (!c || !c->isEquality()) return false; } return true; }()))) {
		std::vector<Lin> x, y;
		if (name == "wcsstr") {
			if (charsAt(args[0], -1, x) && charsAt(args[1], -1, y)) {
				// embedded ends are decided first
				std::vector<State> todo{s};
				size_t n = x.size() - 1, m = y.size() - 1;
				bool plain = true;
				for (size_t k = 0; k < n; ++k) { State t = s; if (assumeEq(t, x[k])) plain = false; }
				for (size_t k = 0; k < m; ++k) { State t = s; if (assumeEq(t, y[k])) plain = false; }
				if (plain) {
					for (size_t at = 0; at + m <= n; ++at) {
						std::vector<State> nx;
						for (auto& t : todo) {
							std::vector<State> eq;
							splitEqual(t, x, at, y, m, eq, nx);
							for (auto& e : eq) { AVal p = args[0]; p.e = p.e + Lin((Z)(4 * at)); e.env[&I] = p; more.push_back(std::move(e)); }
						}
						todo = std::move(nx);
						if (todo.size() > 200) throw GiveUp{"too many ways to find a text"};
					}
					for (auto& t : todo) { t.env[&I] = AVal::Null(); more.push_back(std::move(t)); }
					rc = 0;
					return true;
				}
			}
		} else if (name == "memcmp" || name == "bcmp" || name == "wmemcmp") {
			Lin n = s.P.norm(intArg(2));
			if (n.isConst() && n.c >= 0 && (name == "wmemcmp" || n.c % 4 == 0) && n.c <= 4800) {
				long k = (long)n.c / (name == "wmemcmp" ? 1 : 4);
				if (!access(args[0], Lin((Z)k * 4), false)) return true;
				if (!access(args[1], Lin((Z)k * 4), false)) return true;
				if (charsAt(args[0], k, x) && charsAt(args[1], k, y)) {
					std::vector<State> eq, ne;
					splitEqual(s, x, 0, y, (size_t)k, eq, ne);
					for (auto& e : eq) { e.env[&I] = AVal::Int(32, Lin(0)); more.push_back(std::move(e)); }
					bool onlyZero = true;                                 // only whether they differ is asked for: either sign will do
					for (auto* u : I.users()) { auto* c = dyn_cast<ICmpInst>(u); auto* z = c ? dyn_cast<ConstantInt>(c->getOperand(c->getOperand(0) == &I ? 1 : 0)) : nullptr; if (!c || !c->isEquality() || !z || !z->isZero()) onlyZero = false; }
					for (auto& e : ne) { if (onlyZero) { e.env[&I] = AVal::Int(32, Lin(1)); more.push_back(std::move(e)); continue; } Lin q = freshRange(e, -255, 255, "memcmp"); markApprox(e, q); if (assumeNe(e, q)) { e.env[&I] = AVal::Int(32, q); more.push_back(std::move(e)); } }
					rc = 0;
					return true;
				}
			}
		}
	}
	if (name == "wmemcpy" || name == "wmemmove") { Lin n = intArg(2) * 4; if (useful) s.env[&I] = args[0]; return copyBytes(n, name == "wmemcpy"); }
	if (name == "wmemset") {
		Lin n = s.P.norm(intArg(2) * 4);
		if (useful) s.env[&I] = args[0];
		if (args[1].k == VInt && n.isConst() && n.c <= 2400 && args[0].k == VPtr && args[0].reg != 0 && s.P.norm(args[0].e).isConst() && s.P.norm(args[1].e) != Lin(0)) {
			if (!access(args[0], n, true)) return true;
			int64_t o = (int64_t)s.P.norm(args[0].e).c;
			killCells(s, s.rw(args[0].reg), args[0].e, n);
			writeZeroFacts(s, s.rw(args[0].reg), args[0].e, n, false);
			for (int64_t k = 0; k < (int64_t)n.c; k += 4) { auto& c = s.rw(args[0].reg).cells[o + k]; c.v = AVal::Int(32, args[1].e); c.w = 4; }
			return true;
		}
		return fillBytes(n);
	}
	if (exactText && (name == "wcsncmp" || name == "wcscmp" || name == "wmemcmp" || name == "wcschr" || name == "wmemchr")) {
		// character by character, as far as the characters are known one by one
		const bool stops = name == "wcsncmp" || name == "wcscmp" || name == "wcschr", search = name == "wcschr" || name == "wmemchr";
		Lin n = name == "wcscmp" || name == "wcschr" ? Lin((Z)1200) : s.P.norm(intArg(2));
		auto prefix = [&](const AVal& p, long most, std::vector<Lin>& ch) {
			std::vector<Lin> one;
			for (long k = 0; k < most; ++k) {
				AVal q = p; q.e = q.e + Lin((Z)(4 * k));
				if (q.k != VPtr || q.reg == 0 || !s.has(q.reg) || !s.P.entailsGe(s.ro(q.reg).size - q.e - Lin(4)) || !charsAt(q, 1, one)) return;
				ch.push_back(one[0]);
				if (stops && s.P.norm(one[0]) == Lin(0)) return;
			}
		};
		if (n.isConst() && n.c >= 0 && n.c <= 1200) {
			std::vector<Lin> x, y; bool known = true;
			prefix(args[0], (long)n.c, x);
			if (!search) prefix(args[1], (long)n.c, y);
			std::vector<State> res; State cur = s; bool live = true;
			auto give = [&](State& t, const AVal& v) { t.env[&I] = v; res.push_back(std::move(t)); };
			for (long k = 0; live && k < (long)n.c; ++k) {
				if (k >= (long)x.size() || (!search && k >= (long)y.size())) { known = false; break; }
				if (search) {
					Lin w = intArg(1);
					{ State t = cur; if (assumeEq(t, x[k] - w)) { AVal p = args[0]; p.e = p.e + Lin((Z)(4 * k)); give(t, p); } }
					if (!assumeNe(cur, x[k] - w)) { live = false; break; }
					if (stops) { { State t = cur; if (assumeEq(t, x[k])) give(t, AVal::Null()); } if (!assumeNe(cur, x[k])) live = false; }
				} else {
					{ State t = cur; if (assumeGe(t, x[k] - y[k] - Lin(1))) give(t, AVal::Int(32, Lin(1))); }
					{ State t = cur; if (assumeGe(t, y[k] - x[k] - Lin(1))) give(t, AVal::Int(32, Lin((Z)-1))); }
					if (!assumeEq(cur, x[k] - y[k])) { live = false; break; }
					if (stops) { { State t = cur; if (assumeEq(t, x[k])) give(t, AVal::Int(32, Lin(0))); } if (!assumeNe(cur, x[k])) live = false; }
				}
				if (res.size() > 400) throw GiveUp{"too many ways to compare texts"};
			}
			if (known) {
				if (live) give(cur, search ? AVal::Null() : AVal::Int(32, Lin(0)));
				for (auto& t : res) more.push_back(std::move(t));
				rc = 0;
				return true;
			}
		}
	}
	// ---- wide strings
	if (name == "wcslen") {
		Lin z; if (!cstr(args[0], z)) return true;
		if (s.ro(args[0].reg).gv && s.ro(args[0].reg).gv->isConstant() && s.ro(args[0].reg).gv->hasInitializer() && s.P.norm(args[0].e).isConst())
			if (auto* cd = dyn_cast<ConstantDataSequential>(s.ro(args[0].reg).gv->getInitializer())) {
				Z o = s.P.norm(args[0].e).c;
				if (o >= 0 && o % 4 == 0 && cd->getElementType()->isIntegerTy(32))
					for (Z k = o / 4; k < (Z)cd->getNumElements(); ++k) if (cd->getElementAsInteger((unsigned)k) == 0) return ret(AVal::Int(64, Lin(k - o / 4)));
			}
		{
			// text whose characters are known one by one
			Lin o = s.P.norm(args[0].e);
			std::vector<Lin> ch; bool ends = false;
			if (o.isConst() && s.ro(args[0].reg).fuzz.empty() && !s.ro(args[0].reg).fuzzAll) for (int k = 0; k < 1200 && !ends; ++k) {
				const Region& rr = s.ro(args[0].reg);
				auto it = rr.cells.find((int64_t)o.c + 4 * k);
				if (it != rr.cells.end() && it->second.w == 4 && it->second.v.k == VInt) { ch.push_back(it->second.v.e); if (s.P.norm(ch.back()) == Lin(0)) ends = true; continue; }
				if (it == rr.cells.end() && zeroAt(s, args[0].reg, args[0].e + Lin(4 * k), 4)) { ch.push_back(Lin(0)); ends = true; continue; }
				break;
			}
			if (ends && ch.size() > 1) {
				State c = s;
				for (size_t k = 0; k < ch.size(); ++k) {
					State a = c;
					if (assumeEq(a, ch[k])) { a.env[&I] = AVal::Int(64, Lin((Z)k)); more.push_back(a); }
					if (!assumeNe(c, ch[k])) break;
				}
				rc = 0;
				return true;
			}
		}
		if (confirm) {
			const Region& rr = s.ro(args[0].reg);
			for (auto& l : rr.lens) if (s.P.entailsEq(l.first - args[0].e)) return ret(AVal::Int(64, l.second));
			if (s.P.entailsEq(z - args[0].e)) { s.rw(args[0].reg).lens.push_back({args[0].e, Lin(0)}); return ret(AVal::Int(64, Lin(0))); }
		}
		Lin q = Lin::var(VT.fresh("wcslen"));
		if (confirm) {
			// exact only for text about which nothing but its end is known
			Region& rr = s.rw(args[0].reg);
			bool plain = rr.entry && rr.fuzz.empty() && !rr.fuzzAll && rr.sym.empty() && rr.lens.empty() && (rr.deflt == DTop);
			if (rr.kind != RInput || rr.cls.empty()) { if (!rr.cells.empty()) plain = false; }
			if (!plain) s.approx.insert(q.t[0].first);
			rr.lens.push_back({args[0].e, q});
		}
		s.P.addGe(q); s.P.addGe(z - args[0].e - q * 4);
		int r = args[0].reg;
		(void)r;
		s.P.addGe(Lin(pow2(40)) - q);
		// the terminator that was found
		Region& R = s.rw(args[0].reg);
		if (R.zero.size() < 8 || confirm) R.zero.push_back({args[0].e + q * 4, args[0].e + q * 4 + Lin(4)});
		return ret(AVal::Int(64, q));
	}
	if (name == "wcscmp") { Lin z; if (!cstr(args[0], z)) return true; if (!cstr(args[1], z)) return true; return retFresh(); }
	if (name == "wcsstr" || name == "wcschr") {
		Lin z, z2; if (!cstr(args[0], z)) return true;
		if (name == "wcsstr") { if (!cstr(args[1], z2)) return true; }
		if (confirm) s.lossy = true;   // whether it is found is not known
		State n = s; n.env[&I] = AVal::Null(); more.push_back(n);
		Lin q = Lin::var(VT.fresh("found")); markApprox(s, q);
		s.P.addGe(q); s.P.addGe(z - args[0].e - q * 4);
		AVal p = args[0]; p.e = p.e + q * 4;
		return ret(p);
	}
	if (name == "wcsncmp" || name == "wmemcmp") return retFresh();
	if (name == "memcmp" || name == "bcmp") {
		Lin n = intArg(2);
		if (!access(args[0], n, false)) return true;
		if (!access(args[1], n, false)) return true;
		{ State z = s; if (assumeEq(z, n)) { z.env[&I] = AVal::Int(32, Lin(0)); more.push_back(z); } }
		if (!assumeGe(s, n - Lin(1))) { rc = 0; return true; }
		return retFresh();
	}
	if ((starts("isw") || starts("tow")) && args.size() == 1 && args[0].k == VInt) {
		// the C locale for ASCII; what other characters are depends on the locale (but never a digit)
		typedef std::vector<std::pair<int, int>> R;
		static const std::map<std::string, R> cls = {
			{"iswdigit", {{48, 57}}}, {"iswxdigit", {{48, 57}, {65, 70}, {97, 102}}}, {"iswspace", {{9, 13}, {32, 32}}}, {"iswblank", {{9, 9}, {32, 32}}},
			{"iswupper", {{65, 90}}}, {"iswlower", {{97, 122}}}, {"iswalpha", {{65, 90}, {97, 122}}}, {"iswalnum", {{48, 57}, {65, 90}, {97, 122}}},
			{"iswcntrl", {{0, 31}, {127, 127}}}, {"iswpunct", {{33, 47}, {58, 64}, {91, 96}, {123, 126}}}, {"iswgraph", {{33, 126}}}, {"iswprint", {{32, 126}}},
			{"towlower", {{65, 90}}}, {"towupper", {{97, 122}}}};
		auto it = cls.find(name);
		if (it == cls.end()) return retFresh();
		Lin c = args[0].e;
		bool conv = starts("tow"), all = name == "iswdigit" || name == "iswxdigit";
		auto piece = [&](Z lo, Z hi, int what) {   // what: 0 not in the class, 1 in the class, 2 depends on the locale
			if (lo > hi) return;
			State a = s;
			if (!assumeGe(a, c - Lin(lo)) || !assumeGe(a, Lin(hi) - c)) return;
			AVal v;
			if (what == 2) { Lin q = conv ? freshRange(a, 0, 0x10ffff, "tow") : freshRange(a, 0, 1 << 20, "isw"); markApprox(a, q); v = AVal::Int(32, q); }
			else if (conv) v = AVal::Int(32, what == 0 ? c : name == "towlower" ? c + Lin(32) : c - Lin(32));
			else v = AVal::Int(32, what == 0 ? Lin(0) : freshRange(a, 1, 1 << 20, "isw"));
			a.env[&I] = v; more.push_back(std::move(a));
		};
		Z at = 0, top = ((Z)1 << 32) - 1;
		piece(-((Z)1 << 31), -1, all ? 0 : 2);
		for (auto& q : it->second) { piece(at, q.first - 1, 0); piece(q.first, q.second, 1); at = q.second + 1; }
		if (all) piece(at, top, 0); else { piece(at, 127, 0); piece(128, top, 2); }
		rc = 0;
		return true;
	}
	if (starts("isw") || starts("tow")) return retFresh();
	if (name == "swprintf") {
		Lin n = intArg(1);
		if (!access(args[0], n * 4, true)) return true;
		std::string f; std::vector<std::string> kinds; long mx = -1, mn = 0;
		std::string fm;
		if (constWide(*this, I.getArgOperand(2), fm)) {
			mx = fmtMax(fm, kinds, &mn, [&](size_t k, bool un, long& a, long& b) {
				if (3 + k >= args.size() || args[3 + k].k != VInt) return false;
				Z l, h; if (!s.P.minOf(args[3 + k].e, l) || !s.P.maxOf(args[3 + k].e, h)) return false;
				if (un && l < 0) return false;
				auto len = [](Z v) { long c = v < 0 ? 2 : 1; if (v < 0) v = -v; while (v >= 10) { v /= 10; ++c; } return c; };
				b = std::max(len(l), len(h));
				a = l >= 0 ? len(l) : h < 0 ? len(h) : 1;
				return true;
			});
			bool good = true;
			if (I.arg_size() < 3 + kinds.size()) good = false;
			for (size_t i = 0; good && i < kinds.size(); i++) {
				Type* t = I.getArgOperand(3 + i)->getType();
				if (kinds[i] == "i32") good = t->isIntegerTy(32); else if (kinds[i] == "i64") good = t->isIntegerTy(64);
				else if (kinds[i] == "f64") good = t->isDoubleTy(); else good = t->isPointerTy();
				if (good && kinds[i] == "wstr") { Lin z; if (!cstr(args[3 + i], z)) return true; }
			}
			if (good) ok("format", &I); else alarm("format", &I, "conversion in a format text does not match the argument it formats", &s);
		} else {
			Lin z; if (!cstr(args[2], z)) return true;
		}
		if (!assumeGe(s, n - Lin(1))) { return ret(AVal::Int(32, Lin(-1))); }
		if (exactText && kinds.size() == 1 && kinds[0] == "f64" && fm.size() < 12 && fm[0] == '%' && strchr("gGeEfF", fm.back()) && fm.find('*') == std::string::npos && args.size() > 3 && args[3].k == VFlt) {
			// one floating point conversion of a known number: the host's C library formats it
			Lin e = s.P.norm(args[3].e), nn = s.P.norm(args[3].nan);
			if (e.isConst() && nn == Lin(0)) {
				double d = ordToDbl(e.c);
				if (d != 0 || args[3].zs) {
					if (d == 0 && args[3].zs == 2) d = -0.0;
					char buf[512]; int len = snprintf(buf, sizeof buf, fm.c_str(), d);
					if (len >= 0 && len < (int)sizeof buf) {
						State f = s;
						if (assumeGe(f, n - Lin((Z)len) - Lin(1))) {
							for (int k = 0; k <= len; ++k) { AVal p = args[0]; p.e = p.e + Lin((Z)(4 * k)); storeMem(f, p, AVal::Int(32, Lin((Z)(unsigned char)buf[k])), 4); }
							f.env[&I] = AVal::Int(32, Lin((Z)len));
							more.push_back(std::move(f));
						}
						if (assumeGe(s, Lin((Z)len) - n)) { havocRange(s, args[0].reg, args[0].e, n * 4); s.env[&I] = AVal::Int(32, Lin(-1)); more.push_back(s); }
						rc = 0;
						return true;
					}
				}
			}
		}
		if (exactText && !fm.empty()) {
			// formats made of literals and plain, possibly zero padded, decimal conversions: character by character
			std::vector<std::pair<State, std::vector<Lin>>> cur{{s, {}}};
			bool good = true; size_t ai = 3;
			for (size_t i = 0; good && i < fm.size(); ++i) {
				if (fm[i] != '%') { for (auto& c : cur) c.second.push_back(Lin((Z)(unsigned char)fm[i])); continue; }
				++i;
				if (i < fm.size() && fm[i] == '%') { for (auto& c : cur) c.second.push_back(Lin('%')); continue; }
				bool zp = false; size_t width = 0;
				if (i < fm.size() && fm[i] == '0') { zp = true; ++i; }
				while (i < fm.size() && isdigit((unsigned char)fm[i])) width = width * 10 + (fm[i++] - '0');
				int bits = 32;
				while (i < fm.size() && fm[i] == 'l') { bits = 64; ++i; }
				if (i >= fm.size() || !strchr("diu", fm[i]) || ai >= args.size() || args[ai].k != VInt) { good = false; break; }
				bool un = fm[i] == 'u';
				Lin e = args[ai++].e;
				std::vector<std::pair<State, std::vector<Lin>>> nx;
				for (auto& c : cur) {
					auto one = [&](State a, Lin mag, bool neg) {
						Z lo = 0, hi = 9; size_t len = 1;
						if (zp && width > (neg ? 1u : 0u) && width <= 20) {   // zero padded: the digits are the same for all lengths up to the width
							size_t w = width - (neg ? 1 : 0);
							Z lim = 1; for (size_t k = 0; k < w; ++k) lim *= 10;
							State b = a;
							if (assumeGe(b, Lin(lim - 1) - mag)) {
								std::vector<Lin> t = c.second;
								if (neg) t.push_back(Lin('-'));
								std::vector<Lin> d; Lin sum; Z pw = 1;
								for (size_t k = 0; k < w; ++k) { Lin q = w == 1 ? mag : freshRange(b, 0, 9, "digit"); d.push_back(q); sum = sum + q * pw; pw *= 10; }
								bool live = w == 1 || assumeEq(b, mag - sum);
								for (size_t k = w; k-- > 0;) t.push_back(d[k] + Lin('0'));
								if (live) nx.push_back({std::move(b), std::move(t)});
							}
							if (!assumeGe(a, mag - Lin(lim))) return;
							lo = lim; hi = lim * 10 - 1; len = w + 1;
						}
						while (len <= 20) {
							State b = a;
							if (assumeGe(b, mag - Lin(lo)) && assumeGe(b, Lin(hi) - mag)) {
								std::vector<Lin> t = c.second;
								size_t pad = width > len + (neg ? 1 : 0) ? width - len - (neg ? 1 : 0) : 0;
								if (!zp) for (size_t k = 0; k < pad; ++k) t.push_back(Lin(' '));
								if (neg) t.push_back(Lin('-'));
								if (zp) for (size_t k = 0; k < pad; ++k) t.push_back(Lin('0'));
								std::vector<Lin> d; Lin sum; Z pw = 1;
								for (size_t k = 0; k < len; ++k) { Lin q = len == 1 ? mag : freshRange(b, k + 1 == len ? 1 : 0, 9, "digit"); d.push_back(q); sum = sum + q * pw; pw *= 10; }
								bool live = len == 1 || assumeEq(b, mag - sum);
								for (size_t k = len; k-- > 0;) t.push_back(d[k] + Lin('0'));
								if (live) nx.push_back({std::move(b), std::move(t)});
							}
							if (!assumeGe(a, mag - Lin(hi + 1))) break;
							lo = hi + 1; hi = hi * 10 + 9; ++len;
						}
					};
					auto sign = [&](State a, Lin v) {
						if (un) {
							State b = a;
							if (assumeGe(b, v)) one(b, v, false);
							if (assumeGe(a, -v - Lin(1))) one(a, v + Lin(pow2(bits)), false);
						} else {
							State b = a, d = a;
							if (assumeGe(b, v - Lin(pow2(bits - 1)))) { Lin w = v - Lin(pow2(bits)); one(b, -w, true); }
							if (!assumeGe(a, Lin(pow2(bits - 1) - 1) - v)) return;
							d = a;
							if (assumeGe(d, v)) one(d, v, false);
							if (assumeGe(a, -v - Lin(1))) one(a, -v, true);
						}
					};
					sign(c.first, e);
				}
				cur = std::move(nx);
				if (cur.size() > 64) good = false;
			}
			if (good) {
				for (auto& c : cur) {
					State f = c.first;
					Lin len((Z)c.second.size());
					if (assumeGe(f, n - len - Lin(1))) {
						for (size_t k = 0; k <= c.second.size(); ++k) { AVal p = args[0]; p.e = p.e + Lin((Z)(4 * k)); storeMem(f, p, AVal::Int(32, k < c.second.size() ? c.second[k] : Lin(0)), 4); }
						f.env[&I] = AVal::Int(32, len);
						more.push_back(std::move(f));
					}
					State g = c.first;
					if (assumeGe(g, len - n)) { havocRange(g, args[0].reg, args[0].e, n * 4); g.env[&I] = AVal::Int(32, Lin(-1)); more.push_back(std::move(g)); }
				}
				rc = 0;
				return true;
			}
		}
		Lin lo = args[0].e;
		bool canFail = !(mx >= 0 && s.P.entailsGe(n - Lin((Z)mx + 1)));
		if (canFail) {
			State t = s;
			havocRange(t, args[0].reg, lo, n * 4);
			t.env[&I] = AVal::Int(32, Lin(-1));
			more.push_back(t);
		}
		Lin r = Lin::var(VT.fresh("printed")); markApprox(s, r);
		s.P.addGe(r - Lin((Z)mn)); if (!assumeGe(s, n - Lin(1) - r)) { rc = 0; return true; }
		if (mx >= 0) s.P.addGe(Lin((Z)mx) - r);
		havocRange(s, args[0].reg, lo, (r + Lin(1)) * 4);
		s.rw(args[0].reg).zero.push_back({lo + r * 4, lo + r * 4 + Lin(4)});
		return ret(AVal::Int(32, r));
	}
	if (name == "wcstod" || name == "wcstof") {
		// reads the longest prefix which is a number; the end of it is told
		int fb = name == "wcstof" ? 32 : 64;
		Lin z; if (!cstr(args[0], z)) return true;
		bool want = !isNull(args[1]);
		if (want && !access(args[1], Lin(8), true)) return true;
		auto give = [&](State t, const Lin& end, const AVal& v) {
			if (want) { AVal e = args[0]; e.e = end; storeMem(t, args[1], e, 8); }
			t.env[&I] = v;
			more.push_back(std::move(t));
		};
		auto any = [&](State t) {
			Lin k = freshRange(t, 0, (Z)1 << 40, "read"); markApprox(t, k);
			AVal v = freshFlt(t, fb, "read"); markApprox(t, v);
			if (assumeGe(t, z - args[0].e - k * 4)) give(std::move(t), args[0].e + k * 4, v);
		};
		std::vector<Lin> x;
		if (exactText && charsAt(args[0], -1, x)) {
			enum { S0, S1, D0, D, P0, F, E0, E1, EX, STOP, ANY };
			auto step = [](int st, int c) -> int {
				bool dg = c >= '0' && c <= '9';
				switch (st) {
				case S0: if (c == ' ' || (c >= 9 && c <= 13)) return S0; if (c == '+' || c == '-') return S1; if (c > 127) return ANY;
				// fall through
				case S1: if (dg) return c == '0' ? D0 : D; if (c == '.') return P0; if (c == 'i' || c == 'I' || c == 'n' || c == 'N') return ANY; return STOP;
				case D0: if (c == 'x' || c == 'X') return ANY;
				// fall through
				case D: if (dg) return D; if (c == '.') return F; if (c == 'e' || c == 'E') return E0; return STOP;
				case P0: return dg ? F : STOP;
				case F: if (dg) return F; if (c == 'e' || c == 'E') return E0; return STOP;
				case E0: if (dg) return EX; if (c == '+' || c == '-') return E1; return STOP;
				case E1: return dg ? EX : STOP;
				case EX: return dg ? EX : STOP;
				}
				return STOP;
			};
			struct Run { State t; int st; size_t at; size_t good, exp; bool neg, eneg; size_t first; };   // good: characters of the number so far
			std::vector<Run> todo; todo.push_back({s, S0, 0, 0, 0, false, false, 0});
			size_t steps = 0;
			while (!todo.empty()) {
				if (++steps > 4000) throw GiveUp{"too many ways to read a number"};
				Run r = std::move(todo.back()); todo.pop_back();
				// ranges of characters that act alike
				Z lo, hi; if (!r.t.P.minOf(x[r.at], lo)) lo = -((Z)1 << 31); if (!r.t.P.maxOf(x[r.at], hi)) hi = ((Z)1 << 31) - 1;
				for (Z c = lo; c <= hi;) {
					auto act = [&](Z q) { return q < 0 ? step(r.st, 1) : q > 127 ? step(r.st, 128) : step(r.st, (int)q); };
					int nx = act(c); bool minus = c == '-';
					Z e = c; 
					if (c < 0) e = std::min(hi, (Z)-1); else if (c > 127) e = hi; else while (e < hi && e < 127 && act(e + 1) == nx && (e + 1 == '-') == minus && !minus) ++e;
					State u = r.t;
					bool live = c == lo && e == hi ? true : assumeGe(u, x[r.at] - Lin(c)) && assumeGe(u, Lin(e) - x[r.at]);
					c = e + 1;
					if (!live) continue;
					if (nx == ANY) { any(std::move(u)); continue; }
					if (nx != STOP) {
						Run n{std::move(u), nx, r.at + 1, r.good, r.exp, r.neg, r.eneg, r.first};
						if (nx == S0) n.first = n.at;
						if (nx == S1 && minus) n.neg = true;
						if (nx == E1 && minus) n.eneg = true;
						if (nx == E0) n.exp = r.at;
						if (nx == D0 || nx == D || nx == F || nx == EX) n.good = n.at;
						todo.push_back(std::move(n));
						continue;
					}
					if (r.good == 0) { give(std::move(u), args[0].e, AVal::Flt(fb, Lin(0), Lin(0))); continue; }
					std::string ml, mh, el, eh; bool known = true;
					for (size_t k = r.first; k < r.good; ++k) {
						Z a, b;
						if (!u.P.minOf(x[k], a) || !u.P.maxOf(x[k], b)) { a = '0'; b = '9'; }
						if (a != b) known = false;
						if (r.exp && k > r.exp) { el += (char)a; eh += (char)b; } else if (!(r.exp && k == r.exp)) { ml += (char)a; mh += (char)b; }
					}
					if (r.exp && r.exp < r.good) { ml += "e" + (r.eneg ? eh : el); mh += "e" + (r.eneg ? el : eh); }
					double l = strtod(ml.c_str(), nullptr), h = strtod(mh.c_str(), nullptr);
					if (fb == 32) { l = (double)strtof(ml.c_str(), nullptr); h = (double)strtof(mh.c_str(), nullptr); }
					if (r.neg) std::swap(l, h);
					AVal v = fltFromRange(u, fb, l, h, 0, "read");
					if (!known) markApprox(u, v);
					give(std::move(u), args[0].e + Lin((Z)(4 * r.good)), v);
				}
			}
			rc = 0;
			return true;
		}
		any(s);
		rc = 0;
		return true;
	}
	if (name == "__isoc23_swscanf" || name == "swscanf" || name == "__isoc99_swscanf") {
		Lin z; if (!cstr(args[0], z)) return true;
		unsigned np = (unsigned)args.size() - 2;
		std::string fm; std::vector<std::string> kinds; 
		if (constWide(*this, I.getArgOperand(1), fm)) fmtMax(fm, kinds);
		if (zeroAt(s, args[0].reg, args[0].e, 4)) return ret(AVal::Int(32, Lin(-1)));   // nothing to read
		{
			const Region& rr = s.ro(args[0].reg);
			// text of which only the length is known may hold anything
			bool plain = rr.entry && rr.fuzz.empty() && !rr.fuzzAll && rr.sym.empty() && rr.lens.empty() && rr.deflt == DTop && ((rr.kind == RInput && !rr.cls.empty()) || rr.cells.empty());
			State t = s; t.lossy = t.lossy || (confirm && !plain);
			if (assumeGe(t, z - args[0].e - Lin(4))) { t.env[&I] = AVal::Int(32, Lin(0)); more.push_back(t); t.env[&I] = AVal::Int(32, Lin(-1)); more.push_back(t); }
			else { t = s; t.env[&I] = AVal::Int(32, Lin(-1)); more.push_back(t); }
		}
		State cur = s;
		for (unsigned i = 0; i < np; i++) {
			int64_t w = 8; bool flt = false;
			// conversion kinds of scanf: f -> float, lf -> double
			size_t cnt = 0; std::string spec;
			for (size_t k = 0; k + 1 < fm.size(); k++) if (fm[k] == '%' && fm[k + 1] != '%' && fm[k + 1] != '*') { if (cnt++ == i) { size_t e = k + 1; while (e < fm.size() && !isalpha((unsigned char)fm[e])) ++e; while (e < fm.size() && strchr("hlLq", fm[e])) spec += fm[e++]; if (e < fm.size()) spec += (char)tolower(fm[e]); break; } }
			if (spec == "f" || spec == "e" || spec == "g") { w = 4; flt = true; } else if (spec == "lf" || spec == "le" || spec == "lg") { w = 8; flt = true; }
			else if (spec == "d" || spec == "u" || spec == "x" || spec == "i" || spec == "X" || spec == "lc") w = 4; else if (spec == "hd" || spec == "hu") w = 2; else if (spec == "hhd" || spec == "hhu") w = 1;
			Acc a = checkAccess(cur, args[2 + i], Lin((Z)w), true, &I, retry);
			if (a != ACC_OK) break;
			AVal sv = flt ? freshFlt(cur, w == 4 ? 32 : 64, "scanned") : AVal::Int((int)w * 8, freshInt(cur, (int)w * 8, "scanned"));
			markApprox(cur, sv);
			storeMem(cur, args[2 + i], sv, w);
			cur.env[&I] = AVal::Int(32, Lin((Z)i + 1));
			more.push_back(cur);
		}
		rc = 0;
		return true;
	}
	if (name == "printf" || name == "wprintf") {
		std::string fm; auto* g = dyn_cast<GlobalVariable>(I.getArgOperand(0)->stripPointerCasts());
		if (g && g->hasInitializer()) { if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) for (unsigned i = 0; i < cd->getNumElements(); i++) { auto c = cd->getElementAsInteger(i); if (!c) break; fm += (char)c; } }
		std::vector<std::string> kinds; fmtMax(fm, kinds);
		for (size_t i = 0; i < kinds.size() && 1 + i < args.size(); i++) if (kinds[i] == "wstr") {
			Lin z; if (!cstr(args[1 + i], z)) return true;
			// a harness may ask for the text printed last
			if (auto* pg = I.getModule()->getNamedGlobal("absint_printed")) if (pg != g && gvReg.count(pg) && name == "printf") storeMem(s, AVal::Ptr(gvReg[pg]), args[1 + i], 8);
		}
		if (auto* pg = I.getModule()->getNamedGlobal("absint_prints")) if (gvReg.count(pg)) {
			std::vector<State> rr; bool did = false;
			AVal c = loadMem(s, AVal::Ptr(gvReg[pg]), Type::getInt32Ty(I.getContext()), &I, rr, did);
			if (c.k == VInt) storeMem(s, AVal::Ptr(gvReg[pg]), AVal::Int(32, s.P.norm(c.e + Lin(1))), 4);
		}
		return retFresh();
	}
	// ---- time
	auto tmRegion = [&](State& t, int reg, const Lin& off) {
		static const Z lims[9][2] = {{0, 60}, {0, 59}, {0, 23}, {1, 31}, {0, 11}, {-2147481748LL, 2147483647LL}, {0, 6}, {0, 365}, {-1, 1}};
		for (int i = 0; i < 9; i++) storeMem(t, AVal::Ptr(reg, off + Lin(4 * i)), [&] { AVal tv = AVal::Int(32, freshRange(t, lims[i][0], lims[i][1], "tm")); markApprox(t, tv); return tv; }(), 4);
		storeMem(t, AVal::Ptr(reg, off + Lin(40)), AVal::Int(64, freshRange(t, -86400, 86400, "gmtoff")), 8);
		storeMem(t, AVal::Ptr(reg, off + Lin(48)), AVal::Top(), 8);
	};
	if (name == "time") {
		if (!isNull(args[0])) { if (!access(args[0], Lin(8), true)) return true; }
		Lin t = freshRange(s, 0, (Z)253402300799LL, "now");
		if (!isNull(args[0])) storeMem(s, args[0], AVal::Int(64, t), 8);
		return ret(AVal::Int(64, t));
	}
	if (name == "clock_gettime" || name == "timespec_get") {
		unsigned i = name == "clock_gettime" ? 1 : 0;
		if (!access(args[i], Lin(16), true)) return true;
		storeMem(s, args[i], AVal::Int(64, freshRange(s, 0, (Z)253402300799LL, "sec")), 8);
		AVal p = args[i]; p.e = p.e + Lin(8);
		storeMem(s, p, AVal::Int(64, freshRange(s, 0, 999999999, "nsec")), 8);
		return ret(AVal::Int(32, Lin(i == 1 ? 0 : 1)));
	}
	if (name == "gmtime" || name == "localtime" || name == "gmtime_r" || name == "localtime_r") {
		if (!access(args[0], Lin(8), false)) return true;
		bool rr = name.back() == 'r';
		if (rr && !access(args[1], Lin(56), true)) return true;
		bool dr; AVal tv = loadMem(s, args[0], Type::getInt64Ty(M.getContext()), &I, retry, dr);
		const Z LIM = (Z)67768036191676799LL;
		bool mayFail = !(tv.k == VInt && s.P.entailsGe(Lin(LIM) - tv.e) && s.P.entailsGe(tv.e + Lin(LIM)));
		if (tv.k == VUndef) alarm("uninit", &I, "time value that was never set is converted", &s);
		if (mayFail) { State n = s; n.env[&I] = AVal::Null(); more.push_back(n); }
		if (rr) { tmRegion(s, args[1].reg, args[1].e); return ret(args[1]); }
		int r = newRegion(s, RExt, Lin(56), "calendar fields"); s.rw(r).deflt = DTop; s.rw(r).owned = Lin(0);
		tmRegion(s, r, Lin(0));
		return ret(AVal::Ptr(r));
	}
	if (name == "mktime" || name == "timegm") {
		if (!access(args[0], Lin(56), true)) return true;
		static const int offs[] = {0, 4, 8, 12, 16, 20, 32};
		bool bad = false;
		for (int o : offs) { bool dr; std::vector<State> rt; AVal p = args[0]; p.e = p.e + Lin(o); AVal v = loadMem(s, p, Type::getInt32Ty(M.getContext()), &I, rt, dr); if (v.k == VUndef) bad = true; }
		if (bad) alarm("uninit", &I, "calendar field that was never set is used", &s); else ok("uninit", &I);
		tmRegion(s, args[0].reg, args[0].e);
		return retFresh();
	}
	if (name == "tzset") return true;
	// ---- mathematics
	if (name == "fabs" || name == "fabsf") return absOf(args[0]);
	if (name == "floor" || name == "floorf") return roundOf(args[0], 'f');
	if (name == "ceil" || name == "ceilf") return roundOf(args[0], 'c');
	if (name == "trunc" || name == "truncf") return roundOf(args[0], 't');
	if (name == "rint" || name == "nearbyint") return roundOf(args[0], 'n');
	if (name == "round") return roundOf(args[0], 'r');
	static const std::set<std::string> mathFns = {"acos", "asin", "atan", "atan2", "ceil", "cos", "cosh", "exp", "exp2", "fabs", "floor", "fmod", "fmodf", "log", "log10", "log2", "pow", "powf", "remainder", "remainderf", "rint", "round", "sin", "sinh", "sqrt", "sqrtf", "tan", "tanh", "trunc", "acosh", "asinh", "atanh", "cbrt", "scalbn", "scalbln", "logb", "ldexp", "hypot", "copysign", "nearbyint", "fmin", "fmax", "fma", "truncf", "floorf", "ceilf", "log1p", "expm1"};
	if (mathFns.count(name)) {
		return libm(name);
	}
	if (name == "modf") return modfOf();
	if (name == "frexp") { if (!access(args[1], Lin(4), true)) return true; storeMem(s, args[1], [&] { AVal ev = AVal::Int(32, freshRange(s, -2000, 2000, "exp")); markApprox(s, ev); return ev; }(), 4); return retFresh(); }
	if (name == "ilogb") return ilogbOf();
	if (name == "_ZN21DotnetLibrarySupport17TranslatorSupport7RunCodeEv" ) return false;
	(void)deadRetry;
	return false;
}
