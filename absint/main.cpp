#include "engine.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;
struct PInfo { std::string kind, cls, name; int bits = 0; bool art = false; bool sgn = true; bool cst = false; };
static PInfo describe(const DIType* t) {
	PInfo p;
	bool ptr = false, ref = false;
	while (t) {
		if (auto* d = dyn_cast<DIDerivedType>(t)) {
			auto tag = d->getTag();
			if (d->isArtificial()) p.art = true;
			if (tag == dwarf::DW_TAG_const_type && (ptr || ref)) p.cst = true;
			if (tag == dwarf::DW_TAG_pointer_type) ptr = true;
			else if (tag == dwarf::DW_TAG_reference_type || tag == dwarf::DW_TAG_rvalue_reference_type) ref = true;
			if (d->isObjectPointer()) p.art = true;
			t = d->getBaseType();
			if (!t) { p.kind = ptr ? "voidptr" : "?"; return p; }
			continue;
		}
		break;
	}
	if (!t) { p.kind = ptr ? "voidptr" : "void"; return p; }
	std::string pre = ptr ? "ptr:" : ref ? "ref:" : "";
	if (auto* b = dyn_cast<DIBasicType>(t)) {
		p.bits = (int)b->getSizeInBits();
		p.sgn = b->getEncoding() == dwarf::DW_ATE_signed || b->getEncoding() == dwarf::DW_ATE_signed_char;
		p.kind = pre + (b->getEncoding() == dwarf::DW_ATE_boolean ? "bool" : b->getEncoding() == dwarf::DW_ATE_float ? "flt" : "int");
		p.cls = b->getName().str();
		return p;
	}
	if (auto* c = dyn_cast<DICompositeType>(t)) {
		p.cls = c->getName().str();
		p.bits = (int)c->getSizeInBits();
		p.kind = pre + (c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "class");
		return p;
	}
	p.kind = pre + "?";
	return p;
}
struct Entry { const Function* F; std::string cls, name, sig; std::vector<PInfo> params; PInfo ret; bool isStatic = true, pub = true, ctor = false; };
static bool mkEntry(const Function& F, Entry& e) {
	auto* sp = F.getSubprogram();
	if (!sp || F.isDeclaration()) return false;
	auto* decl = sp->getDeclaration() ? sp->getDeclaration() : sp;
	e.F = &F;
	e.name = sp->getName().str();
	if (auto* sc = dyn_cast_or_null<DICompositeType>(decl->getScope())) {
		e.cls = sc->getName().str();
		unsigned acc = decl->getFlags() & DINode::FlagAccessibility;
		if (acc == DINode::FlagPublic) e.pub = true;
		else if (acc == 0) e.pub = sc->getTag() == dwarf::DW_TAG_structure_type;
		else e.pub = false;
	}
	e.ctor = e.name == e.cls;
	auto types = decl->getType()->getTypeArray();
	for (unsigned i = 0; i < types.size(); i++) {
		PInfo p = describe(types[i]);
		if (i == 0) { e.ret = p; continue; }
		if (i == 1 && !e.cls.empty() && p.art) { e.isStatic = false; p.name = "this"; }
		e.params.push_back(p);
	}
	for (auto& I : instructions(F)) if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
		auto* v = dv->getVariable();
		if (v && v->getArg() && v->getArg() <= e.params.size() && v->getScope() == sp && e.params[v->getArg() - 1].name.empty()) e.params[v->getArg() - 1].name = v->getName().str();
	}
	e.sig = demangle(F.getName().str());
	return true;
}
static std::string js(const std::string& s) {
	std::string r = "\"";
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r + "\"";
}
struct Config { std::string name; State s; std::vector<AVal> args; std::map<std::string, AVal> named; int sret = -1; std::vector<std::pair<int, std::string>> outParams; };
static void buildConfigs(Engine& E, const Entry& e, std::vector<Config>& out) {
	Config c; c.s = E.base;
	std::vector<std::pair<std::string, int>> objs;   // class pointers, for aliasing
	unsigned pi = 0;
	Lin sized; bool haveSized = false;
	for (auto& a : e.F->args()) {
		if (a.hasStructRetAttr()) {
			int64_t sz = (int64_t)E.DL.getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
			int r = E.newRegion(c.s, RStack, Lin((Z)sz), "result");
			c.s.rw(r).deflt = DUndef; c.s.rw(r).cls = e.ret.cls;
			c.sret = r;
			c.args.push_back(AVal::Ptr(r));
			continue;
		}
		if (pi >= e.params.size()) throw GiveUp{"parameter mismatch for " + e.sig};
		const PInfo& p = e.params[pi++];
		std::string n = p.name.empty() ? "arg" + std::to_string(pi) : p.name;
		AVal v;
		if (p.kind == "int" && haveSized) { v = AVal::Int(a.getType()->getIntegerBitWidth(), sized); haveSized = false; }
		else if (p.kind == "int") v = AVal::Int(a.getType()->getIntegerBitWidth(), E.freshInt(c.s, p.bits, n));
		else if (p.kind == "bool") v = AVal::Int(a.getType()->getIntegerBitWidth(), E.freshRange(c.s, 0, 1, n));
		else if (p.kind == "enum") v = AVal::Int(a.getType()->getIntegerBitWidth(), p.cls.find("DataType") != std::string::npos || p.cls.find("ElementType") != std::string::npos ? E.freshRange(c.s, 1, 17, n) : E.freshInt(c.s, p.bits, n));
		else if (p.kind == "flt") v = E.freshFlt(c.s, p.bits, n);
		else if (p.kind == "ptr:class" || p.kind == "ref:class" || p.kind == "class") {
			if (n == "this" && e.ctor) {
				int64_t sz = E.classes.count(e.cls) ? E.classes.at(e.cls).size : 1;
				int r = E.newRegion(c.s, RInput, Lin((Z)sz), "object under construction");
				c.s.rw(r).deflt = DZero;    // operator new clears
				v = AVal::Ptr(r);
			} else {
				v = E.lazyObject(c.s, p.cls, n, p.kind == "ptr:class" && n != "this" ? 2 : 0);
				if (p.kind == "ptr:class") objs.push_back({p.cls, v.reg});
			}
		} else if (p.kind == "ptr:int" && !p.cst && pi < e.params.size() && e.params[pi].kind == "int") {
			// caller supplied memory of a stated number of elements
			int w = p.bits / 8;
			Lin len = E.freshRange(c.s, 1, ((Z)1 << 31) - 1, n + ".count");
			int r = E.newRegion(c.s, RExt, len * w, "memory supplied in " + n);
			Region& R = c.s.rw(r);
			R.deflt = DTop; R.entry = true; R.owned = Lin(0);
			v = AVal::Ptr(r);
			sized = len; haveSized = true;
		} else if (p.kind == "ptr:int") {
			int w = p.bits / 8;
			Lin len = E.freshRange(c.s, 0, ((Z)1 << 31) - 2, n + ".count");
			int r = E.newRegion(c.s, RExt, len * w + Lin(w), "text " + n);
			Region& R = c.s.rw(r);
			R.deflt = DTop; R.entry = true; R.owned = Lin(0); R.immut = true;
			R.zero.push_back({len * w, len * w + Lin(w)});
			v = AVal::Ptr(r);
		} else if (p.kind == "ref:int" || p.kind == "ref:bool" || p.kind == "ref:flt" || p.kind == "ref:enum") {
			int w = p.bits / 8;
			int r = E.newRegion(c.s, RInput, Lin(w), "out parameter " + n);
			c.s.rw(r).entry = true;
			if (p.cst) {
				AVal iv = p.kind == "ref:flt" ? E.freshFlt(c.s, p.bits, n) : p.kind == "ref:bool" ? AVal::Int(8, E.freshRange(c.s, 0, 1, n)) : AVal::Int(p.bits, E.freshInt(c.s, p.bits, n));
				c.s.rw(r).cells[0] = {w, iv};
			} else {
				c.s.rw(r).deflt = DUndef;
				c.outParams.push_back({r, n});
			}
			v = AVal::Ptr(r);
		} else if (p.kind == "voidptr") {
			int r = E.newRegion(c.s, RExt, E.freshRange(c.s, 0, (Z)1 << 31, n + ".bytes"), "memory supplied in " + n);
			Region& R = c.s.rw(r); R.deflt = DTop; R.entry = true; R.owned = Lin(0);
			v = AVal::Ptr(r);
		} else throw GiveUp{"parameter kind " + p.kind + " (" + p.cls + ") of " + e.sig};
		c.args.push_back(v);
		c.named[n] = v;
	}
	for (auto& a : c.args) c.s.roots.push_back(a);
	// aliasing variants
	std::vector<Config> cs{c};
	for (size_t i = 0; i < objs.size(); i++) for (size_t j = i + 1; j < objs.size(); j++) {
		if (objs[i].first != objs[j].first || objs[i].first == "Object") continue;
		Config d = c; d.name = "two arguments are the same object";
		for (auto& a : d.args) if (a.k == VPtr && a.reg == objs[j].second) a.reg = objs[i].second;
		for (auto& kv : d.named) if (kv.second.k == VPtr && kv.second.reg == objs[j].second) kv.second.reg = objs[i].second;
		for (auto& a : d.s.roots) if (a.k == VPtr && a.reg == objs[j].second) a.reg = objs[i].second;
		cs.push_back(d);
	}
	// eager contents of the well-known classes
	for (auto& c0 : cs) {
		std::vector<Config> cur{c0};
		for (auto& o : objs) {
			if (o.first != "String" && o.first != "StringBuilder" && o.first != "Array" && o.first != "CharEnumerator") continue;
			std::vector<Config> nx;
			for (auto& x : cur) {
				bool used = false;
				for (auto& a : x.args) if (a.k == VPtr && a.reg == o.second) used = true;
				if (!used || !x.s.ro(o.second).lazy) { nx.push_back(x); continue; }
				if (x.s.ro(o.second).nullState == 2) {
					Config y = x; y.s.rw(o.second).nullState = 1; y.name += (y.name.empty() ? "" : ", ") + std::string("null ") + y.s.ro(o.second).role;
					nx.push_back(y);
					x.s.rw(o.second).nullState = 0;
				}
				int k = 0;
				for (auto& t : E.materialize(x.s, o.second)) { Config y = x; y.s = t; ++k; nx.push_back(y); }
			}
			cur = nx;
		}
		for (auto& x : cur) out.push_back(x);
	}
}

// ------------------------------------------------------------------ specifications
// A specification file holds blocks
//     fn Class::Name(parameter types)
//       if <condition>, <condition> ... => <expectation>, <expectation> ...
// Conditions constrain the state before the call. Expectations: returns | throws [Class] | fails-or-returns
// and conditions on the state after the call.
static const bool strict = getenv("SPEC_STRICT") != nullptr;   // while a specification is being written
struct Case {
	std::vector<std::string> pre, post; std::string text; int line = 0;
	// is a name used other than in its signed reading '.value'
	bool readsWhole(const std::string& n) const {
		for (auto* l : {&pre, &post}) for (auto& t : *l)
			for (size_t i = t.find(n); i != std::string::npos; i = t.find(n, i + 1)) {
				size_t j = i + n.size();
				if (j < t.size() && isdigit((unsigned char)t[j])) continue;
				if (t.compare(j, 6, ".value") != 0) return true;
			}
		return false;
	}
};
struct SpecFn { std::string sig; std::vector<Case> cases; int line = 0; };
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> splitTop(const std::string& s, char sep) {
	std::vector<std::string> r; std::string cur; int d = 0;
	for (char c : s) { if (c == '(') ++d; if (c == ')') --d; if (c == sep && d == 0) { r.push_back(trim(cur)); cur.clear(); } else cur += c; }
	if (!trim(cur).empty()) r.push_back(trim(cur));
	return r;
}
static std::string shortSig(std::string s) {
	for (const char* ns : {"DotnetLibrary::", "DotnetLibrarySupport::"}) { size_t p; while ((p = s.find(ns)) != std::string::npos) s.erase(p, strlen(ns)); }
	std::string r; for (char c : s) if (c != ' ') r += c;
	if (r.size() > 5 && r.substr(r.size() - 5) == "const" && r[r.size() - 6] == ')') r = r.substr(0, r.size() - 5);
	return r;
}
struct SpecErr { std::string why; };
static std::vector<SpecFn> readSpec(const std::string& file) {
	std::vector<SpecFn> r; std::ifstream in(file); std::string l; int n = 0;
	if (!in) throw SpecErr{"cannot read " + file};
	while (std::getline(in, l)) {
		++n; std::string t = trim(l);
		if (t.empty() || t[0] == '#') continue;
		if (t.rfind("fn ", 0) == 0) { SpecFn f; f.sig = shortSig(t.substr(3)); f.line = n; r.push_back(f); continue; }
		if (t.rfind("if ", 0) == 0 || t.rfind("always", 0) == 0) {
			if (r.empty()) throw SpecErr{file + ":" + std::to_string(n) + ": case before fn"};
			Case c; c.text = t; c.line = n;
			size_t p = t.find("=>");
			if (p == std::string::npos) throw SpecErr{file + ":" + std::to_string(n) + ": no =>"};
			std::string lhs = t.substr(0, p);
			if (t.rfind("if ", 0) == 0) c.pre = splitTop(lhs.substr(3), ',');
			c.post = splitTop(t.substr(p + 2), ',');
			r.back().cases.push_back(c); continue;
		}
		throw SpecErr{file + ":" + std::to_string(n) + ": cannot read '" + t + "'"};
	}
	return r;
}
static const char* aliasField(const std::string& cls, const std::string& f) {
	if (cls == "String") { if (f == "length") return "length"; }
	if (cls == "Array") { if (f == "total") return "totalElementCount"; if (f == "dim1") return "dimension1Size"; if (f == "dim2") return "dimension2Size"; if (f == "dim3") return "dimension3Size"; if (f == "rank") return "dimensionCount"; if (f == "type") return "dataType"; }
	if (cls == "StringBuilder") { if (f == "len") return "currentLength"; if (f == "cap") return "currentCapacity"; if (f == "max") return "maxCapacity"; }
	return nullptr;
}
typedef std::vector<std::pair<std::pair<Lin, int>, Lin>> UMap;
struct SpecCtx { Engine& E; const Config& c; const Entry& e; const State* pre; AVal ret; bool post; bool thrown = false; UMap* um = nullptr; std::map<std::string, Lin>* free = nullptr; };
// the value of an integer of an unsigned type; integers are kept in their signed reading
static Lin unsignedVal(SpecCtx& x, State& s, const Lin& e0, int bits, const std::string& n) {
	Lin e = s.P.norm(e0);
	if (bits > 64 || s.P.entailsGe(e)) return e;
	if (s.P.entailsGe(-e - Lin(1))) return e + Lin((Z)1 << bits);
	if (x.um) for (auto& u : *x.um) if (u.first.second == bits && s.P.entailsEq(u.first.first - e)) return u.second;
	Lin u = x.E.freshRange(s, 0, ((Z)1 << bits) - 1, n + ".unsigned"), b = x.E.freshRange(s, 0, 1, n + ".top");
	s.P.addEq(u - e - b * ((Z)1 << bits));
	if (!x.post) { s.roots.push_back(AVal::Int(64, u)); s.roots.push_back(AVal::Int(64, b)); if (x.um) x.um->push_back({{e, bits}, u}); }
	return u;
}
static AVal rootVal(SpecCtx& x, const std::string& n) {
	if (n == "ret") { if (!x.post) throw SpecErr{"ret used before the call"}; return x.c.sret >= 0 ? AVal::Ptr(x.c.sret, Lin(0)) : x.ret; }
	unsigned off = 0; if (x.c.sret >= 0) off = 1;
	if (n == "this") return x.c.args[off];
	if (n.size() > 1 && n[0] == '$') {
		unsigned k = (unsigned)atoi(n.c_str() + 1) - 1 + off + (x.e.isStatic ? 0 : 1);
		if (k >= x.c.args.size()) throw SpecErr{"no argument " + n};
		return x.c.args[k];
	}
	throw SpecErr{"unknown name '" + n + "'"};
}
// integer value of field f of object reg in state s
static Lin fieldVal(SpecCtx& x, State& s, int reg, const std::string& f) {
	std::string cls = x.E.dynClass(s, reg);
	if (cls.empty()) cls = s.ro(reg).cls;
	if (cls.empty() && x.e.ctor && x.post) { unsigned o = x.c.sret >= 0 ? 1 : 0; if (x.c.args[o].k == VPtr && x.c.args[o].reg == reg) cls = x.e.cls; }
	if (!x.E.classes.count(cls) || s.ro(reg).lazy) throw SpecErr{"object of unknown class for ." + f};
	auto& ci = x.E.classes.at(cls);
	if (cls == "Array" && f == "elem") {
		Lin dt = fieldVal(x, s, reg, "type");
		for (auto& l : s.links) if (s.P.entailsEq(l.dt - dt)) return l.es;
		Lin d = s.P.norm(dt);
		if (d.isConst() && x.E.dtSizeGV) { bool ok; AVal v = x.E.loadConst(s, x.E.dtSizeGV, (int64_t)d.c * 4, Type::getInt32Ty(x.E.M.getContext()), ok); if (ok && v.k == VInt) return v.e; }
		throw SpecErr{"element size unknown"};
	}
	const char* a = aliasField(cls, f);
	const Field* fd = nullptr;
	for (auto& y : ci.fields) if (y.name == (a ? a : f.c_str())) fd = &y;
	if (!fd && f == "value") for (auto& y : ci.fields) if (y.kind == "int" || y.kind == "flt" || y.kind == "bool" || y.kind == "enum") { fd = &y; break; }
	if (!fd) throw SpecErr{"class " + cls + " has no field " + f};
	AVal v;
	if (!x.E.fieldAt(s, reg, fd, v)) {
		// not tracked: any value of the field's type
		AVal nt = fd->kind == "flt" ? x.E.freshFlt(s, fd->bits, f) : AVal::Int(64, x.E.freshInt(s, fd->bits ? fd->bits : 8, f));
		x.E.markApprox(s, nt);
		return nt.e;
	}
	if (v.k == VInt || v.k == VFlt) {
		if (v.k == VInt && fd->kind == "int" && !fd->isSigned) return unsignedVal(x, s, v.e, fd->bits, f);
		return v.e;
	}
	if (v.k == VCond) { Lin l = x.E.freshRange(s, 0, 1, f); x.E.markApprox(s, l); return l; }
	throw SpecErr{"field " + f + " is no number"};
}
// element ix of a text, text builder or array of numbers
static Lin elementVal(SpecCtx& x, State& s, int reg, const Lin& ix, const std::string& what) {
	std::string cls = x.E.dynClass(s, reg);
	if (cls.empty()) cls = s.ro(reg).cls;
	if (!x.E.classes.count(cls) || s.ro(reg).lazy) throw SpecErr{"object of unknown class for " + what + "[]"};
	const char* fn = cls == "String" ? "characterData" : cls == "StringBuilder" ? "chunkChars" : cls == "Array" ? "data" : nullptr;
	if (!fn) throw SpecErr{"class " + cls + " has no elements"};
	int64_t w = 4; bool sgn = true;
	if (cls == "Array") {
		Lin es = s.P.norm(fieldVal(x, s, reg, "elem")), ty = s.P.norm(fieldVal(x, s, reg, "type"));
		if (!es.isConst() || !ty.isConst()) throw SpecErr{"element size unknown"};
		w = (int64_t)es.c;
		(void)sgn;
	}
	AVal p;
	for (auto& f : x.E.classes.at(cls).fields) if (f.name == fn) x.E.fieldAt(s, reg, &f, p);
	auto unknown = [&] { Lin l = x.E.freshInt(s, (int)w * 8, "element"); x.E.markApprox(s, l); return l; };
	if (p.k != VPtr || p.reg == 0 || !s.has(p.reg)) return unknown();
	Lin off = s.P.norm(p.e + ix * (Z)w);
	const Region& r = s.ro(p.reg);
	if (off.isConst()) {
		auto it = r.cells.find((int64_t)off.c);
		if (it != r.cells.end()) { if (it->second.w == w && (it->second.v.k == VInt || it->second.v.k == VFlt)) return it->second.v.e; if (it->second.w == w && it->second.v.k == VCond) for (int b = 1; b >= 0; --b) { State u = s; if (!x.E.assumeCond(u, it->second.v, b)) return Lin(!b); } return unknown(); }
	}
	for (auto& y : r.sym) if (y.w == w && s.P.entailsEq(y.off - off) && y.v.k == VInt) return y.v.e;
	if (x.E.zeroAt(s, p.reg, off, w)) return Lin(0);
	if (off.isConst() && r.kind == RGlobal && r.gv && (r.gv->isConstant() || !x.E.writtenGlobals.count(r.gv))) {
		bool good; AVal c = x.E.loadConst(s, r.gv, (int64_t)off.c, Type::getIntNTy(x.E.M.getContext(), (unsigned)w * 8), good);
		if (good && c.k == VInt) return c.e;
	}
	return unknown();
}
static Lin evalExpr(SpecCtx& x, State& s, const std::string& t, size_t& i);
static Lin evalPrim(SpecCtx& x, State& s, const std::string& t, size_t& i) {
	while (i < t.size() && t[i] == ' ') ++i;
	if (i >= t.size()) throw SpecErr{"expression ends early: " + t};
	if (t[i] == '(') { ++i; Lin r = evalExpr(x, s, t, i); while (i < t.size() && t[i] == ' ') ++i; if (i >= t.size() || t[i] != ')') throw SpecErr{"missing )"}; ++i; return r; }
	if (t[i] == '-') { ++i; return -evalPrim(x, s, t, i); }
	if (isdigit((unsigned char)t[i])) {
		size_t j = i; bool fl = false;
		while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.' || ((t[j] == 'e' || t[j] == 'E') && j > i) || ((t[j] == '+' || t[j] == '-') && (t[j - 1] == 'e' || t[j - 1] == 'E')))) { if (t[j] == '.' || t[j] == 'e' || t[j] == 'E') fl = true; ++j; }
		std::string n = t.substr(i, j - i); i = j;
		if (fl) return Lin(dblToOrd(atof(n.c_str())));
		Z v = 0; for (char c : n) v = v * 10 + (c - '0');
		return Lin(v);
	}
	if (t[i] == '%') {   // a free integer of the case, shared by its conditions
		size_t j = i + 1; while (j < t.size() && isalnum((unsigned char)t[j])) ++j;
		std::string n = t.substr(i, j - i); i = j;
		if (!x.free) throw SpecErr{"free name " + n};
		auto it = x.free->find(n);
		if (it != x.free->end()) return s.P.norm(it->second);
		if (x.post) throw SpecErr{"free name " + n + " first used after the call"};
		Lin l = x.E.freshRange(s, -((Z)1 << 63), ((Z)1 << 63) - 1, n);
		s.roots.push_back(AVal::Int(64, l)); (*x.free)[n] = l;
		return l;
	}
	size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '$' || t[j] == '_' || t[j] == '.' || t[j] == '\'')) ++j;
	std::string path = t.substr(i, j - i); i = j;
	if (path.empty()) throw SpecErr{"cannot read expression '" + t + "' at " + std::to_string(i)};
	auto parts = splitTop(path, '.');
	std::string root = parts[0]; bool after = false;
	if (!root.empty() && root.back() == '\'') { after = true; root.pop_back(); if (!x.post) throw SpecErr{"primed name before the call"}; }
	AVal v = rootVal(x, root);
	if (root == "ret") after = true;
	if (i < t.size() && t[i] == '[') {   // element of a text or an array
		++i; Lin ix = s.P.norm(evalExpr(x, s, t, i));
		while (i < t.size() && t[i] == ' ') ++i;
		if (i >= t.size() || t[i] != ']') throw SpecErr{"missing ]"};
		++i;
		if (parts.size() != 1 || v.k != VPtr || v.reg == 0) throw SpecErr{"'" + path + "': no object"};
		State preCopy; State* src = &s;
		if (x.post && !after) { preCopy = *x.pre; src = &preCopy; }
		return elementVal(x, *src, v.reg, ix, path);
	}
	if (parts.size() == 2 && parts[1] == "offset") { if (v.k != VPtr || v.reg == 0) throw SpecErr{"'" + path + "': no object"}; return v.e; }
	if (parts.size() == 1) {
		if (v.k == VInt) {
			const PInfo* pi = nullptr;
			if (root == "ret") pi = &x.e.ret;
			else if (root[0] == '$') { unsigned k = (unsigned)atoi(root.c_str() + 1) - (x.e.isStatic ? 1 : 0); if (k < x.e.params.size()) pi = &x.e.params[k]; }
			if (pi && pi->kind == "int" && !pi->sgn) return unsignedVal(x, s, v.e, pi->bits, root);
			return v.e;
		}
		if (v.k == VFlt) return v.e;
		if (v.k == VCond) {
			for (int b = 1; b >= 0; --b) { State u = s; if (!x.E.assumeCond(u, v, b)) return Lin(!b); }
			Lin l = x.E.freshRange(s, 0, 1, "bool"); x.E.markApprox(s, l);
			return l;
		}
		if (v.k == VPtr && (after || root[0] == '$') && s.has(v.reg)) {   // value behind a reference parameter
			auto it = s.ro(v.reg).cells.find(0);
			const State& src = after || !x.post ? s : *x.pre;
			auto jt = src.ro(v.reg).cells.find(0);
			(void)it;
			if (jt != src.ro(v.reg).cells.end() && (jt->second.v.k == VInt || jt->second.v.k == VFlt)) {
				unsigned k = root[0] == '$' ? (unsigned)atoi(root.c_str() + 1) - (x.e.isStatic ? 1 : 0) : 999;
				if (jt->second.v.k == VInt && k < x.e.params.size() && x.e.params[k].kind == "ref:int" && !x.e.params[k].sgn) return unsignedVal(x, s, jt->second.v.e, x.e.params[k].bits, root);
				return jt->second.v.e;
			}
		}
		throw SpecErr{"'" + path + "' is no number"};
	}
	if (parts[1] == "value" && (v.k == VInt || v.k == VFlt)) return v.e;   // a class of one number, passed in a register
	if (v.k != VPtr || v.reg == 0) throw SpecErr{"'" + path + "': no object"};
	State* src = &s; State preCopy;
	if (x.post && !after) {
		// the entry value: read from the entry state; its variables are still meaningful
		preCopy = *x.pre; src = &preCopy;
	}
	return fieldVal(x, *src, v.reg, parts[1]);
}
static Lin evalTerm(SpecCtx& x, State& s, const std::string& t, size_t& i) {
	Lin r = evalPrim(x, s, t, i);
	for (;;) { while (i < t.size() && t[i] == ' ') ++i; if (i < t.size() && t[i] == '*') { ++i; Lin q = evalPrim(x, s, t, i); r = linMul(s.P.norm(r), s.P.norm(q)); } else return r; }
}
static Lin evalExpr(SpecCtx& x, State& s, const std::string& t, size_t& i) {
	Lin r = evalTerm(x, s, t, i);
	for (;;) {
		while (i < t.size() && t[i] == ' ') ++i;
		if (i < t.size() && t[i] == '+') { ++i; r = r + evalTerm(x, s, t, i); }
		else if (i < t.size() && t[i] == '-') { ++i; r = r - evalTerm(x, s, t, i); }
		else return r;
	}
}
// the reference held by a path: a root, or a pointer field of an object
static AVal ptrPath(SpecCtx& x, State& s, const std::string& t) {
	auto parts = splitTop(t, '.');
	std::string root = parts[0]; bool after = root == "ret";
	if (!root.empty() && root.back() == '\'') { after = true; root.pop_back(); }
	AVal v = rootVal(x, root);
	if (parts.size() == 1) return v;
	if (v.k != VPtr || v.reg == 0) throw SpecErr{"'" + t + "': no object"};
	State copy; State* src = &s;
	if (x.post && !after) { copy = *x.pre; src = &copy; }
	std::string cls = x.E.dynClass(*src, v.reg);
	if (cls.empty()) cls = src->ro(v.reg).cls;
	if (!x.E.classes.count(cls) || src->ro(v.reg).lazy) throw SpecErr{"object of unknown class for " + t};
	for (auto& f : x.E.classes.at(cls).fields) if (f.name == parts[1]) { AVal r; if (x.E.fieldAt(*src, v.reg, &f, r)) return r; return AVal::Top(); }
	throw SpecErr{"class " + cls + " has no field " + parts[1]};
}
struct Atom { bool isPtr = false; bool isIn = false; std::string isa; std::string rel; Lin e; AVal a, b; bool isNullTest = false; bool isNan = false; Lin nan; };
static Atom evalAtom(SpecCtx& x, State& s, const std::string& t) {
	Atom r;
	size_t p;
	if ((p = t.find(" isa ")) != std::string::npos) { r.a = rootVal(x, trim(t.substr(0, p))); r.isa = trim(t.substr(p + 5)); return r; }
	if ((p = t.find(" in ")) != std::string::npos) { r.a = rootVal(x, trim(t.substr(0, p))); r.b = ptrPath(x, s, trim(t.substr(p + 4))); r.isIn = true; return r; }
	if ((p = t.find(" is ")) != std::string::npos) {
		std::string l = trim(t.substr(0, p)), q = trim(t.substr(p + 4));
		bool neg = false; if (q.rfind("not ", 0) == 0) { neg = true; q = q.substr(4); }
		if (q == "negzero" || q == "poszero") {
			if (neg) throw SpecErr{"'" + t + "' is not understood"};
			r.rel = "==";
			if (!x.post) { r.e = Lin(0); return r; }   // given to the call before
			AVal v = rootVal(x, l);
			if (v.k == VPtr && v.reg && s.has(v.reg)) { auto it = s.ro(v.reg).cells.find(0); if (it != s.ro(v.reg).cells.end()) v = it->second.v; }
			if (v.k != VFlt) throw SpecErr{"'" + l + "' is no number"};
			State u = s;
			bool zero = x.E.assumeEq(u, v.nan) && x.E.assumeEq(u, v.e);
			if (!zero || (v.zs && v.zs != (q == "negzero" ? 2 : 1))) { r.e = Lin(1); return r; }
			if (!v.zs || !s.P.entailsEq(v.nan)) throw SpecErr{"the sign of zero is not known: " + t};
			r.e = v.e;
			return r;
		}
		if (q == "nan") {
			r.rel = neg ? "!=" : "=="; r.isNan = true;
			auto ps = splitTop(l, '.');
			AVal v = rootVal(x, ps[0].back() == '\'' ? ps[0].substr(0, ps[0].size() - 1) : ps[0]);
			if (ps.size() == 2 && v.k == VPtr && v.reg) {
				State copy; State* src = &s; if (x.post && ps[0] != "ret" && ps[0].back() != '\'') { copy = *x.pre; src = &copy; }
				std::string cls = x.E.dynClass(*src, v.reg); if (cls.empty()) cls = src->ro(v.reg).cls;
				AVal fv;
				if (!x.E.classes.count(cls) || src->ro(v.reg).lazy) throw SpecErr{"object of unknown class for " + l};
				for (auto& y : x.E.classes.at(cls).fields) if (y.kind == "flt" && x.E.fieldAt(*src, v.reg, &y, fv)) v = fv;
			}
			if (v.k == VPtr && v.reg && ps.size() == 1) { State copy; State* src = &s; if (x.post && ps[0] != "ret" && ps[0].back() != '\'') { copy = *x.pre; src = &copy; } if (src->has(v.reg)) { auto it = src->ro(v.reg).cells.find(0); if (it != src->ro(v.reg).cells.end()) v = it->second.v; } }
			if (v.k != VFlt) throw SpecErr{"'" + l + "' is no number"};
			r.nan = v.nan;
			return r;
		}
		r.a = rootVal(x, l);
		r.rel = neg ? "!=" : "==";
		if (q == "null") { r.isNullTest = true; return r; }
		r.isPtr = true; r.b = ptrPath(x, s, q);
		return r;
	}
	for (const char* op : {"==", "!=", "<=", ">=", "<", ">"}) {
		p = t.find(op);
		if (p == std::string::npos) continue;
		std::string l = t.substr(0, p), q = t.substr(p + strlen(op));
		size_t i = 0, j = 0;
		Lin a = evalExpr(x, s, l, i), b = evalExpr(x, s, q, j);
		while (i < l.size() && l[i] == ' ') ++i;
		while (j < q.size() && q[j] == ' ') ++j;
		if (i != l.size() || j != q.size()) throw SpecErr{"cannot read '" + t + "'"};
		std::string o = op;
		if (o == "==") { r.rel = "=="; r.e = a - b; }
		else if (o == "!=") { r.rel = "!="; r.e = a - b; }
		else if (o == "<=") { r.rel = ">="; r.e = b - a; }
		else if (o == ">=") { r.rel = ">="; r.e = a - b; }
		else if (o == "<") { r.rel = ">="; r.e = b - a - Lin(1); }
		else { r.rel = ">="; r.e = a - b - Lin(1); }
		return r;
	}
	throw SpecErr{"cannot read '" + t + "'"};
}
static bool nullness(State& s, const AVal& v, int& st) { if (v.k != VPtr) return false; st = v.reg == 0 ? 1 : s.has(v.reg) ? s.ro(v.reg).nullState : 0; return true; }
static bool assumeAtom(SpecCtx& x, State& s, const std::string& t) {
	Atom a = evalAtom(x, s, t);
	if (!a.isa.empty()) return true;   // settled before
	if (a.isIn) return a.a.k == VPtr && a.b.k == VPtr && a.a.reg == a.b.reg && a.a.reg != 0;
	if (a.isNullTest) {
		int st; if (!nullness(s, a.a, st)) throw SpecErr{"'" + t + "': not a reference"};
		bool want = a.rel == "==";
		if (st == 2) { s.rw(a.a.reg).nullState = want ? 1 : 0; return true; }
		return want == (st == 1);
	}
	if (a.isNan) return a.rel == "==" ? x.E.assumeEq(s, a.nan - Lin(1)) : x.E.assumeEq(s, a.nan);
	if (a.isPtr) { bool same = a.a.k == VPtr && a.b.k == VPtr && a.a.reg == a.b.reg; return same == (a.rel == "=="); }
	if (a.rel == "==" && t.find('%') != std::string::npos) {   // what the call sees is expressed by the free names
		Lin e = s.P.norm(a.e); int best = -1;
		for (auto& m : e.t) { bool fr = false; for (auto& f : *x.free) for (auto& q : s.P.norm(f.second).t) if (q.first == m.first) fr = true; if (!fr && zabs(m.second) == 1) best = m.first; }
		s.P.addEq(e, best);
		return !s.P.bottom && x.E.assumeEq(s, a.e);
	}
	if (a.rel == "==") return x.E.assumeEq(s, a.e);
	if (a.rel == "!=") return x.E.assumeNe(s, a.e);
	return x.E.assumeGe(s, a.e);
}
static bool holdsAtom(SpecCtx& x, State& s, const std::string& t) {
	Atom a = evalAtom(x, s, t);
	if (!a.isa.empty()) { if (a.a.k != VPtr || a.a.reg == 0 || !s.has(a.a.reg)) return false; std::string k = x.E.dynClass(s, a.a.reg); return k == a.isa || x.E.isSubclass(k, a.isa); }
	if (a.isIn) return a.a.k == VPtr && a.b.k == VPtr && a.a.reg == a.b.reg && a.a.reg != 0;
	if (a.isNullTest) { int st; if (!nullness(s, a.a, st)) return false; return a.rel == "==" ? st == 1 : st == 0; }
	if (a.isNan) return s.P.entailsEq(a.rel == "==" ? a.nan - Lin(1) : a.nan);
	if (a.isPtr) { bool same = a.a.k == VPtr && a.b.k == VPtr && a.a.reg == a.b.reg && s.P.entailsEq(a.a.e - a.b.e); return same == (a.rel == "=="); }
	if (a.rel == "==") return s.P.entailsEq(a.e);
	if (a.rel == ">=") return s.P.entailsGe(a.e);
	State u = s;
	return !x.E.assumeEq(u, a.e);
}
// as holdsAtom; when it does not hold: the ways in which it fails, and whether that is certain
static bool violAtom(SpecCtx& x, State& s, const std::string& t, Alts& viol, bool& sure) {
	if (holdsAtom(x, s, t)) return true;
	Atom a = evalAtom(x, s, t);
	sure = true; viol.clear();
	auto known = [&](const AVal& v) { return v.k == VPtr && (v.reg == 0 || s.has(v.reg)); };
	if (!a.isa.empty() || a.isIn) { sure = known(a.a) && (a.isIn ? known(a.b) : !s.ro(a.a.reg ? a.a.reg : x.c.args[0].reg).lazy); if (!a.isIn && a.a.k == VPtr && a.a.reg == 0) sure = true; return false; }
	if (a.isNullTest) { int st; sure = nullness(s, a.a, st); return false; }
	if (a.isNan) { viol = a.rel == "==" ? Alts{{-a.nan}} : Alts{{a.nan - Lin(1)}}; return false; }
	if (a.isPtr) {
		if (!known(a.a) || !known(a.b)) { sure = false; return false; }
		if (a.rel == "==" && a.a.reg == a.b.reg) { Lin d = a.a.e - a.b.e; viol = {{d - Lin(1)}, {-d - Lin(1)}}; }
		if (a.rel == "!=" && a.a.reg == a.b.reg) { Lin d = a.a.e - a.b.e; viol = {{d, -d}}; }
		return false;
	}
	if (a.rel == "==") viol = {{a.e - Lin(1)}, {-a.e - Lin(1)}};
	else if (a.rel == "!=") viol = {{a.e, -a.e}};
	else viol = {{-a.e - Lin(1)}};
	return false;
}
// 'A | B': some alternative has to hold; the ways in which none does are collected
static bool violAny(SpecCtx& x, State& s, const std::string& t, Alts& viol, bool& sure) {
	auto parts = splitTop(t, '|');
	if (parts.size() == 1) return violAtom(x, s, t, viol, sure);
	struct Way { State s; std::vector<Lin> alt; };
	std::vector<Way> ways{{s, {}}};
	sure = true;
	for (auto& p : parts) {
		std::vector<Way> nx;
		for (auto& w : ways) {
			Alts v; bool sr = true;
			if (violAtom(x, w.s, p, v, sr)) continue;
			if (!sr) sure = false;
			if (v.empty()) { nx.push_back(w); continue; }
			for (auto& a : v) {
				Way n = w; bool live = true;
				for (auto& l : a) { n.alt.push_back(l); if (!x.E.assumeGe(n.s, l)) { live = false; break; } }
				if (live) nx.push_back(n);
			}
		}
		ways = nx;
	}
	viol.clear();
	bool always = false;
	for (auto& w : ways) { if (w.alt.empty()) always = true; viol.push_back(w.alt); }
	if (always) viol.clear();
	return ways.empty();
}
static std::string excClass(const std::string& ti) {
	std::string d = demangle(ti); auto p = d.find("typeinfo for "); if (p != std::string::npos) d = d.substr(p + 13);
	while (!d.empty() && (d.back() == '*' || d.back() == ' ')) d.pop_back();
	auto q = d.rfind("::"); return q == std::string::npos ? d : d.substr(q + 2);
}
// rules every outcome has to satisfy, whatever the specification
static void checkOutcome(Engine& E, const Entry& e, const Config& c, Outcome& o) {
	auto* at = &*e.F->getEntryBlock().begin();
	for (auto& b : *e.F) for (auto& i : b) if (isa<ReturnInst>(&i)) at = &i;
	auto inv = [&](int reg, const std::string& cls, const std::string& what) {
		std::vector<InvRes> res;
		E.checkInvariant(o.s, reg, cls, res);
		for (auto& r : res) { std::string rule = "invariant:" + cls; if (r.ok) E.ok(rule, at); else { if (E.trace) { fprintf(stderr, "INVARIANT %s %s\n", cls.c_str(), r.m.c_str()); for (auto& c : o.s.ro(reg).cells) fprintf(stderr, "   +%ld w%ld %s\n", (long)c.first, (long)c.second.w, avalStr(c.second.v).c_str()); fprintf(stderr, "%s\n", o.s.P.str().c_str()); } std::string msg = what + ": " + r.m + (o.thrown ? " (after an exception)" : ""); if (E.confirm) E.sureAlarm(rule, at, msg, r.viol); else E.alarm(rule, at, msg); } }
	};
	auto clsOf = [&](int reg) { std::string k = E.dynClass(o.s, reg); if (k.empty()) k = o.s.ro(reg).cls; return k; };
	std::set<int> done;
	bool first = true;
	for (auto& a : c.args) {
		bool isThis = first && !e.isStatic; first = false;
		if (a.k != VPtr || a.reg == 0 || !o.s.has(a.reg) || a.reg == c.sret || !done.insert(a.reg).second) continue;
		const Region& r = o.s.ro(a.reg);
		if (r.nullState == 1 || r.lazy) continue;
		if (isThis && e.ctor) { if (!o.thrown) inv(a.reg, e.cls, "object under construction"); continue; }
		if (isThis && !e.name.empty() && e.name[0] == '~') continue;
		inv(a.reg, clsOf(a.reg), r.role);
		if (o.thrown && !e.ctor) {
			bool dirty = r.dirty;
			for (auto& cl : r.cells) if (cl.second.v.k == VPtr && o.s.has(cl.second.v.reg) && o.s.ro(cl.second.v.reg).entry && o.s.ro(cl.second.v.reg).kind != RGlobal && o.s.ro(cl.second.v.reg).dirty) dirty = true;
			bool isOut = false; for (auto& op : c.outParams) if (op.first == a.reg) isOut = true;
			if (!isOut) { if (dirty) E.alarm("atomic", at, "an operation that reports an error has already changed its argument [" + r.role + "]", &o.s); else E.ok("atomic", at); }
		}
	}
	if (o.thrown) {
		std::string x = excClass(o.exc);
		if (x != "Exception" && !E.isSubclass(x, "Exception")) E.alarm("throwtype", at, "something other than a library exception is thrown [" + x + "]", &o.s); else E.ok("throwtype", at);
		return;
	}
	for (auto& op : c.outParams) {
		auto& cells = o.s.ro(op.first).cells;
		auto it = cells.find(0);
		if (it == cells.end() || it->second.v.k == VUndef) E.alarm("outparam", at, "returns without setting output parameter " + op.second, o.s.ro(op.first).fuzz.empty() && o.s.ro(op.first).sym.empty() && o.s.ro(op.first).zero.empty() ? &o.s : nullptr); else E.ok("outparam", at);
	}
	if (c.sret >= 0) {
		const Region& r = o.s.ro(c.sret);
		if (r.deflt == DUndef && r.cells.empty()) E.alarm("uninit", at, "result object is never set", r.fuzz.empty() && r.sym.empty() && r.zero.empty() ? &o.s : nullptr); else E.ok("uninit", at);
	}
	if (o.v.k == VPtr && o.v.reg != 0 && o.s.has(o.v.reg) && !done.count(o.v.reg)) {
		if (o.s.ro(o.v.reg).freed) E.alarm("uaf", at, "returns released memory", &o.s);
		else inv(o.v.reg, clsOf(o.v.reg), "result");
	}
}
// Every level over-approximates the behaviour, so whatever one of them shows to be right is right.  A configuration is analysed at rising
// precision until nothing is left to report, and coarser when the time runs out; what remains reported is what every completed level reports.
static int g_onlyLevel = -1;
template <class Body> static bool escalate(Engine& E, double budget, std::string& why, Body body) {
	typedef std::map<std::string, Alarm> AM;
	AM before = E.alarms; auto obl0 = E.obl;
	bool have = false; AM best; auto bestObl = obl0;
	bool partial = false; AM part;
	auto T0 = std::chrono::steady_clock::now();
	auto left = [&] { return budget * 0.6 - std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
	std::vector<int> plan = {1, 2, 3, 0};
	if (g_onlyLevel >= 0) plan = {g_onlyLevel};
	if (g_onlyLevel >= 4) plan = {};
	bool timedOut = false;
	std::string why1;
	for (size_t i = 0; i < plan.size(); ++i) {
		int lv = plan[i];
		if (lv == 0 && have) continue;
		if (lv > 1 && timedOut) continue;
		double l = left();
		if (i && l < 0.2) break;
		E.level = lv; E.alarms.clear(); E.obl = obl0; E.stack.clear(); E.mute = 0;
		E.startEntry(E.entryName);
		E.timeLimit = lv == 0 ? l : std::max(0.2, l * 0.4);
		bool done = false, clean = true;
		try { clean = body(lv); done = true; }
		catch (GiveUp& g) { why1 = g.why; timedOut = true; }
		catch (Ovf&) { why1 = "arithmetic overflow inside the analysis"; }
		E.mute = 0;
		AM got = E.alarms;
		auto meet = [&](AM& into, bool first) { if (first) { into = got; return; } AM r; for (auto& kv : into) if (got.count(kv.first)) r.insert(kv); into = r; };
		if (done) {
			bool less = !have || got.size() < best.size();
			if (less) bestObl = E.obl;
			meet(best, !have); have = true;
			if (best.empty() && clean) break;
		} else { meet(part, !partial); partial = true; }
	}
	AM res = have ? best : part;
	// what could not be shown to hold: look for a certain violation among states that are never joined
	bool confirmOnly = g_onlyLevel >= 4;
	if (!have || !res.empty() || confirmOnly || E.wantConfirm) {
		auto obl1 = E.obl;
		for (int lv = 4; lv <= 5; ++lv) {
			if (g_onlyLevel >= 4 && lv != g_onlyLevel) continue;
			E.wantConfirm = false;
			E.confirm = true; keepVars = true; E.level = 3; E.cap = lv == 4 ? 12 : 48; E.loopCap = lv == 4 ? 3 : 5;
			E.alarms.clear(); E.stack.clear(); E.mute = 0;
			E.startEntry(E.entryName);
			E.timeLimit = g_onlyLevel >= 4 ? 600 : std::max(0.5, budget * (lv == 4 ? 0.15 : 0.3));
			std::string end = "done";
			try { body(lv); } catch (GiveUp& g) { end = g.why; } catch (Ovf&) { end = "overflow"; }
			E.confirm = false; keepVars = false; E.mute = 0;
			if (E.trace) fprintf(stderr, "CONFIRM level %d: %s\n", lv, end.c_str());
			bool any = false;
			for (auto& kv : E.alarms) if (kv.second.sure) { any = true; auto& a = res[kv.first]; bool was = a.sure; if (!was) a = kv.second; }
			if (any || E.sureSpec) break;
		}
		E.sureSpec = false;
		E.obl = obl1;
	}
	for (auto& kv : res) { auto it = before.find(kv.first); if (it == before.end()) before.insert(kv); else if (kv.second.sure && !it->second.sure) it->second = kv.second; }
	E.alarms = before; E.obl = have ? bestObl : obl0;
	E.stack.clear();
	if (!have) why = why1;
	return have;
}

void dumpFacts(llvm::Module& M);
int main(int argc, char** argv) {
	if (argc < 3) { fprintf(stderr, "usage: absint module.bc --list | --run [--trace] fn...\n"); return 2; }
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("absint", errs()); return 2; }
	std::string mode = argv[2];
	if (mode == "--facts") { dumpFacts(*M); return 0; }
	if (mode == "--list") {
		for (auto& F : *M) {
			Entry e; if (!mkEntry(F, e)) continue;
			std::string ps;
			for (auto& p : e.params) ps += (ps.empty() ? "" : ",") + std::string("{\"kind\":") + js(p.kind) + ",\"cls\":" + js(p.cls) + ",\"name\":" + js(p.name) + ",\"bits\":" + std::to_string(p.bits) + ",\"sgn\":" + (p.sgn ? "true" : "false") + "}";
			auto* sp = F.getSubprogram();
			printf("{\"fn\":%s,\"sig\":%s,\"cls\":%s,\"name\":%s,\"public\":%s,\"static\":%s,\"ctor\":%s,\"file\":%s,\"line\":%u,\"ret\":%s,\"retcls\":%s,\"params\":[%s]}\n", js(F.getName().str()).c_str(), js(e.sig).c_str(), js(e.cls).c_str(), js(e.name).c_str(), e.pub ? "true" : "false", e.isStatic ? "true" : "false", e.ctor ? "true" : "false", js(sp->getFilename().str()).c_str(), sp->getLine(), js(e.ret.kind).c_str(), js(e.ret.cls).c_str(), ps.c_str());
		}
		return 0;
	}
	Engine E(*M);
	double tl = 60;
	std::vector<std::string> fns;
	std::vector<SpecFn> specs; std::string specFile; int onlyConfig = -1, onlyLevel = -1, onlyLine = 0;
	for (int i = 3; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--trace") { E.trace = true; continue; }
		if (a.rfind("--time=", 0) == 0) { tl = atof(a.c_str() + 7); continue; }
		if (a.rfind("--config=", 0) == 0) { onlyConfig = atoi(a.c_str() + 9); continue; }
		if (a.rfind("--level=", 0) == 0) { g_onlyLevel = onlyLevel = atoi(a.c_str() + 8); continue; }
		if (a.rfind("--line=", 0) == 0) { onlyLine = atoi(a.c_str() + 7); continue; }
		if (a.rfind("--spec=", 0) == 0) { specFile = a.substr(7); try { specs = readSpec(specFile); } catch (SpecErr& x) { fprintf(stderr, "%s\n", x.why.c_str()); return 2; } continue; }
		if (a == "-") { std::string l; while (std::getline(std::cin, l)) if (!l.empty()) fns.push_back(l); continue; }
		fns.push_back(a);
	}
	for (auto& kv : E.initAlarms) { auto& a = kv.second; printf("{\"entry\":\"<init>\",\"alarm\":%s,\"fn\":%s,\"file\":%s,\"line\":%d,\"msg\":%s}\n", js(a.rule).c_str(), js(a.fn).c_str(), js(a.file).c_str(), a.line, js(a.msg).c_str()); }
	double spentInit = 0; (void)spentInit;
	auto finish = [&](const std::string& f, const std::string& sig, const std::string& status, const std::string& why, double dt, size_t ncfg, size_t nout, size_t nthrow, const std::string& extra) {
		std::map<std::string, std::pair<long, long>> byRule;
		for (auto& kv : E.obl) { auto& r = byRule[kv.first.second]; r.second++; if (!kv.second.second) r.first++; }
		std::string al, ru;
		for (auto& kv : E.alarms) { auto& a = kv.second; al += (al.empty() ? "" : ",") + std::string("{\"rule\":") + js(a.rule) + ",\"fn\":" + js(a.fn) + ",\"file\":" + js(a.file) + ",\"line\":" + std::to_string(a.line) + ",\"msg\":" + js(a.msg) + ",\"stack\":" + js(a.stack) + ",\"sure\":" + (a.sure ? "true" : "false") + ",\"example\":" + js(a.example) + "}"; }
		for (auto& kv : byRule) ru += (ru.empty() ? "" : ",") + js(kv.first) + ":[" + std::to_string(kv.second.first) + "," + std::to_string(kv.second.second) + "]";
		std::string rf; for (auto* r : E.reached) rf += (rf.empty() ? "" : ",") + js(r->getName().str());
		printf("{\"entry\":%s,\"sig\":%s,\"status\":%s,\"why\":%s,\"time\":%.2f,\"steps\":%ld,\"configs\":%zu,\"normal\":%zu,\"thrown\":%zu,\"rules\":{%s},\"alarms\":[%s],\"reached\":[%s]%s}\n", js(f).c_str(), js(sig).c_str(), js(status).c_str(), js(why).c_str(), dt, E.steps, ncfg, nout, nthrow, ru.c_str(), al.c_str(), rf.c_str(), extra.c_str());
		fflush(stdout);
	};
	if (!specFile.empty()) {
		std::map<std::string, const Function*> bySig;
		for (auto& F : *M) { Entry e; if (!mkEntry(F, e)) continue; std::string n = F.getName().str(); if (n.find("C1E") != std::string::npos && M->getFunction(n.substr(0, n.find("C1E")) + "C2E" + n.substr(n.find("C1E") + 3)) && !F.isDeclaration()) { } bySig[shortSig(e.sig)] = &F; }
		if (mode == "--spec-list") { for (auto& sf : specs) printf("%s\n", sf.sig.c_str()); return 0; }
		for (auto& sf : specs) {
			if (!fns.empty() && std::find(fns.begin(), fns.end(), sf.sig) == fns.end()) continue;
			auto it = bySig.find(sf.sig.substr(0, sf.sig.find('#')));
			if (it == bySig.end()) { printf("{\"entry\":%s,\"sig\":%s,\"status\":\"missing\",\"why\":\"function not found\",\"alarms\":[],\"rules\":{},\"reached\":[],\"time\":0}\n", js(sf.sig).c_str(), js(sf.sig).c_str()); continue; }
			Entry e; mkEntry(*it->second, e);
			E.alarms.clear(); E.obl.clear(); E.reached.clear();
E.checkingSpec = true; 			E.startEntry(e.sig);
			E.timeLimit = tl;
			std::string status = "ok", why;
			size_t ncfg = 0, nout = 0, nthrow = 0;
			auto T0 = std::chrono::steady_clock::now();
			std::map<std::string, Alarm> specAl;
			long total = 0, failed = 0;
			std::string caseInfo;
			try {
				std::vector<Config> cs;
				buildConfigs(E, e, cs);
				// the receiver and objects passed by reference are there: what they hold has names before the call
				for (size_t k = 0; k < e.F->arg_size(); k++) {
					std::vector<Config> nx;
					for (auto& y : cs) {
						AVal v = y.args[k];
						if (v.k != VPtr || v.reg == 0 || !y.s.has(v.reg) || !y.s.ro(v.reg).lazy || y.s.ro(v.reg).nullState != 0 || y.s.ro(v.reg).cls.empty()) { nx.push_back(y); continue; }
						if (E.concreteSubclasses(y.s.ro(v.reg).cls).size() > 3) { nx.push_back(y); continue; }
						for (auto& t : E.materialize(y.s, v.reg)) { Config w = y; w.s = t; nx.push_back(w); }
					}
					cs = nx;
				}
				for (auto& ks : sf.cases) {
					if (onlyLine && ks.line != onlyLine) continue;
					int used = 0; bool caseBad = false;
					int ci = -1;
					// '$n isa Class' fixes what kind of object an argument is
					std::vector<Config> csk;
					for (auto& c0 : cs) {
						std::vector<Config> cur{c0};
						for (auto& p : ks.pre) {
							size_t q = p.find(" isa ");
							if (q == std::string::npos) continue;
							std::string want = trim(p.substr(q + 5));
							std::vector<Config> nx;
							for (auto& y : cur) {
								SpecCtx x{E, y, e, nullptr, AVal(), false};
								AVal v = rootVal(x, trim(p.substr(0, q)));
								if (v.k != VPtr || v.reg == 0 || !y.s.has(v.reg) || y.s.ro(v.reg).nullState == 1) continue;
								if (!y.s.ro(v.reg).lazy) { std::string k = E.dynClass(y.s, v.reg); if (k == want || E.isSubclass(k, want)) nx.push_back(y); continue; }
								if (!E.classes.count(want)) throw SpecErr{"no class " + want};
								Config z = y; z.s.rw(v.reg).nullState = 0;
								auto subs = E.concreteSubclasses(want); if (subs.empty()) subs.push_back(want);
								for (auto& k : subs) if (k == z.s.ro(v.reg).cls || E.isSubclass(k, z.s.ro(v.reg).cls)) for (auto& t : E.materializeAs(z.s, v.reg, k)) { Config w = z; w.s = t; nx.push_back(w); }
							}
							cur = nx;
						}
						for (auto& y : cur) csk.push_back(y);
					}
					// '$n is negzero' fixes a number
					for (auto& y : csk) for (auto& p : ks.pre) {
						bool ng = p.find(" is negzero") != std::string::npos;
						if (!ng && p.find(" is poszero") == std::string::npos) continue;
						std::string l = trim(p.substr(0, p.find(" is ")));
						bool field = l.size() > 6 && l.substr(l.size() - 6) == ".value";
						if (field) l = l.substr(0, l.size() - 6);
						unsigned off = y.sret < 0 ? 0 : 1;
						size_t k = l == "this" ? 0 : (size_t)(atoi(l.c_str() + 1) - (e.isStatic ? 1 : 0));
						if (k + off >= y.args.size()) throw SpecErr{"no argument " + l};
						AVal* v = &y.args[k + off];
						if (field) {
							if (v->k != VPtr || !v->reg || !y.s.has(v->reg)) throw SpecErr{"no object " + l};
							AVal* f = nullptr;
							for (auto& c : y.s.rw(v->reg).cells) if (c.second.v.k == VFlt) f = &c.second.v;
							if (!f) throw SpecErr{"no number in " + l};
							v = f;
						}
						if (v->k != VFlt) throw SpecErr{"'" + l + "' is no number"};
						*v = AVal::Flt(v->bits, Lin(0), Lin(0)); v->zs = ng ? 2 : 1;
					}
					// integers of an unsigned type are kept in their signed reading: low and high half apart
					{
						std::vector<Config> cur = csk;
						auto halves = [&](std::vector<Config>& in, const std::function<bool(Config&, Lin&)>& get) {
							std::vector<Config> nx;
							for (auto& y : in) {
								Lin l;
								if (!get(y, l) || y.s.P.entailsGe(l) || y.s.P.entailsGe(-l - Lin(1)) || nx.size() > 200) { nx.push_back(y); continue; }
								Config lo = y, hi = y;
								if (E.assumeGe(lo.s, l)) nx.push_back(lo);
								if (E.assumeGe(hi.s, -l - Lin(1))) nx.push_back(hi);
							}
							in = nx;
						};
						unsigned off = (cs.empty() || cs[0].sret < 0) ? 0 : 1;
						for (size_t k = 0; k < e.params.size(); k++) {
							const std::string pn = "$" + std::to_string(k + (e.isStatic ? 1 : 0));
							if (e.params[k].kind == "int" && !e.params[k].sgn && e.params[k].bits && e.params[k].bits <= 64 && ks.readsWhole(pn))
								halves(cur, [&](Config& y, Lin& l) { AVal v = y.args[k + off]; if (v.k != VInt) return false; l = v.e; return true; });
							std::set<std::string> names;
							for (auto& y : cur) { AVal ar = y.args[k + off]; if (ar.k != VPtr || !ar.reg || !y.s.has(ar.reg) || y.s.ro(ar.reg).lazy) continue; std::string c = E.dynClass(y.s, ar.reg); if (c.empty()) c = y.s.ro(ar.reg).cls; if (E.classes.count(c)) for (auto& fd : E.classes.at(c).fields) if (fd.kind == "int" && !fd.isSigned) names.insert(fd.name); }
							for (auto& fn : names) halves(cur, [&](Config& y, Lin& l) {
								AVal ar = y.args[k + off];
								if (ar.k != VPtr || !ar.reg || !y.s.has(ar.reg) || y.s.ro(ar.reg).lazy) return false;
								std::string c = E.dynClass(y.s, ar.reg); if (c.empty()) c = y.s.ro(ar.reg).cls;
								if (!E.classes.count(c)) return false;
								for (auto& fd : E.classes.at(c).fields) { AVal v; if (fd.name == fn && fd.kind == "int" && !fd.isSigned && E.fieldAt(y.s, ar.reg, &fd, v) && v.k == VInt) { l = v.e; return true; } }
								return false;
							});
						}
						csk = cur;
					}
					for (size_t ck = 0; ck < csk.size(); ck++) {
						++ci;
						if (onlyConfig >= 0 && ci != onlyConfig) continue;
						Config c = csk[ck];
						UMap um; std::map<std::string, Lin> freeNames;
						SpecCtx x{E, c, e, nullptr, AVal(), false, false, &um, &freeNames};
						bool live = true;
						try { for (auto& p : ks.pre) if (!assumeAtom(x, c.s, p)) { live = false; break; } }
						catch (SpecErr& er) { if (er.why.find("object of unknown class") != std::string::npos || er.why.find("no object") != std::string::npos) live = false; else throw; }
						if (!live || c.s.P.bottom) continue;
						// a number that is zero is one of two
						auto openZero = [&](const AVal& v) { return v.k == VFlt && !v.zs && c.s.P.entailsEq(v.e) && c.s.P.entailsEq(v.nan); };
						bool forked = false;
						for (size_t k = 0; k < c.args.size() && !forked && csk.size() < 64; k++) {
							auto fork = [&](const std::function<void(Config&, const AVal&)>& set) { forked = true; for (int sg = 1; sg <= 2; sg++) { Config w = csk[ck]; AVal z = AVal::Flt(c.args[k].k == VFlt ? c.args[k].bits : 64, Lin(0), Lin(0)); z.zs = sg; set(w, z); csk.push_back(w); } };
							if (openZero(c.args[k])) { fork([&](Config& w, const AVal& z) { w.args[k] = z; }); break; }
							if (c.args[k].k != VPtr || !c.args[k].reg || !c.s.has(c.args[k].reg) || c.s.ro(c.args[k].reg).lazy || !csk[ck].s.has(c.args[k].reg)) continue;
							for (auto& cl : c.s.ro(c.args[k].reg).cells) if (openZero(cl.second.v)) {
								auto& own = csk[ck].s.ro(c.args[k].reg).cells;
								if (!own.count(cl.first) || own.at(cl.first).v.k != VFlt) continue;
								int bits = cl.second.v.bits;
								fork([&](Config& w, const AVal& z) { AVal y = z; y.bits = bits; w.s.rw(c.args[k].reg).cells[cl.first].v = y; });
								break;
							}
						}
						if (forked) continue;
						++used; ++ncfg;
						State pre = c.s;
						// what the objects held before the call stays known
						for (auto& ar : c.args) if (ar.k == VPtr && ar.reg && c.s.has(ar.reg) && !c.s.ro(ar.reg).lazy)
							for (auto& cl : c.s.ro(ar.reg).cells) if (cl.second.v.k == VInt || cl.second.v.k == VFlt) { if (!c.s.P.norm(cl.second.v.e).isConst() && c.s.roots.size() < 60) c.s.roots.push_back(cl.second.v); }
						double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
						std::map<std::string, Alarm> cfgAl, sureAl; bool haveCfg = false;
						E.wantConfirm = false; E.sureSpec = false;
						size_t n1 = 0, t1 = 0; long tot1 = 0;
						std::string w;
						bool good = escalate(E, std::max(0.5, (tl - spent) / 2), w, [&](int lv) {
						std::map<std::string, Alarm> specAl;
						long total = 0, failed = 0; size_t nout = 0, nthrow = 0;
						auto outs = E.callFunction(c.s, e.F, c.args, nullptr);
						size_t live2 = 0;
						auto* at = &*e.F->getEntryBlock().begin();
						const State* curS = nullptr;
						auto bad = [&](const std::string& m, const Alts* viol = nullptr, bool canSure = true) {
							std::string ex;
							if (E.confirm) { if (!canSure || !curS || !E.witness(*curS, viol ? *viol : Alts{}, ex)) return; E.sureSpec = true; }
							int line; std::string file, fn; E.where(at, &line, &file, &fn);
							std::string key = std::to_string(ks.line) + "|" + m;
							Alarm& a = specAl[key]; a.rule = "spec"; a.fn = fn; a.file = file; a.line = e.F->getSubprogram()->getLine();
							a.msg = m + " [" + ks.text + "]" + (c.name.empty() ? "" : " when " + c.name);
							if (E.confirm) { a.sure = true; a.example = ex; sureAl[key] = a; }
						};
						std::vector<Outcome> outs2;
						for (auto& o : outs) {
							if (o.s.P.bottom || (E.confirm && o.s.lossy)) continue;
							if (!o.thrown && o.v.k == VCond) { for (int b = 1; b >= 0; --b) { Outcome o2 = o; if (E.assumeCond(o2.s, o.v, b)) { o2.v = AVal::Int(o.v.bits, Lin(b)); outs2.push_back(o2); } } }
							else if (!o.thrown && o.v.k == VInt && e.ret.kind == "int" && !e.ret.sgn) {
								if (o.s.P.entailsGe(o.v.e) || o.s.P.entailsGe(-o.v.e - Lin(1))) { outs2.push_back(o); continue; }
								for (int b = 1; b >= 0; --b) { Outcome o2 = o; if (E.assumeGe(o2.s, b ? o.v.e : -o.v.e - Lin(1))) outs2.push_back(o2); }
							}
							else outs2.push_back(o);
						}
						for (auto& o : outs2) {
							if (E.confirm && o.s.lossy) continue;
							curS = &o.s;
							if (o.s.P.bottom) continue;
							++live2;
							(o.thrown ? nthrow : nout)++;
							if (E.trace) fprintf(stderr, "SPEC OUTCOME cfg %d thrown=%d %s v=%s\n%s\n", ci, o.thrown, o.exc.c_str(), avalStr(o.v).c_str(), o.s.P.str().c_str());
							SpecCtx y{E, c, e, &pre, o.v, true, o.thrown, &um, &freeNames};
							for (auto& q : ks.post) {
								++total;
								if (q == "returns") { if (o.thrown) { ++failed; bad("may report " + excClass(o.exc) + " where it has to succeed"); } }
								else if (q.rfind("throws", 0) == 0 || q.rfind("may-throw", 0) == 0) {   // alternatives separated by /
									bool may = q[0] == 'm';
									std::string want = trim(q.substr(may ? 9 : 6));
									bool fits = want.empty();
									if (o.thrown) for (auto& w0 : splitTop(want, '/')) {   // !Class: and not that class
										bool no = w0[0] == '!'; std::string w = no ? w0.substr(1) : w0;
										if (excClass(o.exc) == w || E.isSubclass(excClass(o.exc), w)) { if (no) { fits = false; break; } fits = true; }
									}
									if (!o.thrown) { if (!may) { ++failed; bad("may return normally where it has to report " + (want.empty() ? std::string("an error") : want)); } }
									else if (!fits) { ++failed; bad("may report " + excClass(o.exc) + (may ? " where it can only report " : " where it has to report ") + want); }
								} else {
									if (o.thrown) continue;
									bool h = false, canSure = false; Alts viol;
									try { h = violAny(y, o.s, q, viol, canSure); } catch (SpecErr& er) { if (strict && er.why.find("no object") == std::string::npos && er.why.find("is no number") == std::string::npos && er.why.find("unknown class") == std::string::npos) throw; h = canSure = false; }
									if (!h && E.trace) { fprintf(stderr, "SPECFAIL %s\n", q.c_str()); for (auto& ar : c.args) if (ar.k == VPtr && ar.reg && o.s.has(ar.reg)) { fprintf(stderr, " arg R%d\n", ar.reg); for (auto& cl : o.s.ro(ar.reg).cells) fprintf(stderr, "   +%ld w%ld %s\n", (long)cl.first, (long)cl.second.w, avalStr(cl.second.v).c_str()); } }
									if (!h) { ++failed; bad("result may violate '" + q + "'", &viol, canSure); }
								}
							}
						}
						if (!live2 && !E.confirm) { ++total; bool never = false; for (auto& q : ks.post) if (q == "diverges") never = true; if (!never) { ++failed; bad("does not complete" + std::string(!E.alarms.empty() ? " without breaking a memory rule" : "")); } }
						n1 = nout; t1 = nthrow; tot1 = total;
						if (E.confirm) { E.alarms.clear(); return sureAl.empty(); }
						if (!haveCfg) cfgAl = specAl; else { std::map<std::string, Alarm> r; for (auto& kv : cfgAl) if (specAl.count(kv.first)) r.insert(kv); cfgAl = r; }
						haveCfg = true;
						E.alarms.clear();
						E.wantConfirm = !cfgAl.empty();
						return cfgAl.empty();
						});
						for (auto& kv : sureAl) cfgAl[kv.first] = kv.second;
						if (!good) { status = "giveup"; why = w; }
						nout += n1; nthrow += t1; total += tot1; failed += cfgAl.size();
						if (!cfgAl.empty()) caseBad = true;
						for (auto& kv : cfgAl) specAl.insert(kv);
					}
					if (!used) { status = strict ? "broken" : "giveup"; why = "case never applies: " + ks.text; }
					caseInfo += (caseInfo.empty() ? "" : ",") + std::string("{\"case\":") + js(ks.text) + ",\"line\":" + std::to_string(ks.line) + ",\"configs\":" + std::to_string(used) + ",\"held\":" + (caseBad ? "false" : "true") + "}";
				}
			} catch (GiveUp& g) { status = "giveup"; why = g.why; }
			catch (Ovf&) { status = "giveup"; why = "arithmetic overflow inside the analysis"; }
			catch (SpecErr& x) { status = "broken"; why = x.why; }
			E.mute = 0;
			E.alarms = specAl;
			double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
			finish(sf.sig, e.sig, status, why, dt, ncfg, nout, nthrow, ",\"cases\":[" + caseInfo + "],\"checks\":" + std::to_string(total) + ",\"failed\":" + std::to_string(failed));
		}
		return 0;
	}
	for (auto& f : fns) {
		auto* F = M->getFunction(f);
		Entry e;
		if (!F || !mkEntry(*F, e)) { printf("{\"entry\":%s,\"status\":\"missing\"}\n", js(f).c_str()); continue; }
		E.alarms.clear(); E.obl.clear(); E.reached.clear();
		std::string status = "ok", why;
		size_t nout = 0, nthrow = 0, ncfg = 0;
		auto T0 = std::chrono::steady_clock::now();
		E.timeLimit = tl;
		E.startEntry(e.sig);
		try {
			std::vector<Config> cs;
			buildConfigs(E, e, cs);
			ncfg = cs.size();
			int ci = -1;
			for (auto& c : cs) {
				++ci;
				if (onlyConfig >= 0 && ci != onlyConfig) continue;
				double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
				size_t n1 = 0, t1 = 0;
				std::string w;
				bool good = escalate(E, std::max(0.5, (tl - spent) / 2), w, [&](int lv) {
					if (E.trace) fprintf(stderr, "CONFIG %d level %d %s\n", ci, lv, c.name.c_str());
					n1 = t1 = 0;
					auto outs = E.callFunction(c.s, F, c.args, nullptr);
					E.stack.push_back({F, nullptr});
					for (auto& o : outs) {
						if (o.s.P.bottom) continue;
						(o.thrown ? t1 : n1)++;
						if (E.trace) fprintf(stderr, "OUTCOME thrown=%d %s v=%s\n", o.thrown, o.exc.c_str(), avalStr(o.v).c_str());
						checkOutcome(E, e, c, o);
					}
					E.stack.clear();
					return true;
				});
				nout += n1; nthrow += t1;
				if (!good) { status = "giveup"; why = w; }
			}
		} catch (GiveUp& g) { status = "giveup"; why = g.why; }
		catch (Ovf&) { status = "giveup"; why = "arithmetic overflow inside the analysis"; }
		E.mute = 0;
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
		finish(f, e.sig, status, why, dt, ncfg, nout, nthrow, "");
	}
	return 0;
}
