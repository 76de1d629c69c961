#include "engine.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include <cmath>
#include <cstring>
using namespace llvm;
static const Z P31 = (Z)1 << 31, P63 = (Z)1 << 63;
static Z pow2(int n) { return (Z)1 << n; }

std::string demangle(const std::string& s) { return llvm::demangle(s); }
double ordToDbl(Z o) {
	int64_t b = o >= 0 ? (int64_t)o : (int64_t)(-o) | INT64_MIN;
	double d; memcpy(&d, &b, 8);
	return d;
}
Z dblToOrd(double d) {
	int64_t b; memcpy(&b, &d, 8);
	if (b >= 0) return b;
	return -(Z)(b & INT64_MAX);
}
static const Z ORD_INF = 0x7ff0000000000000LL;

Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) {
	loadClasses();
	initGlobals();
}
void Engine::tick() {
	if (++steps > stepLimit) throw GiveUp{"step limit"};
	if ((steps & 63) == 0) {
		double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (t > timeLimit) throw GiveUp{"time limit"};
	}
}
void Engine::startEntry(const std::string& n) { entryName = n; steps = 0; t0 = std::chrono::steady_clock::now(); mute = 0; stack.clear(); exactText = n.rfind("Laws::", 0) == 0; allocModel = n.rfind("Pool::", 0) == 0 ? 0 : 1; mallocFails = !checkingSpec && n.rfind("Pool::Granted", 0) != 0; }

// ------------------------------------------------------------------ debug-info classes
static const DIType* strip(const DIType* t, bool* isPtr = nullptr) {
	while (t) {
		if (auto* d = dyn_cast<DIDerivedType>(t)) {
			auto tag = d->getTag();
			if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type) { t = d->getBaseType(); continue; }
		}
		break;
	}
	return t;
}
void Engine::loadClasses() {
	DebugInfoFinder f;
	f.processModule(M);
	std::vector<const DICompositeType*> cs;
	std::map<std::string, const DICompositeType*> best;
	for (auto* t : f.types()) if (auto* c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
		if (c->isForwardDecl() || c->getName().empty()) continue;
		best[c->getName().str()] = c;
	}
	std::function<void(const DICompositeType*, int64_t, ClassInfo&)> flat = [&](const DICompositeType* c, int64_t off, ClassInfo& ci) {
		for (auto* e : c->getElements()) {
			auto* d = dyn_cast<DIDerivedType>(e);
			if (!d) continue;
			if (d->getTag() == dwarf::DW_TAG_inheritance) {
				auto* b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()));
				if (b) { if (best.count(b->getName().str())) b = best[b->getName().str()]; if (off == 0 && ci.base.empty()) ci.base = b->getName().str(); flat(b, off + d->getOffsetInBits() / 8, ci); }
				continue;
			}
			if (d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue;
			if (d->getName().starts_with("_vptr")) { ci.poly = true; continue; }
			Field fd;
			fd.name = d->getName().str();
			fd.off = off + d->getOffsetInBits() / 8;
			fd.size = d->getSizeInBits() / 8;
			const DIType* t = strip(d->getBaseType());
			if (auto* p = dyn_cast_or_null<DIDerivedType>(t)) {
				if (p->getTag() == dwarf::DW_TAG_pointer_type || p->getTag() == dwarf::DW_TAG_reference_type) {
					fd.kind = "ptr";
					auto* b = strip(p->getBaseType());
					fd.cls = b ? b->getName().str() : "void";
				}
			} else if (auto* b = dyn_cast_or_null<DIBasicType>(t)) {
				fd.bits = (int)b->getSizeInBits();
				if (b->getEncoding() == dwarf::DW_ATE_float) fd.kind = "flt";
				else if (b->getEncoding() == dwarf::DW_ATE_boolean) fd.kind = "bool";
				else { fd.kind = "int"; fd.isSigned = b->getEncoding() == dwarf::DW_ATE_signed || b->getEncoding() == dwarf::DW_ATE_signed_char; }
			} else if (auto* c2 = dyn_cast_or_null<DICompositeType>(t)) {
				if (c2->getTag() == dwarf::DW_TAG_enumeration_type) { fd.kind = "enum"; fd.bits = (int)c2->getSizeInBits(); fd.cls = c2->getName().str(); }
				else if (c2->getTag() == dwarf::DW_TAG_array_type) { fd.kind = "array"; fd.size = c2->getSizeInBits() / 8; }
				else { fd.kind = "struct"; fd.cls = c2->getName().str(); }
			}
			ci.fields.push_back(fd);
		}
	};
	for (auto& kv : best) {
		ClassInfo ci; ci.name = kv.first; ci.size = kv.second->getSizeInBits() / 8;
		flat(kv.second, 0, ci);
		classes[kv.first] = ci;
	}
	// a class is polymorphic if any base is
	for (auto& kv : classes) { std::string b = kv.second.base; int g = 0; while (!b.empty() && classes.count(b) && g++ < 10) { if (classes[b].poly) kv.second.poly = true; b = classes[b].base; } }
}
bool Engine::isSubclass(const std::string& c, const std::string& b) const {
	std::string x = c; int g = 0;
	while (!x.empty() && g++ < 12) { if (x == b) return true; auto it = classes.find(x); if (it == classes.end()) return false; x = it->second.base; }
	return false;
}
const GlobalVariable* Engine::vtableOf(const std::string& cls) const {
	std::string n = "_ZTVN13DotnetLibrary" + std::to_string(cls.size()) + cls + "E";
	auto* g = M.getNamedGlobal(n);
	if (g && g->hasInitializer()) return g;
	n = "_ZTV" + std::to_string(cls.size()) + cls;
	g = M.getNamedGlobal(n);
	return g && g->hasInitializer() ? g : nullptr;
}
std::string Engine::classOfVtable(const GlobalVariable* gv) const {
	std::string d = ::demangle(gv->getName().str());
	auto p = d.rfind("vtable for ");
	if (p == std::string::npos) return "";
	d = d.substr(p + 11);
	auto q = d.rfind("::");
	return q == std::string::npos ? d : d.substr(q + 2);
}
std::string Engine::dynClass(const State& s, int reg) const {
	if (!s.has(reg)) return "";
	auto& r = s.ro(reg);
	auto it = r.cells.find(0);
	if (it == r.cells.end() || it->second.v.k != VPtr || !s.has(it->second.v.reg)) return "";
	auto* gv = s.ro(it->second.v.reg).gv;
	return gv ? classOfVtable(gv) : "";
}
std::vector<std::string> Engine::concreteSubclasses(const std::string& cls) const {
	std::vector<std::string> r;
	for (auto& kv : classes) {
		if (!isSubclass(kv.first, cls)) continue;
		if (kv.first != "Exception" && kv.first != cls && isSubclass(kv.first, "Exception")) continue;
		auto* vt = vtableOf(kv.first);
		if (!vt) continue;
		bool abstract = false;
		auto* init = vt->getInitializer();
		for (auto& op : init->operands()) { if (auto* arr = dyn_cast<ConstantArray>(op)) for (auto& e : arr->operands()) if (e->getName() == "__cxa_pure_virtual") abstract = true; }
		if (!abstract) r.push_back(kv.first);
	}
	return r;
}

// ------------------------------------------------------------------ globals
void Engine::initGlobals() {
	for (auto& F : M) for (auto& I : instructions(F)) {
		if (auto* st = dyn_cast<StoreInst>(&I)) {
			APInt off(64, 0);
			auto* p = st->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
			while (auto* g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand()->stripPointerCasts();
			if (auto* gv = dyn_cast<GlobalVariable>(p)) if (!F.getName().starts_with("__cxx_global_var_init") && !F.getName().starts_with("_GLOBAL__")) writtenGlobals.insert(gv);
		}
	}
	for (auto& g : M.globals()) {
		int id = newRegionId();
		gvReg[&g] = id;
		auto r = std::make_shared<Region>();
		r->kind = RGlobal; r->gv = &g; r->entry = true;
		r->size = Lin((Z)(g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0));
		r->deflt = DTop;
		r->role = ::demangle(g.getName().str());
		if (g.hasInitializer() && g.isConstant()) {
			if (auto* cd = dyn_cast<ConstantDataSequential>(g.getInitializer())) {
				unsigned n = cd->getNumElements(), w = (unsigned)cd->getElementByteSize();
				if (n && cd->getElementType()->isIntegerTy() && cd->getElementAsInteger(n - 1) == 0) {
					unsigned k = n; while (k > 0 && cd->getElementAsInteger(k - 1) == 0) --k;
					r->zero.push_back({Lin((Z)k * w), Lin((Z)n * w)});
				}
			} else if (isa<ConstantAggregateZero>(g.getInitializer())) r->zero.push_back({Lin(0), r->size});
		}
		if (g.getName().contains("DataTypeSize") && !g.getName().starts_with("_ZGV")) dtSizeGV = &g;
		protoRegions[id] = r;
	}
	// run static initialisers in order
	startEntry("<static initialisation>");
	timeLimit = 60;
	if (auto* gc = M.getNamedGlobal("llvm.global_ctors")) {
		if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : arr->operands()) {
			auto* cs = dyn_cast<ConstantStruct>(op);
			auto* f = cs ? dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()) : nullptr;
			if (!f) continue;
			State s = base;
			auto outs = callFunction(s, f, {}, nullptr);
			std::vector<Outcome> normal;
			for (auto& o : outs) if (!o.thrown) normal.push_back(o);
			if (normal.size() != 1) { for (auto& n : normal) (void)n; alarm("static-init", nullptr, "static initialiser " + f->getName().str() + " does not complete with a single outcome (" + std::to_string(normal.size()) + ")"); }
			if (!normal.empty()) { base = normal[0].s; base.env.clear(); base.callers.clear(); base.roots.clear(); }
		}
	}
	// what the initialisers built becomes the fixed library-wide data
	gcState(base);
	base.notes.clear();
	{ std::set<int> vs; base.P.vars(vs); for (int v : vs) base.approx.insert(v); }   // not to be chosen freely in a witness
	auto hasVar = [&](const Region& r) {
		if (!base.P.norm(r.size).isConst()) return true;
		for (auto& c : r.cells) { auto& v = c.second.v; if ((v.k == VInt || v.k == VPtr || v.k == VFlt) && !base.P.norm(v.e).isConst()) return true; }
		return false;
	};
	std::map<int, RegionP> left;
	for (auto& kv : base.mem) {
		auto r = std::make_shared<Region>(*kv.second);
		r->entry = true; r->dirty = false;
		if (r->kind != RGlobal) r->kind = RGlobal;
		if (hasVar(*r)) left[kv.first] = r; else protoRegions[kv.first] = r;
	}
	base.mem = left;
	base.env.clear();
	initAlarms = alarms;
	alarms.clear(); obl.clear(); reached.clear();
}
AVal Engine::constVal(State& s, const Constant* c) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) return AVal::Top();
		if (ci->getBitWidth() == 1) return AVal::Int(1, Lin(ci->isOne() ? 1 : 0));
		return AVal::Int(ci->getBitWidth(), Lin((Z)ci->getSExtValue()));
	}
	if (isa<ConstantPointerNull>(c)) return AVal::Null();
	if (auto* f = dyn_cast<Function>(c)) return AVal::Fn(f);
	if (auto* g = dyn_cast<GlobalVariable>(c)) return AVal::Ptr(gvReg[g]);
	if (isa<UndefValue>(c)) return AVal::Undef();
	if (auto* fp = dyn_cast<ConstantFP>(c)) {
		int bits = fp->getType()->isFloatTy() ? 32 : 64;
		double d = bits == 32 ? (double)fp->getValueAPF().convertToFloat() : fp->getType()->isDoubleTy() ? fp->getValueAPF().convertToDouble() : 0;
		if (std::isnan(d)) return AVal::Flt(bits, Lin(0), Lin(1));
		AVal r = AVal::Flt(bits, Lin(dblToOrd(d)), Lin(0)); r.zs = std::signbit(d) ? 2 : 1;
		return r;
	}
	if (auto* al = dyn_cast<GlobalAlias>(c)) return constVal(s, al->getAliasee());
	if (c->getType()->isPointerTy()) {
		if (auto* ge = dyn_cast<GEPOperator>(c)) return gep(s, *ge);
		APInt off(64, 0);
		auto* b = c->stripAndAccumulateConstantOffsets(DL, off, true);
		if (b != c) { AVal v = constVal(s, cast<Constant>(b)); if (v.k == VPtr) { v.e = v.e + Lin((Z)off.getSExtValue()); return v; } if (v.k == VFn) return v; }
		return AVal::Top();
	}
	if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
		AVal a; a.k = VAgg;
		unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
		for (unsigned i = 0; i < n && i < 64; i++) a.agg.push_back(constVal(s, c->getAggregateElement(i)));
		return a;
	}
	if (c->getType()->isIntegerTy()) {
		if (auto* f = ConstantFoldConstant(c, DL)) if (isa<ConstantInt>(f)) return constVal(s, f);
		return freshOf(s, c->getType(), "cexpr");
	}
	return AVal::Top();
}
AVal Engine::val(State& s, const Value* v) {
	if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
	auto it = s.env.find(v);
	if (it != s.env.end()) return it->second;
	return AVal::Top();
}
AVal Engine::loadConst(State& s, const GlobalVariable* gv, int64_t off, Type* t, bool& good) {
	good = false;
	if (!gv->hasInitializer()) return AVal::Top();
	Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, (uint64_t)off, true), DL);
	if (!c) return AVal::Top();
	good = true;
	return constVal(s, c);
}

// ------------------------------------------------------------------ fresh values
Lin Engine::freshRange(State& s, Z lo, Z hi, const std::string& name) {
	if (lo == hi) return Lin(lo);
	int v = VT.fresh(name);
	Lin l = Lin::var(v);
	s.P.addGe(l - Lin(lo));
	s.P.addGe(Lin(hi) - l);
	return l;
}
Lin Engine::freshInt(State& s, int bits, const std::string& name) {
	if (bits == 1) return freshRange(s, 0, 1, name);
	return freshRange(s, -pow2(bits - 1), pow2(bits - 1) - 1, name);
}
AVal Engine::freshFlt(State& s, int bits, const std::string& name) {
	return AVal::Flt(bits, freshRange(s, -ORD_INF, ORD_INF, name), freshRange(s, 0, 1, name + ".nan"));
}
AVal Engine::freshOf(State& s, Type* t, const std::string& name, bool exact) {
	AVal r = AVal::Top();
	if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) r = AVal::Int(t->getIntegerBitWidth(), freshInt(s, t->getIntegerBitWidth(), name));
	else if (t->isFloatTy()) r = freshFlt(s, 32, name);
	else if (t->isDoubleTy()) r = freshFlt(s, 64, name);
	if (!exact) markApprox(s, r);
	return r;
}
void Engine::markApprox(State& s, const Lin& e) { if (confirm) for (auto& t : e.t) s.approx.insert(t.first); }
void Engine::markApprox(State& s, const AVal& v) {
	if (!confirm) return;
	if (v.k == VInt || v.k == VCond || v.k == VFlt) { markApprox(s, v.e); if (v.k == VFlt) markApprox(s, v.nan); }
	if (v.k == VAgg) for (auto& x : v.agg) markApprox(s, x);
}
// does the truth of a statement about e depend on something that is only known approximately?
bool Engine::usesApprox(State& s, const Lin& e0) {
	if (s.approx.empty()) return false;
	std::set<int> bad = s.approx;
	for (int a : s.approx) if (s.P.sub.count(a)) { Lin n = s.P.norm(Lin::var(a)); for (auto& t : n.t) bad.insert(t.first); }
	Lin e = s.P.norm(e0);
	for (auto& t : e.t) {
		if (bad.count(t.first)) return true;
		for (int f : VT.factors(t.first)) if (bad.count(f)) return true;
	}
	return false;
}
int Engine::newRegion(State& s, RKind k, Lin size, const std::string& role) {
	int id = newRegionId();
	auto r = std::make_shared<Region>();
	r->kind = k; r->size = size; r->role = role;
	s.mem[id] = r;
	return id;
}
AVal Engine::lazyObject(State& s, const std::string& cls, const std::string& role, int nullState) {
	int id = newRegion(s, RInput, Lin(), role);
	Region& r = s.rw(id);
	r.lazy = true; r.cls = cls; r.nullState = nullState; r.entry = true; r.deflt = DTop;
	return AVal::Ptr(id);
}
static const Field* roleField(const ClassInfo& ci, const std::string& name, const std::string& kind, int ordinal) {
	for (auto& f : ci.fields) if (f.name == name) return &f;
	int n = 0;
	for (auto& f : ci.fields) if (f.kind == kind) { if (n == ordinal) return &f; ++n; }
	throw GiveUp{"class " + ci.name + ": no field playing the role '" + name + "'"};
}
void Engine::fillFields(State& s, int reg, const ClassInfo& ci, int64_t off, const std::string& prefix) {
	for (auto& f : ci.fields) {
		Region& r = s.rw(reg);
		int64_t o = off + f.off;
		if (r.cells.count(o)) continue;
		std::string n = prefix + f.name;
		if (f.kind == "int" || f.kind == "enum") {
			Lin v = freshInt(s, f.bits, n);
			if (ci.name == "DateTime") v = freshRange(s, 0, (Z)3155378975999999999LL, n);
			s.rw(reg).cells[o] = {f.size, AVal::Int(f.bits, v)};
		} else if (f.kind == "bool") { Lin v = freshRange(s, 0, 1, n); s.rw(reg).cells[o] = {f.size, AVal::Int(8, v)}; }
		else if (f.kind == "flt") { AVal v = freshFlt(s, f.bits, n); s.rw(reg).cells[o] = {f.size, v}; }
		else if (f.kind == "ptr" && classes.count(f.cls)) { AVal v = lazyObject(s, f.cls, n, 2); s.rw(reg).cells[o] = {f.size, v}; }
		else if (f.kind == "struct" && classes.count(f.cls)) fillFields(s, reg, classes[f.cls], o, n + ".");
	}
}
std::vector<State> Engine::materializeAs(const State& s0, int reg, const std::string& cls) {
	std::vector<State> res;
	auto it = classes.find(cls);
	ClassInfo empty; empty.name = cls; empty.size = 1;
	const ClassInfo& ci = it == classes.end() ? empty : it->second;
	State s = s0;
	{
		Region& r = s.rw(reg);
		r.lazy = false; r.cls = cls; r.size = Lin((Z)ci.size); r.deflt = DTop; r.cells.clear(); r.zero.clear();
		if (ci.poly) {
			auto* vt = vtableOf(cls);
			if (!vt) throw GiveUp{"no vtable for " + cls};
			r.cells[0] = {8, AVal::Ptr(gvReg[vt], Lin(16))};
		}
	}
	std::string role = s.ro(reg).role;
	if (cls == "String") {
		auto* fc = roleField(ci, "characterData", "ptr", 0); auto* fl = roleField(ci, "length", "int", 0);
		const Field* fa = nullptr; for (auto& f : ci.fields) if (f.kind == "bool") fa = &f;
		Lin len = freshRange(s, 0, P31 - 2, role + ".length");
		Lin alloc = fa ? freshRange(s, 0, 1, role + ".allocated") : Lin(0);
		Lin sz = freshRange(s, 4, (Z)1 << 40, role + ".bytes");
		int cr = newRegion(s, RExt, sz, "characters of " + role);
		s.P.addGe(sz - len * 4 - Lin(4));
		Region& c = s.rw(cr);
		c.deflt = DTop; c.entry = true; c.immut = true; c.owned = alloc;
		c.zero.push_back({len * 4, len * 4 + Lin(4)});
		Region& r = s.rw(reg);
		r.immut = true;
		r.cells[fc->off] = {8, AVal::Ptr(cr)};
		r.cells[fl->off] = {4, AVal::Int(32, len)};
		if (fa) r.cells[fa->off] = {1, AVal::Int(8, alloc)};
		fillFields(s, reg, ci, 0, role + ".");
		res.push_back(s);
	} else if (cls == "StringBuilder") {
		auto* fi = roleField(ci, "internalMemory", "array", 0); auto* fc = roleField(ci, "chunkChars", "ptr", 0);
		auto* fcap = roleField(ci, "currentCapacity", "int", 0); auto* fl = roleField(ci, "currentLength", "int", 1); auto* fm = roleField(ci, "maxCapacity", "int", 2);
		for (int internal = 1; internal >= 0; --internal) {
			State t = s;
			Lin cap, len, mx;
			int64_t slots = fi->size / 4;
			if (internal) cap = freshRange(t, 0, slots - 1, role + ".capacity");
			else cap = freshRange(t, slots, P31 - 2, role + ".capacity");   // only text too long for the internal memory is kept elsewhere
			len = freshRange(t, 0, P31 - 2, role + ".length");
			mx = freshRange(t, 1, P31 - 1, role + ".maxCapacity");
			t.P.addGe(cap - len);
			t.P.addGe(mx - cap);
			Region* r = &t.rw(reg);
			if (internal) {
				AVal p = AVal::Ptr(reg, Lin((Z)fi->off)); p.hasSub = true; p.slo = Lin((Z)fi->off); p.shi = Lin((Z)(fi->off + fi->size));
				r->cells[fc->off] = {8, p};
				r->zero.push_back({len * 4 + Lin((Z)fi->off), len * 4 + Lin((Z)fi->off + 4)});
			} else {
				Lin sz = freshRange(t, 4, (Z)1 << 40, role + ".bytes");
				t.P.addGe(sz - cap * 4 - Lin(4));
				int br = newRegion(t, RHeap, sz, "buffer of " + role);
				Region& b = t.rw(br);
				b.deflt = DTop; b.entry = true; b.owned = Lin(1);
				b.zero.push_back({len * 4, len * 4 + Lin(4)});
				r = &t.rw(reg);
				r->cells[fc->off] = {8, AVal::Ptr(br)};
			}
			r->cells[fcap->off] = {4, AVal::Int(32, cap)};
			r->cells[fl->off] = {4, AVal::Int(32, len)};
			r->cells[fm->off] = {4, AVal::Int(32, mx)};
			fillFields(t, reg, ci, 0, role + ".");
			res.push_back(t);
		}
	} else if (cls == "Array") {
		auto* fd = roleField(ci, "data", "ptr", 0); auto* ft = roleField(ci, "dataType", "enum", 0);
		auto* f1 = roleField(ci, "dimension1Size", "int", 0); auto* f2 = roleField(ci, "dimension2Size", "int", 1); auto* f3 = roleField(ci, "dimension3Size", "int", 2);
		auto* fr = roleField(ci, "dimensionCount", "int", 3); auto* fn = roleField(ci, "totalElementCount", "int", 4);
		const Field* fo = nullptr; for (auto& f : ci.fields) if (f.kind == "bool") fo = &f;
		for (int rank = 1; rank <= 3; ++rank) {
			State t = s;
			Lin dt = freshRange(t, 1, 17, role + ".type");
			Lin es = freshRange(t, 1, 8, role + ".elemSize");
			t.links.push_back({dt, es});
			Lin d1 = freshRange(t, 0, P31 - 1, role + ".dim1"), d2(-1), d3(-1), total = d1;
			if (rank >= 2) { d2 = freshRange(t, 0, P31 - 1, role + ".dim2"); total = linMul(d1, d2); }
			if (rank >= 3) { d3 = freshRange(t, 0, P31 - 1, role + ".dim3"); total = linMul(total, d3); }
			if (rank >= 2) { t.P.addGe(Lin(P31 - 1) - total); t.P.addGe(total); }
			Lin bytes = linMul(total, es);
			t.P.addGe(Lin(P31 - 1) - bytes);
			t.P.addGe(bytes);
			int dr = newRegion(t, RExt, bytes, "elements of " + role);
			Region& d = t.rw(dr);
			d.deflt = DElems; d.elemDt = dt; d.entry = true;
			Lin own = fo ? freshRange(t, 0, 1, role + ".owns") : Lin(0);
			d.owned = own;
			Region& r = t.rw(reg);
			r.cells[ft->off] = {4, AVal::Int(32, dt)};
			r.cells[f1->off] = {4, AVal::Int(32, d1)}; r.cells[f2->off] = {4, AVal::Int(32, d2)}; r.cells[f3->off] = {4, AVal::Int(32, d3)};
			r.cells[fr->off] = {4, AVal::Int(32, Lin(rank))}; r.cells[fn->off] = {4, AVal::Int(32, total)};
			r.cells[fd->off] = {8, AVal::Ptr(dr)};
			if (fo) r.cells[fo->off] = {1, AVal::Int(8, own)};
			fillFields(t, reg, ci, 0, role + ".");
			res.push_back(t);
		}
	} else if (cls == "CharEnumerator") {
		auto* fs = roleField(ci, "string", "ptr", 0); auto* fi = roleField(ci, "index", "int", 0);
		AVal str = lazyObject(s, "String", role + ".string", 0);
		auto v = materializeAs(s, str.reg, "String");
		State t = v[0];
		auto* sl = roleField(classes["String"], "length", "int", 0);
		Lin len = t.ro(str.reg).cells.at(sl->off).v.e;
		Lin idx = freshRange(t, -1, P31 - 2, role + ".index");
		t.P.addGe(len - idx);
		Region& r = t.rw(reg);
		r.cells[fs->off] = {8, str};
		r.cells[fi->off] = {4, AVal::Int(32, idx)};
		fillFields(t, reg, ci, 0, role + ".");
		res.push_back(t);
	} else {
		fillFields(s, reg, ci, 0, role + ".");
		if (isSubclass(cls, "ValueType")) s.rw(reg).immut = true;      // a boxed value
		res.push_back(s);
	}
	return res;
}
std::vector<State> Engine::materialize(const State& s, int reg) {
	std::vector<State> res;
	std::string cls = s.ro(reg).cls;
	auto subs = concreteSubclasses(cls);
	if (subs.empty()) subs.push_back(cls);
	for (auto& c : subs) for (auto& t : materializeAs(s, reg, c)) res.push_back(t);
	return res;
}

// ------------------------------------------------------------------ constraints
void Engine::settle(State& s) {
	for (auto& l : s.links) {
		Lin d = s.P.norm(l.dt);
		if (!d.isConst()) continue;
		Lin e = s.P.norm(l.es);
		if (e.isConst()) continue;
		if (!dtSizeGV || !dtSizeGV->hasInitializer()) throw GiveUp{"element size table not found"};
		bool ok; AVal v = loadConst(s, dtSizeGV, (int64_t)d.c * 4, Type::getInt32Ty(M.getContext()), ok);
		if (ok && v.k == VInt && v.e.isConst()) s.P.addEq(e - v.e);
	}
	for (size_t i = 0; i < s.links.size(); ++i) for (size_t j = i + 1; j < s.links.size(); ++j) {
		if (s.P.norm(s.links[i].dt) != s.P.norm(s.links[j].dt)) continue;
		Lin d = s.P.norm(s.links[i].es - s.links[j].es);
		if (!(d.isConst() && d.c == 0)) s.P.addEq(d);
	}
	for (size_t i = 0; i < s.ne.size();) {
		Lin e = s.P.norm(s.ne[i]);
		if (e.isConst()) { if (e.c == 0) s.P.bottom = true; s.ne.erase(s.ne.begin() + i); continue; }
		if (s.P.entailsGe(e)) { s.P.addGe(e - Lin(1)); s.ne.erase(s.ne.begin() + i); continue; }
		if (s.P.entailsGe(-e)) { s.P.addGe(-e - Lin(1)); s.ne.erase(s.ne.begin() + i); continue; }
		++i;
	}
}
bool Engine::assumeGe(State& s, const Lin& e) {
	if (s.P.bottom) return false;
	Lin n = s.P.norm(e);
	if (n.isConst()) return n.c >= 0;
	if (s.P.entailsGe(-n - Lin(1))) return false;
	if (confirm && !s.lossy && usesApprox(s, n) && !s.P.entailsGe(n)) s.lossy = true;
	s.P.addGe(n);
	settle(s);
	return !s.P.bottom;
}
bool Engine::assumeEq(State& s, const Lin& e) {
	if (s.P.bottom) return false;
	Lin n = s.P.norm(e);
	if (n.isConst()) return n.c == 0;
	if (s.P.entailsGe(n - Lin(1)) || s.P.entailsGe(-n - Lin(1))) return false;
	for (auto& x : s.ne) { Lin y = s.P.norm(x); if (y == n || y == -n) return false; }
	if (confirm && !s.lossy && usesApprox(s, n)) s.lossy = true;
	s.P.addEq(n);
	settle(s);
	return !s.P.bottom;
}
bool Engine::assumeNe(State& s, const Lin& e) {
	if (s.P.bottom) return false;
	Lin n = s.P.norm(e);
	if (n.isConst()) return n.c != 0;
	bool ge = s.P.entailsGe(n), le = s.P.entailsGe(-n);
	if (ge && le) return false;
	if (confirm && !s.lossy && usesApprox(s, n)) s.lossy = true;
	if (ge) s.P.addGe(n - Lin(1));
	else if (le) s.P.addGe(-n - Lin(1));
	else if (std::find_if(s.ne.begin(), s.ne.end(), [&](const Lin& x) { return s.P.norm(x) == n; }) != s.ne.end()) return true;
	else if (s.ne.size() < (confirm ? 400 : 24)) s.ne.push_back(n);
	else s.lossy = true;
	settle(s);
	return !s.P.bottom;
}
bool Engine::assumeCond(State& s, const AVal& c, bool truth) {
	if (c.k == VInt) return truth ? assumeNe(s, c.e) : assumeEq(s, c.e);
	if (c.k == VCond) {
		if (c.op == 0) return truth ? assumeGe(s, c.e) : assumeGe(s, -c.e - Lin(1));
		bool eq = (c.op == 1) == truth;
		return eq ? assumeEq(s, c.e) : assumeNe(s, c.e);
	}
	return true;
}

// ------------------------------------------------------------------ reporting
std::string Engine::where(const Instruction* I, int* line, std::string* file, std::string* fn) {
	std::string f = "?", n = "?"; int l = 0;
	if (I) {
		n = ::demangle(I->getFunction()->getName().str());
		if (auto& d = I->getDebugLoc()) { l = d.getLine(); if (auto* sc = dyn_cast_or_null<DIScope>(d.getScope())) f = sc->getFilename().str(); }
		else if (auto* sp = I->getFunction()->getSubprogram()) { l = sp->getLine(); f = sp->getFilename().str(); }
	}
	auto p = f.find("/repo/"); if (p != std::string::npos) f = f.substr(p + 6);
	if (line) *line = l; if (file) *file = f; if (fn) *fn = n;
	return n + " (" + f + ":" + std::to_string(l) + ")";
}
static std::string modelStr(const std::map<int, Z>& val) {
	std::string r; int n = 0;
	for (auto& kv : val) {
		if (!VT.factors(kv.first).empty()) continue;
		auto& nm = VT.v[kv.first].name;
		if (nm.empty() || nm == "q" || nm == "r" || nm == "b" || nm == "wcslen" || nm.size() > 60 || n > 14) continue;
		if (nm.find(".bytes") != std::string::npos || nm.find(".allocated") != std::string::npos || nm.find(".nan") != std::string::npos) continue;
		r += (n++ ? ", " : "") + nm + "=" + zstr(kv.second);
	}
	return r;
}
// Whole numbers for every unknown under which the state and one of the conjunctions hold.
bool Engine::witness(const State& s0, const Alts& viol, std::string& example) {
	if (s0.lossy || s0.P.lost || s0.P.bottom) return false;
	Alts alts = viol;
	if (alts.empty()) alts.push_back({});
	for (auto& conj : alts) {
		try {
			State s = s0;
			bool live = true;
			for (auto& c : conj) live = live && assumeGe(s, c);
			if (!live || s.lossy || s.P.lost || !s.P.feasible()) continue;
			std::map<int, Z> val;
			int budget = 4000;
			// depth-first over a few candidate values for each unknown
			std::function<bool(State, std::map<int, Z>&)> solve = [&](State t, std::map<int, Z>& m) -> bool {
				for (;;) {
					if (--budget < 0) return false;
					tick();
					std::set<int> vs, rest;
					t.P.vars(vs);
					for (auto& e : t.ne) { Lin n = t.P.norm(e); for (auto& x : n.t) vs.insert(x.first); }
					for (auto& l : t.links) for (auto* e : {&l.dt, &l.es}) { Lin n = t.P.norm(*e); for (auto& x : n.t) vs.insert(x.first); }
					for (int v : vs) { auto& f = VT.factors(v); if (f.empty()) rest.insert(v); else rest.insert(f.begin(), f.end()); }
					int pick = -1; size_t score = 0;
					for (int v : rest) {
						if (t.P.sub.count(v)) continue;
						size_t sc = 1;
						for (int x : vs) { auto& f = VT.factors(x); if (std::find(f.begin(), f.end(), v) != f.end()) sc += 100; }
						for (auto& l : t.links) { if (t.P.norm(l.dt).coef(v) != 0) sc += 1000; }
						for (auto& c : t.P.cons) if (c.coef(v) != 0) ++sc;
						if (sc > score) { score = sc; pick = v; }
					}
					if (pick < 0) {
						for (auto& c : t.P.cons) if (c.isConst() && c.c < 0) return false;
						for (auto& e : t.ne) { Lin n = t.P.norm(e); if (!n.isConst() || n.c == 0) return false; }
						for (auto& c : t.P.cons) if (!c.isConst()) return false;
						return true;
					}
					Lin x = Lin::var(pick);
					Z lo, hi; bool hl = t.P.minOf(x, lo), hh = t.P.maxOf(x, hi);
					std::vector<Z> cand;
					auto add = [&](Z c) { if ((hl && c < lo) || (hh && c > hi)) return; if (std::find(cand.begin(), cand.end(), c) == cand.end()) cand.push_back(c); };
					if (hl && hh && lo == hi) add(lo);
					else {
						for (Z c : {(Z)65, (Z)1, (Z)2, (Z)0, (Z)3, (Z)-1}) add(c);
						if (hl) { add(lo); add(lo + 1); }
						if (hh) { add(hi); add(hi - 1); }
						if (hl && hh) add(zfloor(lo + hi, 2));
						for (Z c = 4; c <= 17; ++c) if (score >= 1000) add(c);
					}
					if (cand.size() == 1 && hl && hh && lo == hi) {
						if (!assumeEq(t, x - Lin(cand[0])) || t.P.lost || !t.P.feasible()) return false;
						m[pick] = cand[0];
						continue;
					}
					for (Z c : cand) {
						State u = t;
						if (!assumeEq(u, x - Lin(c)) || u.P.lost || !u.P.feasible()) continue;
						std::map<int, Z> m2 = m; m2[pick] = c;
						if (solve(std::move(u), m2)) { m = m2; return true; }
						if (budget < 0) return false;
					}
					return false;
				}
			};
			s.approx.clear();     // what is left open is irrelevant from here on: any completion will do
			if (solve(s, val)) { example = modelStr(val); return true; }
		} catch (Ovf&) {}
	}
	return false;
}
void Engine::sureAlarm(const std::string& rule, const Instruction* I, const std::string& msg, const std::vector<std::pair<State, Alts>>& ways) {
	for (auto& w : ways) alarm(rule, I, msg, &w.first, w.second);
}
void Engine::alarm(const std::string& rule, const Instruction* I, const std::string& msg, const State* s, const Alts& viol) {
	if (mute) return;
	if (confirm) {
		if (!s || s->lossy) { if (trace && s) fprintf(stderr, "UNSURE(lossy) %s %s\n", rule.c_str(), msg.c_str()); return; }
		int line; std::string file, fn;
		where(I, &line, &file, &fn);
		std::string key = rule + "|" + fn + "|" + std::to_string(line) + "|" + msg.substr(0, msg.find(" ["));
		auto& t = alarms[key];
		if (t.sure || t.tries >= 12) return;
		++t.tries;
		std::string ex;
		if (!witness(*s, viol, ex)) { if (trace) fprintf(stderr, "NO WITNESS %s %s\n%s\n", rule.c_str(), msg.c_str(), s->P.str().c_str()); return; }
		if (trace) { fprintf(stderr, "SURE %s %s [%s]\n%s\n", rule.c_str(), msg.c_str(), ex.c_str(), s->P.str().c_str()); for (auto& c : viol) { for (auto& e : c) fprintf(stderr, "VIOL %s >= 0\n", linStr(e).c_str()); } }
		t.sure = true; t.example = ex;
	}
	int line; std::string file, fn;
	where(I, &line, &file, &fn);
	std::string key = rule + "|" + fn + "|" + std::to_string(line) + "|" + msg.substr(0, msg.find(" ["));
	auto& a = alarms[key];
	if (!a.count++ || confirm) {
		a.rule = rule; a.fn = fn; a.file = file; a.line = line; a.msg = msg;
		std::string st;
		for (auto& p : stack) { if (p.second) st += where(p.second) + " -> "; }
		st += fn;
		a.stack = st;
	}
	obl[{I, rule}].second++;
}
void Engine::ok(const std::string& rule, const Instruction* I) { if (!mute) obl[{I, rule}].first++; }

// ------------------------------------------------------------------ memory
Engine::Acc Engine::checkAccess(State& s, const AVal& p, const Lin& len, bool write, const Instruction* I, std::vector<State>& retry, bool zeroOk) {
	if (p.k == VUndef) { alarm("uninit", I, "pointer that was never set is dereferenced", &s); return ACC_DEAD; }
	if (p.k == VFn) { alarm("badptr", I, "function address is dereferenced", &s); return ACC_DEAD; }
	if (p.k != VPtr) { alarm("badptr", I, "memory that does not hold a valid reference is dereferenced"); return ACC_DEAD; }
	if (zeroOk && s.P.entailsEq(len)) { ok("bounds", I); return ACC_OK; }
	if (p.reg == 0) { if (zeroOk) { State t = s; if (assumeEq(t, len)) retry.push_back(t); alarm("null", I, "null is dereferenced", &s, {{len - Lin(1)}}); return retry.empty() ? ACC_DEAD : ACC_RETRY; } alarm("null", I, "null is dereferenced", &s); return ACC_DEAD; }
	if (!s.has(p.reg)) throw GiveUp{"dangling region"};
	{
		const Region& r = s.ro(p.reg);
		if (r.nullState == 1) { alarm("null", I, "null is dereferenced [" + r.role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{}); return ACC_DEAD; }
		if (r.nullState == 2) { alarm("null", I, "reference that may be null is dereferenced [" + r.role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{}); s.rw(p.reg).nullState = 0; }
		else ok("null", I);
	}
	if (s.ro(p.reg).lazy) {
		for (auto& t : materialize(s, p.reg)) retry.push_back(t);
		return ACC_RETRY;
	}
	const Region& r = s.ro(p.reg);
	if (r.freed) { alarm("uaf", I, "released memory is accessed [" + r.role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{}); return ACC_DEAD; }
	ok("uaf", I);
	Lin lo = p.hasSub ? p.slo : Lin(0), hi = p.hasSub ? p.shi : r.size;
	bool bad = false;
	std::string role = r.role;
	if (!s.P.entailsGe(len)) { alarm("bounds", I, std::string(write ? "write" : "read") + " of a possibly negative amount", &s, {{-len - Lin(1)}}); if (!assumeGe(s, len)) return ACC_DEAD; bad = true; }
	if (zeroOk && !s.P.entailsGe(len - Lin(1))) {
		// length may be zero: bounds must hold when it is positive
		State t = s;
		if (assumeGe(t, len - Lin(1))) {
			bool b1 = t.P.entailsGe(p.e - lo), b2 = t.P.entailsGe(hi - p.e - len);
			if (b1 && b2) { ok("bounds", I); return ACC_OK; }
		} else { ok("bounds", I); return ACC_OK; }
	}
	if (!s.P.entailsGe(p.e - lo)) {
		if (trace) fprintf(stderr, "LOW fail off=%s lo=%s\n%s\n", linStr(s.P.norm(p.e)).c_str(), linStr(lo).c_str(), s.P.str().c_str());
		alarm("bounds", I, std::string(write ? "write" : "read") + " before the start of its object [" + role + "]", &s, {{len - Lin(1), lo - p.e - Lin(1)}}); bad = true;
		if (!assumeGe(s, p.e - lo)) return ACC_DEAD;
	}
	if (!s.P.entailsGe(hi - p.e - len)) {
		if (trace && !mute) fprintf(stderr, "HIGH fail off=%s len=%s hi=%s\n%s\n", linStr(s.P.norm(p.e)).c_str(), linStr(s.P.norm(len)).c_str(), linStr(s.P.norm(hi)).c_str(), s.P.str().c_str());
		alarm("bounds", I, std::string(write ? "write" : "read") + " past the end of its object [" + role + "]", &s, {{len - Lin(1), p.e + len - hi - Lin(1)}}); bad = true;
		if (!assumeGe(s, hi - p.e - len)) return ACC_DEAD;
	}
	if (!bad) ok("bounds", I);
	if (write) {
		Region& w = s.rw(p.reg);
		bool box = !w.cls.empty() && w.cls != "String" && w.immut;
		if (box && w.entry) alarm("immutbox", I, "an existing boxed value is overwritten [" + role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{});
		else ok("immutbox", I);
		if (!box && w.immut && w.entry) alarm("immut", I, "contents of an existing string are overwritten [" + role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{});
		else ok("immut", I);
		if (w.kind == RGlobal && entryName != "<static initialisation>") alarm("globalwrite", I, "library-wide data is overwritten [" + role + "]", &s, zeroOk ? Alts{{len - Lin(1)}} : Alts{});
		w.dirty = true;
	}
	return ACC_OK;
}
void Engine::writeZeroFacts(State& s, Region& r, const Lin& off, const Lin& len, bool isZero) {
	if (confirm) { if (isZero) { clearRange(s, r, off, len); r.zero.push_back({s.P.norm(off), s.P.norm(off + len)}); } return; }
	std::vector<std::pair<Lin, Lin>> nz;
	Lin end = off + len;
	if (!isZero) {
		for (auto& z : r.zero) {
			if (s.P.entailsGe(off - z.second) || s.P.entailsGe(z.first - end)) { nz.push_back(z); continue; }
			if (s.P.entailsGe(off - z.first) && s.P.entailsGe(off - z.first - Lin(1))) { if (s.P.entailsGe(z.second - off)) nz.push_back({z.first, off}); }
			if (s.P.entailsGe(z.second - end) && s.P.entailsGe(end - z.first) && s.P.entailsGe(z.second - end - Lin(1))) nz.push_back({end, z.second});
		}
	} else {
		nz = r.zero;
		bool merged = false;
		for (auto& z : nz) {
			if (s.P.entailsGe(off - z.first) && s.P.entailsGe(z.second - end)) { merged = true; break; }
			if (s.P.entailsEq(z.second - off)) { z.second = end; merged = true; break; }
		}
		if (!merged) {
			// drop ranges swallowed by the new one
			nz.erase(std::remove_if(nz.begin(), nz.end(), [&](auto& z) { return s.P.entailsGe(z.first - off) && s.P.entailsGe(end - z.second); }), nz.end());
			nz.push_back({off, end});
		}
	}
	if (nz.size() > 6) nz.erase(nz.begin(), nz.begin() + (nz.size() - 6));
	r.zero = nz;
}
void Engine::killCells(State& s, Region& r, const Lin& off, const Lin& len) {
	if (confirm) { clearRange(s, r, off, len); return; }
	r.reads.clear();
	Lin end = off + len;
	Lin no = s.P.norm(off), ne = s.P.norm(end);
	bool any = false;
	for (auto it = r.cells.begin(); it != r.cells.end();) {
		Lin co((Z)it->first), ce((Z)(it->first + it->second.w));
		bool disjoint;
		if (no.isConst() && ne.isConst()) disjoint = ne.c <= co.c || no.c >= ce.c;
		else disjoint = s.P.entailsGe(co - end) || s.P.entailsGe(off - ce);
		if (disjoint) ++it; else { it = r.cells.erase(it); any = true; }
	}
	(void)any;
}
// memory that was all zero is about to hold something in [off, off+len): what lies outside stays zero
void Engine::demoteZero(State& s, Region& r, const Lin& off, const Lin& len) {
	if (confirm) return;
	if (r.deflt != DZero) return;
	r.deflt = DTop;
	if (r.kind == RGlobal) return;
	// zero cells are implied by the ranges; other cells split them
	Lin lo(0); std::vector<std::pair<Lin, Lin>> add;
	int64_t top = 0;
	for (auto& c : r.cells) { bool z = c.second.v.k == VInt && s.P.norm(c.second.v.e) == Lin(0); if (!z) top = c.first + c.second.w; }
	(void)lo;
	if (top == 0) add.push_back({Lin(0), off});
	else if (s.P.entailsGe(off - Lin((Z)top))) add.push_back({Lin((Z)top), off});
	Lin end = s.P.norm(off + len);
	if (s.P.entailsGe(end - Lin((Z)top))) add.push_back({end, r.size}); else add.push_back({Lin((Z)top), r.size});
	for (auto& z : add) { Lin d = s.P.norm(z.second - z.first); if (d.isConst() && d.c <= 0) continue; if (r.zero.size() < 6) r.zero.push_back({s.P.norm(z.first), s.P.norm(z.second)}); }
}
void Engine::havocRange(State& s, int reg, const Lin& off, const Lin& len) {
	Region& r = s.rw(reg);
	if (confirm) { clearRange(s, r, off, len); r.fuzz.push_back({s.P.norm(off), s.P.norm(off + len)}); return; }
	killCells(s, r, off, len);
	demoteZero(s, r, off, len);
	if (r.deflt != DElems) r.deflt = DTop;
	writeZeroFacts(s, r, off, len, false);
}
void Engine::storeMem(State& s, const AVal& p, const AVal& v, int64_t w) {
	Region& r = s.rw(p.reg);
	Lin off = s.P.norm(p.e);
	bool isZero = v.k == VInt && s.P.norm(v.e) == Lin(0);
	if (confirm) {
		clearRange(s, r, off, Lin((Z)w));
		if (v.k == VAgg || v.k == VTop) { r.fuzz.push_back({off, off + Lin((Z)w)}); if (off.isConst() && v.k == VTop) r.cells[(int64_t)off.c] = {w, v}; }
		else if (off.isConst()) r.cells[(int64_t)off.c] = {w, v};
		else if (isZero) r.zero.push_back({off, off + Lin((Z)w)});
		else r.sym.push_back({off, w, v});
		return;
	}
	if (off.isConst()) {
		int64_t o = (int64_t)off.c;
		killCells(s, r, off, Lin((Z)w));
		r.cells[o] = {w, v};
		if (v.k == VAgg) { r.cells.erase(o); if (r.deflt != DElems) r.deflt = DTop; }
	} else {
		killCells(s, r, off, Lin((Z)w));
		if (r.deflt == DZero && !isZero) demoteZero(s, r, off, Lin((Z)w));
		else if (r.deflt == DUndef) r.deflt = DTop;
	}
	writeZeroFacts(s, r, off, Lin((Z)w), isZero);
}
// ---- exact bookkeeping of memory, used where only certain violations count
// Forgets what was known about [off, off+len); whatever had to be forgotten beyond that range becomes unknown.
bool Engine::clearRange(State& s, Region& r, const Lin& off0, const Lin& len0) {
	Lin off = s.P.norm(off0), end = s.P.norm(off0 + len0);
	bool oc = off.isConst() && end.isConst();
	r.lens.clear();
	auto classify = [&](const Lin& a, const Lin& b) -> int {   // 0 disjoint 1 swallowed 2 unclear
		if (oc && a.isConst() && b.isConst()) { if (b.c <= off.c || a.c >= end.c) return 0; if (a.c >= off.c && b.c <= end.c) return 1; return 2; }
		if (s.P.entailsGe(off - b) || s.P.entailsGe(a - end)) return 0;
		if (s.P.entailsGe(a - off) && s.P.entailsGe(end - b)) return 1;
		return 2;
	};
	std::vector<std::pair<Lin, Lin>> nf;
	for (auto& f : r.fuzz) if (classify(f.first, f.second) != 1) nf.push_back(f);
	for (auto it = r.cells.begin(); it != r.cells.end();) {
		Lin a((Z)it->first), b((Z)(it->first + it->second.w));
		int k = classify(a, b);
		if (k == 0) { ++it; continue; }
		if (k == 2) nf.push_back({a, b});
		it = r.cells.erase(it);
	}
	std::vector<Region::Sym> ns;
	for (auto& y : r.sym) {
		Lin a = s.P.norm(y.off), b = a + Lin((Z)y.w);
		int k = classify(a, b);
		if (k == 0) ns.push_back(y); else if (k == 2) nf.push_back({a, b});
	}
	std::vector<std::pair<Lin, Lin>> nz;
	for (auto& z : r.zero) {
		Lin a = s.P.norm(z.first), b = s.P.norm(z.second);
		int k = classify(a, b);
		if (k == 0) { nz.push_back({a, b}); continue; }
		if (k == 1) continue;
		bool left = s.P.entailsGe(off - a), right = s.P.entailsGe(b - end);
		if (left && s.P.entailsGe(b - off)) nz.push_back({a, off});
		if (right && s.P.entailsGe(end - a)) nz.push_back({end, b});
		if (!left || !right) nf.push_back({a, b});
	}
	r.fuzz = nf; r.sym = ns; r.zero = nz;
	return true;
}
AVal Engine::asType(State& s, const AVal& v, Type* t) {
	if (v.k == VUndef || v.k == VTop) return v.k == VTop && !t->isPointerTy() ? freshOf(s, t, "top") : v;
	if (t->isIntegerTy()) {
		if (v.k == VInt && (v.bits == (int)t->getIntegerBitWidth() || (t->getIntegerBitWidth() == 8 && v.bits == 1))) { AVal r = v; r.bits = (int)t->getIntegerBitWidth(); return r; }
		if (v.k == VCond) return v;
		return freshOf(s, t, "punned");
	}
	if (t->isPointerTy()) { if (v.k == VPtr || v.k == VFn) return v; if (v.k == VInt && s.P.norm(v.e) == Lin(0)) return AVal::Null(); return AVal::Top(); }
	if (t->isFloatTy() || t->isDoubleTy()) { if (v.k == VFlt) return v; return freshOf(s, t, "punned"); }
	return v;
}
// An integer of w bytes read from the middle of a wider one, or put together from narrower ones; cs: offset from the address read, and what is stored there.
bool exactDiv(State& n, const Lin& u0, Z c, Lin& q, Lin& r);
bool Engine::fromPieces(State& s, const std::vector<std::pair<Z, Cell>>& cs, int64_t w, Type* t, AVal& out, std::vector<State>& retry, bool& didRetry) {
	if (!t->isIntegerTy() || (int64_t)t->getIntegerBitWidth() != 8 * w || w > 8) return false;
	for (auto& c : cs) if (c.second.v.k != VInt || c.second.w > 8 || (c.second.v.bits != 8 * c.second.w && !(c.second.v.bits == 1 && c.second.w == 1))) return false;
	const Z one = 1;
	// is x below zero?  undecided: both cases are tried again
	auto negative = [&](const Lin& x, bool& neg) {
		if (s.P.entailsGe(x)) { neg = false; return true; }
		if (s.P.entailsGe(-x - Lin(1))) { neg = true; return true; }
		State a = s, b = s;
		if (assumeGe(a, x)) retry.push_back(std::move(a));
		if (assumeGe(b, -x - Lin(1))) retry.push_back(std::move(b));
		didRetry = true;
		return false;
	};
	if (cs.size() == 1 && cs[0].first <= 0 && cs[0].first + cs[0].second.w >= w) {
		const int low = (int)(8 * -cs[0].first), W = (int)(8 * cs[0].second.w), bits = (int)(8 * w);
		Lin v = s.P.norm(cs[0].second.v.e);
		if (v.isConst()) {
			unsigned long long u = (unsigned long long)(long long)v.c >> low;
			if (bits < 64) u &= (1ull << bits) - 1;
			Z x = (Z)u; if (x >= one << (bits - 1)) x -= one << bits;
			out = AVal::Int(bits, Lin(x));
			return true;
		}
		bool neg;
		if (!negative(v, neg)) return true;
		Lin u = neg ? v + Lin(one << W) : v, q = u, r(0), top(0), x = u;
		if (low && !exactDiv(s, u, one << low, q, r)) return false;
		q = s.P.norm(q);
		if (low + bits < W || neg) { if (!exactDiv(s, q, one << bits, top, x)) return false; } else x = q;
		x = s.P.norm(x);
		if (!negative(x - Lin(one << (bits - 1)), neg)) return true;
		out = AVal::Int(bits, neg ? x : x - Lin(one << bits));
		return true;
	}
	std::map<Z, Cell> at(cs.begin(), cs.end());
	Z pos = 0; Lin sum(0);
	for (auto& c : at) {
		if (c.first != pos) return false;
		pos += c.second.w;
		Lin v = s.P.norm(c.second.v.e);
		if (pos < w) { bool neg; if (!negative(v, neg)) return true; if (neg) v = v + Lin(one << (8 * c.second.w)); }
		sum = sum + v * (one << (int)(8 * c.first));
	}
	if (pos != w || at.size() != cs.size()) return false;
	out = AVal::Int((int)(8 * w), s.P.norm(sum));
	return true;
}
AVal Engine::loadExact(State& s, const AVal& p, Type* t, const Instruction* I, std::vector<State>& retry, bool& didRetry) {
	int64_t w = (int64_t)DL.getTypeStoreSize(t).getFixedValue();
	const Region& r = s.ro(p.reg);
	Lin off = s.P.norm(p.e), end = off + Lin((Z)w);
	auto zeroVal = [&]() { if (t->isPointerTy()) return AVal::Null(); if (t->isIntegerTy()) return AVal::Int(t->getIntegerBitWidth(), Lin(0)); return AVal::Flt(t->isFloatTy() ? 32 : 64, Lin(0), Lin(0)); };
	// 0 disjoint, 1 exactly there, 2 overlapping in another way, 3 undecided (cases pushed)
	auto meet = [&](const Lin& a, const Lin& b, bool sameWidth) -> int {
		if (off.isConst() && a.isConst() && b.isConst()) { if (b.c <= off.c || a.c >= end.c) return 0; return a.c == off.c && sameWidth ? 1 : 2; }
		Lin d = s.P.norm(off - a);
		if (d.isConst() && b == a + Lin((Z)w)) { if (d.c == 0) return sameWidth ? 1 : 2; if (d.c >= w || d.c <= -w) return 0; return 2; }
		if (s.P.entailsGe(a - end) || s.P.entailsGe(off - b)) return 0;
		if (sameWidth && s.P.entailsEq(off - a)) return 1;
		std::vector<State> cs;
		{ State n = s; if (assumeGe(n, a - end)) cs.push_back(std::move(n)); }
		if (sameWidth) { State n = s; if (assumeEq(n, off - a)) cs.push_back(std::move(n)); }
		{ State n = s; if (assumeGe(n, off - b)) cs.push_back(std::move(n)); }
		for (auto& n : cs) retry.push_back(std::move(n));
		didRetry = true;
		return 3;
	};
	std::vector<std::pair<Z, Cell>> parts;
	auto part = [&](const Lin& a, const Cell& c) { Lin d = s.P.norm(a - off); if (!d.isConst()) return false; parts.push_back({d.c, c}); return true; };
	auto partly = [&]() { return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "part"); };
	for (auto& c : r.cells) {
		int k = meet(Lin((Z)c.first), Lin((Z)(c.first + c.second.w)), c.second.w == w);
		if (k == 0) continue;
		if (k == 3) return AVal::Top();
		if (k == 1) { AVal v = c.second.v; return asType(s, v, t); }
		if (c.second.v.k == VUndef) return AVal::Undef();
		if (!part(Lin((Z)c.first), c.second)) return partly();
	}
	for (auto& y : r.sym) {
		Lin a = s.P.norm(y.off);
		int k = meet(a, a + Lin((Z)y.w), y.w == w);
		if (k == 0) continue;
		if (k == 3) return AVal::Top();
		if (k == 1) { AVal v = y.v; return asType(s, v, t); }
		if (!part(a, Cell{y.w, y.v})) return partly();
	}
	if (!parts.empty()) {
		AVal v;
		if (fromPieces(s, parts, w, t, v, retry, didRetry)) return v;
		return partly();
	}
	for (auto& z0 : r.zero) {
		Lin a = s.P.norm(z0.first), b = s.P.norm(z0.second);
		if (s.P.entailsGe(a - end) || s.P.entailsGe(off - b)) continue;
		if (s.P.entailsGe(off - a) && s.P.entailsGe(b - end)) return zeroVal();
		{ State n = s; if (assumeGe(n, a - end)) retry.push_back(std::move(n)); }
		{ State n = s; if (assumeGe(n, off - a) && assumeGe(n, b - end)) retry.push_back(std::move(n)); }
		{ State n = s; if (assumeGe(n, off - b)) retry.push_back(std::move(n)); }
		didRetry = true;
		return AVal::Top();
	}
	for (auto& z0 : r.fuzz) {
		Lin a = s.P.norm(z0.first), b = s.P.norm(z0.second);
		if (s.P.entailsGe(a - end) || s.P.entailsGe(off - b)) continue;
		if (s.P.entailsGe(off - a) && s.P.entailsGe(b - end)) return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "unknown");
		{ State n = s; if (assumeGe(n, a - end)) retry.push_back(std::move(n)); }
		{ State n = s; if (assumeGe(n, off - a) && assumeGe(n, b - end)) retry.push_back(std::move(n)); }
		{ State n = s; if (assumeGe(n, off - b)) retry.push_back(std::move(n)); }
		didRetry = true;
		return AVal::Top();
	}
	if (r.fuzzAll) return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "unknown");
	if (r.deflt == DUndef) return AVal::Undef();
	if (r.deflt == DZero) return zeroVal();
	AVal v;
	if (r.deflt == DElems && t->isPointerTy()) {
		Lin dt = s.P.norm(r.elemDt);
		if (!dt.isConst()) {
			std::vector<Lin> cases{dt - Lin(1), dt - Lin(17)};
			State rest = s; bool live = true;
			for (auto& c : cases) { State n = s; if (assumeEq(n, c)) retry.push_back(n); }
			for (auto& c : cases) live = live && assumeNe(rest, c);
			if (live) alarm("badptr", I, "element of an array that does not hold references is used as a reference [" + r.role + "]", &rest);
			didRetry = true;
			return AVal::Top();
		}
		if (dt.c != 1 && dt.c != 17) { alarm("badptr", I, "element of an array that does not hold references is used as a reference [" + r.role + "]", &s); return AVal::Top(); }
		v = lazyObject(s, dt.c == 17 ? "String" : "Object", "element of " + r.role, 2);
	} else if (t->isPointerTy()) return AVal::Top();
	else v = freshOf(s, t, r.role.empty() ? "mem" : "in " + r.role, r.entry);
	Region& q = s.rw(p.reg);
	if (off.isConst()) q.cells[(int64_t)off.c] = {w, v}; else q.sym.push_back({off, w, v});
	return v;
}
AVal Engine::loadMem(State& s, const AVal& p, Type* t, const Instruction* I, std::vector<State>& retry, bool& didRetry) {
	didRetry = false;
	if (confirm && s.ro(p.reg).kind != RGlobal) return loadExact(s, p, t, I, retry, didRetry);
	int64_t w = (int64_t)DL.getTypeStoreSize(t).getFixedValue();
	const Region& r = s.ro(p.reg);
	Lin off = s.P.norm(p.e);
	if (off.isConst()) {
		int64_t o = (int64_t)off.c;
		auto it = r.cells.find(o);
		if (it != r.cells.end() && it->second.w == w) {
			const AVal& v = it->second.v;
			if (v.k == VUndef || v.k == VTop) return v;
			if (t->isIntegerTy()) {
				if (v.k == VInt) { if (v.bits == (int)t->getIntegerBitWidth()) return v; if (t->getIntegerBitWidth() == 8 && v.bits == 1) return AVal::Int(8, v.e); }
				if (v.k == VCond) return v;
				return freshOf(s, t, "punned");
			}
			if (t->isPointerTy()) { if (v.k == VPtr || v.k == VFn) return v; if (v.k == VInt && s.P.norm(v.e) == Lin(0)) return AVal::Null(); return AVal::Top(); }
			if (t->isFloatTy() || t->isDoubleTy()) { if (v.k == VFlt) return v; return freshOf(s, t, "punned"); }
			return v;
		}
		bool overlap = false;
		for (auto& c : r.cells) if (c.first < o + w && o < c.first + c.second.w) {
			overlap = true;
			if (c.second.v.k == VUndef) return AVal::Undef();
		}
		if (overlap) {
			std::vector<std::pair<Z, Cell>> cs;
			for (auto& c : r.cells) if (c.first < o + w && o < c.first + c.second.w) cs.push_back({(Z)(c.first - o), c.second});
			AVal v;
			if (fromPieces(s, cs, w, t, v, retry, didRetry)) return v;
			return freshOf(s, t, "part");
		}
		if (r.kind == RGlobal && r.gv && (r.gv->isConstant() || !writtenGlobals.count(r.gv) || !allocModel)) {
			bool good; AVal v = loadConst(s, r.gv, o, t, good);
			if (good && v.k != VUndef) return v;
		}
	} else if (r.kind == RGlobal && r.gv && (r.gv->isConstant() || !writtenGlobals.count(r.gv))) {
		// table lookup
		if (r.gv == dtSizeGV) for (auto& l : s.links) if (s.P.norm(l.dt * 4) == off) return AVal::Int(32, l.es);
		Z lo, hi;
		if (s.P.minOf(off, lo) && s.P.maxOf(off, hi)) {
			if (lo < 0) lo = 0;
			Z sz = r.size.isConst() ? r.size.c : 0;
			if (hi > sz - w) hi = sz - w;
			Z stride = w;
			if ((hi - lo) / stride < 40) {
				bool allSame = true; bool have = false; AVal first;
				Z vmin = 0, vmax = 0; bool ints = true;
				std::vector<std::pair<Z, AVal>> vals;
				for (Z o = zfloor(lo, stride) * stride; o <= hi; o += stride) {
					if (o < lo) continue;
					AVal v; bool good = true;
					auto it = r.cells.find((int64_t)o);
					if (it != r.cells.end() && it->second.w == w) v = it->second.v;
					else v = loadConst(s, r.gv, (int64_t)o, t, good);
					if (!good) { ints = false; vals.clear(); break; }
					vals.push_back({o, v});
					if (!(v.k == VInt && v.e.isConst())) ints = false; else { if (!have || v.e.c < vmin) vmin = v.e.c; if (!have || v.e.c > vmax) vmax = v.e.c; }
					if (have && !(v.k == first.k && v.e == first.e && v.reg == first.reg)) allSame = false;
					if (!have) { first = v; have = true; }
				}
				if (!vals.empty()) {
					if (allSame) return first;
					if (r.gv == dtSizeGV && ints && off.t.size() == 1 && off.t[0].second == 4 && off.c % 4 == 0) {
						Lin dt = Lin::var(off.t[0].first) + Lin(off.c / 4);
						// one size variable per kind variable, so that paths that look the size up separately agree on it
						static std::map<Lin, Lin> sizeOf;
						auto so = sizeOf.find(dt);
						if (so == sizeOf.end()) so = sizeOf.emplace(dt, Lin::var(VT.fresh("elemSize"))).first;
						Lin es = so->second;
						s.P.addGe(es - Lin(vmin)); s.P.addGe(Lin(vmax) - es);
						s.links.push_back({dt, es});
						return AVal::Int(32, es);
					}
					for (auto& pv : vals) { State n = s; if (assumeEq(n, off - Lin(pv.first))) retry.push_back(n); }
					didRetry = true;
					return AVal::Top();
				}
			}
		}
		return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "table");
	}
	// default contents
	for (auto& z : r.zero) if (s.P.entailsGe(off - z.first) && s.P.entailsGe(z.second - off - Lin((Z)w))) {
		if (t->isIntegerTy()) return AVal::Int(t->getIntegerBitWidth(), Lin(0));
		if (t->isPointerTy()) return AVal::Null();
		if (t->isFloatTy() || t->isDoubleTy()) return AVal::Flt(t->isFloatTy() ? 32 : 64, Lin(0), Lin(0));
	}
	if (r.deflt == DUndef) {
		bool anyCell = false;
		if (!off.isConst()) anyCell = !r.cells.empty();
		if (!anyCell) return AVal::Undef();
		return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "mem");
	}
	if (r.deflt == DZero) {
		bool mayCell = false;
		if (!off.isConst()) for (auto& c : r.cells) { Lin co((Z)c.first); if (!s.P.entailsGe(co - off - Lin((Z)w)) && !s.P.entailsGe(off - co - Lin((Z)c.second.w))) mayCell = true; }
		if (!mayCell) {
			if (t->isIntegerTy()) return AVal::Int(t->getIntegerBitWidth(), Lin(0));
			if (t->isPointerTy()) return AVal::Null();
			if (t->isFloatTy() || t->isDoubleTy()) return AVal::Flt(t->isFloatTy() ? 32 : 64, Lin(0), Lin(0));
		}
		return t->isPointerTy() ? AVal::Top() : freshOf(s, t, "mem");
	}
	if (r.deflt == DElems && t->isPointerTy()) {
		Lin dt = s.P.norm(r.elemDt);
		if (!dt.isConst()) {
			std::vector<Lin> cases{dt - Lin(1), dt - Lin(17)};
			State rest = s; bool live = true;
			for (auto& c : cases) { State n = s; if (assumeEq(n, c)) retry.push_back(n); }
			for (auto& c : cases) live = live && assumeNe(rest, c);
			if (live) { /* element type that holds no references */
				alarm("badptr", I, "element of an array that does not hold references is used as a reference [" + r.role + "]", &rest);
			}
			didRetry = true;
			return AVal::Top();
		}
		if (dt.c == 1 || dt.c == 17) return lazyObject(s, dt.c == 17 ? "String" : "Object", "element of " + r.role, 2);
		alarm("badptr", I, "element of an array that does not hold references is used as a reference [" + r.role + "]");
		return AVal::Top();
	}
	if (t->isPointerTy()) return AVal::Top();
	if (t->isIntegerTy() && !off.isConst()) {   // reading the same place again gives the same value
		for (auto& y : r.reads) if (y.w == w && y.v.bits == (int)t->getIntegerBitWidth() && s.P.entailsEq(y.off - off)) return y.v;
		AVal v = freshOf(s, t, r.role.empty() ? "mem" : "in " + r.role);
		if (v.k == VInt && r.reads.size() < 8) s.rw(p.reg).reads.push_back({off, w, v});
		return v;
	}
	return freshOf(s, t, r.role.empty() ? "mem" : "in " + r.role);
}
void Engine::copyMem(State& s, const AVal& d, const AVal& src, const Lin& n0) {
	Lin n = s.P.norm(n0);
	if (n == Lin(0)) return;
	Lin doff = s.P.norm(d.e), soff = s.P.norm(src.e);
	const Region sr0 = s.ro(src.reg);
	Region withConst;
	const bool fromTable = sr0.kind == RGlobal && sr0.gv && (sr0.gv->isConstant() || !writtenGlobals.count(sr0.gv)) && sr0.gv->hasInitializer() && soff.isConst() && n.isConst() && n.c <= 1024;
	if (fromTable) {   // the elements of a table are known
		withConst = sr0;
		if (auto* cd = dyn_cast<ConstantDataSequential>(sr0.gv->getInitializer())) if (cd->getElementType()->isIntegerTy()) {
			const int64_t w = (int64_t)cd->getElementByteSize();
			for (unsigned i = 0; i < cd->getNumElements(); i++) {
				const int64_t at = (int64_t)i * w;
				if (at < soff.c || at + w > soff.c + n.c) continue;
				bool overlap = false;
				for (auto& c : sr0.cells) if (c.first < at + w && at < c.first + c.second.w) overlap = true;
				if (!overlap && sr0.fuzz.empty() && !sr0.fuzzAll && sr0.sym.empty()) withConst.cells[at] = Cell{w, AVal::Int((unsigned)w * 8, Lin((Z)cd->getElementAsAPInt(i).getSExtValue()))};
			}
		}
	}
	const Region& sr = fromTable ? withConst : sr0;
	std::vector<std::pair<Lin, Lin>> cut;   // zeros that reach beyond what is copied
	if (soff.isConst() && n.isConst()) for (auto& z0 : sr.zero) {
		Lin a = s.P.norm(z0.first), b = s.P.norm(z0.second);
		if (!a.isConst() || !b.isConst()) continue;
		if (a.c >= soff.c && b.c <= soff.c + n.c) continue;
		Z lo = std::max(a.c, soff.c), hi = std::min(b.c, soff.c + n.c);
		if (lo < hi) cut.push_back({s.P.norm(Lin(lo) - soff + doff), s.P.norm(Lin(hi) - soff + doff)});
	}
	if (confirm) {
		Region& r = s.rw(d.reg);
		Lin send = soff + n;
		std::vector<std::pair<Lin, Cell>> cc; std::vector<std::pair<Lin, Lin>> zz;
		Z covered = 0;
		auto inside = [&](const Lin& a, const Lin& b) { return s.P.entailsGe(a - soff) && s.P.entailsGe(send - b); };
		for (auto& c : sr.cells) { Lin a((Z)c.first), b((Z)(c.first + c.second.w)); if (inside(a, b)) { cc.push_back({s.P.norm(a - soff + doff), c.second}); covered += c.second.w; } }
		for (auto& y : sr.sym) { Lin a = s.P.norm(y.off); if (inside(a, a + Lin((Z)y.w))) cc.push_back({s.P.norm(a - soff + doff), Cell{y.w, y.v}}); }
		for (auto& z : sr.zero) if (inside(z.first, z.second)) zz.push_back({s.P.norm(z.first - soff + doff), s.P.norm(z.second - soff + doff)});
		for (auto& z : sr.zero) if (!inside(z.first, z.second) && s.P.entailsGe(soff - z.first) && s.P.entailsGe(z.second - send)) zz.push_back({doff, s.P.norm(doff + n)});
		for (auto& z : cut) zz.push_back(z);
		bool allZero = sr.deflt == DZero && sr.cells.empty() && sr.sym.empty() && sr.fuzz.empty() && !sr.fuzzAll;
		clearRange(s, r, doff, n);
		if (allZero) { r.zero.push_back({doff, s.P.norm(doff + n)}); return; }
		if (!(n.isConst() && covered == n.c)) r.fuzz.push_back({doff, s.P.norm(doff + n)});
		for (auto& c : cc) { if (c.first.isConst()) r.cells[(int64_t)c.first.c] = c.second; else r.sym.push_back({c.first, c.second.w, c.second.v}); }
		for (auto& z : zz) r.zero.push_back(z);
		return;
	}
	std::vector<std::pair<int64_t, Cell>> cells;
	bool exact = doff.isConst() && soff.isConst() && n.isConst();
	if (exact) for (auto& c : sr.cells) if (c.first >= soff.c && c.first + c.second.w <= soff.c + n.c) cells.push_back({(int64_t)(c.first - soff.c + doff.c), c.second});
	Region& r = s.rw(d.reg);
	killCells(s, r, doff, n);
	if (r.deflt != DElems) {
		if (sr.deflt == DUndef && r.deflt == DUndef) {} else if (sr.deflt == DZero && r.deflt == DZero && sr.cells.empty()) {} else { demoteZero(s, r, doff, n); r.deflt = DTop; }
	}
	// facts of the source carried over
	std::vector<std::pair<Lin, Lin>> carry;
	for (auto& z : sr.zero) {
		if (s.P.entailsGe(z.first - soff) && s.P.entailsGe(soff + n - z.second)) carry.push_back({z.first - soff + doff, z.second - soff + doff});
	}
	writeZeroFacts(s, r, doff, n, false);
	for (auto& z : cut) carry.push_back(z);
	for (auto& z : carry) if (r.zero.size() < 8) r.zero.push_back(z);
	for (auto& c : cells) r.cells[c.first] = c.second;
}
bool Engine::nulAt(State& s, const AVal& p, Lin& z) {
	const Region& r = s.ro(p.reg);
	Lin hi = p.hasSub ? p.shi : r.size;
	// prefer the earliest provable terminator
	bool have = false; Lin best;
	auto consider = [&](const Lin& lo, const Lin& end) {
		if (!s.P.entailsGe(end - lo - Lin(4))) return;
		Lin cand;
		if (s.P.entailsGe(lo - p.e)) cand = lo;
		else if (s.P.entailsGe(p.e - lo) && s.P.entailsGe(end - p.e - Lin(4))) cand = p.e;
		else return;
		if (!s.P.entailsGe(hi - cand - Lin(4))) return;
		if (!have || s.P.entailsGe(best - cand)) { best = cand; have = true; }
	};
	for (auto& q : r.zero) consider(q.first, q.second);
	for (auto& y : r.sym) if (y.w == 4 && y.v.k == VInt && s.P.entailsEq(y.v.e)) consider(y.off, y.off + Lin(4));
	if (!have && r.deflt == DZero && confirm) { if (zeroAt(s, p.reg, p.e, 4)) consider(p.e, p.e + Lin(4)); }
	else if (!have && r.deflt == DZero) consider(p.e, hi);
	for (auto& c : r.cells) if (c.second.w == 4 && c.second.v.k == VInt && s.P.norm(c.second.v.e) == Lin(0)) consider(Lin((Z)c.first), Lin((Z)c.first + 4));
	z = best;
	return have;
}

// ------------------------------------------------------------------ class invariants
// every way in which object `reg` breaks the rules its class promises; empty if none
bool Engine::zeroAt(State& s, int reg, const Lin& off, int64_t w) {
	const Region& r = s.ro(reg);
	Lin o = s.P.norm(off);
	if (o.isConst()) { auto it = r.cells.find((int64_t)o.c); if (it != r.cells.end() && it->second.w == w) return it->second.v.k == VInt && s.P.entailsEq(it->second.v.e); }
	for (auto& y : r.sym) if (y.w == w && s.P.entailsEq(y.off - off)) return y.v.k == VInt && s.P.entailsEq(y.v.e);
	for (auto& z : r.zero) if (s.P.entailsGe(off - z.first) && s.P.entailsGe(z.second - off - Lin((Z)w))) return true;
	if (r.deflt == DZero) {
		for (auto& c : r.cells) { Lin co((Z)c.first); if (!s.P.entailsGe(co - off - Lin((Z)w)) && !s.P.entailsGe(off - co - Lin((Z)c.second.w))) return false; }
		for (auto& y : r.sym) if (!s.P.entailsGe(y.off - off - Lin((Z)w)) && !s.P.entailsGe(off - y.off - Lin((Z)y.w))) return false;
		for (auto& y : r.fuzz) if (!s.P.entailsGe(y.first - off - Lin((Z)w)) && !s.P.entailsGe(off - y.second)) return false;
		return !r.fuzzAll;
	}
	if (r.kind == RGlobal && r.gv && r.gv->isConstant() && o.isConst()) {
		bool good; AVal v = loadConst(s, r.gv, (int64_t)o.c, Type::getIntNTy(M.getContext(), (unsigned)w * 8), good);
		return good && v.k == VInt && v.e == Lin(0);
	}
	return false;
}
// states in which the w bytes at off are something other than zero
void Engine::nonZeroWays(const State& s0, int reg, const Lin& off, int64_t w, std::vector<std::pair<State, Alts>>& out, int depth) {
	State s = s0; std::vector<State> retry; bool did = false;
	AVal v = loadMem(s, AVal::Ptr(reg, off), Type::getIntNTy(M.getContext(), (unsigned)w * 8), nullptr, retry, did);
	if (did) { if (depth < 4) for (auto& t : retry) if (!t.P.bottom && !t.lossy) nonZeroWays(t, reg, off, w, out, depth + 1); return; }
	if (v.k == VUndef) out.push_back({s, {}});
	else if (v.k == VInt) out.push_back({s, {{v.e - Lin(1)}, {-v.e - Lin(1)}}});
}
bool Engine::fieldAt(State& s, int reg, const Field* f, AVal& v) {
	const Region& r = s.ro(reg);
	auto it = r.cells.find(f->off);
	if (it != r.cells.end() && it->second.w == f->size) { v = it->second.v; return v.k != VUndef && v.k != VTop; }
	if (it == r.cells.end() && zeroAt(s, reg, Lin((Z)f->off), f->size)) {
		if (f->kind == "ptr") v = AVal::Null();
		else if (f->kind == "flt") v = AVal::Flt(f->bits, Lin(0), Lin(0));
		else v = AVal::Int((int)f->size * 8, Lin(0));
		return true;
	}
	return false;
}
void Engine::checkInvariant(State& s, int reg, const std::string& cls, std::vector<InvRes>& res) {
	auto it = classes.find(cls);
	if (it == classes.end()) return;
	const ClassInfo& ci = it->second;
	const Region& r = s.ro(reg);
	if (r.lazy) return;
	// sure: when not kept, it is certainly broken
	auto need = [&](bool c, const std::string& m, bool sure = false) { InvRes r{m, c, {}}; if (!c && sure && confirm) r.viol.push_back({s, {}}); res.push_back(std::move(r)); return c; };
	auto needGe = [&](State& t, const Lin& e, const std::string& m) { bool c = t.P.entailsGe(e); InvRes r{m, c, {}}; if (!c && confirm) r.viol.push_back({t, {{-e - Lin(1)}}}); res.push_back(std::move(r)); return c; };
	auto needEq = [&](State& t, const Lin& e, const std::string& m) { bool c = t.P.entailsEq(e); InvRes r{m, c, {}}; if (!c && confirm) r.viol.push_back({t, {{e - Lin(1)}, {-e - Lin(1)}}}); res.push_back(std::move(r)); return c; };
	auto needZero = [&](int rg, const Lin& off, int64_t w, const std::string& m) { bool c = zeroAt(s, rg, off, w); InvRes r{m, c, {}}; if (!c && confirm) nonZeroWays(s, rg, off, w, r.viol); res.push_back(std::move(r)); return c; };
	auto intOf = [&](const Field* f, Lin& l, const char* m) {
		AVal v;
		v.k = VTop;
		bool got = fieldAt(s, reg, f, v) && (v.k == VInt || v.k == VCond);
		if (!need(got, std::string(m) + " is never set", v.k == VUndef || (r.deflt == DUndef && !r.fuzzAll && r.fuzz.empty() && r.sym.empty() && !r.cells.count(f->off)))) return false;
		if (v.k == VCond) { l = freshRange(s, 0, 1, "b"); return true; }
		l = v.e; return true;
	};
	if (cls == "String") {
		auto* fc = roleField(ci, "characterData", "ptr", 0); auto* fl = roleField(ci, "length", "int", 0);
		const Field* fa = nullptr; for (auto& f : ci.fields) if (f.kind == "bool") fa = &f;
		AVal p; Lin len, al;
		if (!intOf(fl, len, "length")) return;
		if (!need(fieldAt(s, reg, fc, p) && p.k == VPtr && p.reg != 0 && s.has(p.reg) && s.ro(p.reg).nullState == 0, "characters are missing", p.k == VPtr && p.reg == 0)) return;
		if (!need(!s.ro(p.reg).freed, "characters were released", true)) return;
		if (!needGe(s, len, "length is negative")) return;
		Lin base = p.e;
		if (!needGe(s, base, "characters start before their memory") || !needGe(s, s.ro(p.reg).size - base - len * 4 - Lin(4), "length exceeds the character memory")) return;
		needZero(p.reg, base + len * 4, 4, "text is not terminated at its length");
		if (fa && intOf(fa, al, "ownership mark")) {
			Lin ow = s.ro(p.reg).owned;
			needEq(s, al - ow, "ownership mark disagrees with who allocated the characters");
			if (!s.P.entailsEq(al)) needEq(s, base, "owned characters do not start at their allocation");
		}
	} else if (cls == "StringBuilder") {
		auto* fi = roleField(ci, "internalMemory", "array", 0); auto* fc = roleField(ci, "chunkChars", "ptr", 0);
		auto* fcap = roleField(ci, "currentCapacity", "int", 0); auto* fl = roleField(ci, "currentLength", "int", 1); auto* fm = roleField(ci, "maxCapacity", "int", 2);
		AVal p; Lin cap, len, mx;
		if (!intOf(fcap, cap, "capacity") || !intOf(fl, len, "length") || !intOf(fm, mx, "maximum capacity")) return;
		if (!need(fieldAt(s, reg, fc, p) && p.k == VPtr && p.reg != 0 && s.has(p.reg) && s.ro(p.reg).nullState == 0, "buffer is missing", p.k == VPtr && p.reg == 0)) return;
		needGe(s, len, "length is negative");
		needGe(s, cap - len, "length exceeds capacity");
		needGe(s, mx - cap, "capacity exceeds maximum capacity");
		needGe(s, mx - Lin(1), "maximum capacity is below one");
		if (p.reg == reg) {
			needEq(s, p.e - Lin((Z)fi->off), "buffer does not start at the internal memory");
			needGe(s, Lin((Z)fi->size / 4 - 1) - cap, "capacity exceeds the internal memory");
			needZero(reg, p.e + len * 4, 4, "text is not terminated at its length");
		} else {
			if (!need(!s.ro(p.reg).freed, "buffer was released", true)) return;
			needEq(s, p.e, "buffer is not owned memory"); needEq(s, s.ro(p.reg).owned - Lin(1), "buffer is not owned memory");
			need(s.P.entailsGe(cap - Lin((Z)fi->size / 4)), "allocated buffer although the internal memory would do");
			needGe(s, s.ro(p.reg).size - cap * 4 - Lin(4), "capacity exceeds the buffer");
			needZero(p.reg, p.e + len * 4, 4, "text is not terminated at its length");
		}
	} else if (cls == "Array") {
		auto* fd = roleField(ci, "data", "ptr", 0); auto* ft = roleField(ci, "dataType", "enum", 0);
		auto* f1 = roleField(ci, "dimension1Size", "int", 0); auto* f2 = roleField(ci, "dimension2Size", "int", 1); auto* f3 = roleField(ci, "dimension3Size", "int", 2);
		auto* fr = roleField(ci, "dimensionCount", "int", 3); auto* fn = roleField(ci, "totalElementCount", "int", 4);
		const Field* fo = nullptr; for (auto& f : ci.fields) if (f.kind == "bool") fo = &f;
		AVal p; Lin dt, d1, d2, d3, rk, n;
		if (!intOf(ft, dt, "element type") || !intOf(f1, d1, "first dimension") || !intOf(f2, d2, "second dimension") || !intOf(f3, d3, "third dimension") || !intOf(fr, rk, "rank") || !intOf(fn, n, "element count")) return;
		if (!need(fieldAt(s, reg, fd, p) && p.k == VPtr && p.reg != 0 && s.has(p.reg), "element memory is missing", p.k == VPtr && p.reg == 0)) return;
		needGe(s, dt - Lin(1), "element type is not a known type"); needGe(s, Lin(17) - dt, "element type is not a known type");
		for (int k = 1; k <= 3; k++) {
			State t = s;
			if (!assumeEq(t, rk - Lin(k))) continue;
			Lin tot = d1;
			std::string sk = " (rank " + std::to_string(k) + ")";
			needGe(t, d1, "first dimension is negative" + sk);
			if (k >= 2) { needGe(t, d2, "second dimension is negative" + sk); tot = linMul(t.P.norm(tot), t.P.norm(d2)); }
			if (k >= 3) { needGe(t, d3, "third dimension is negative" + sk); tot = linMul(t.P.norm(tot), t.P.norm(d3)); }
			needEq(t, n - tot, "element count is not the product of the dimensions" + sk);
		}
		needGe(s, rk - Lin(1), "rank is not 1, 2 or 3"); needGe(s, Lin(3) - rk, "rank is not 1, 2 or 3");
		if (s.ro(p.reg).role.rfind("memory supplied", 0) == 0) return;
		const Region& dr = s.ro(p.reg);
		if (!need(!dr.freed, "element memory was released", true)) return;
		bool found = false; Lin es;
		for (auto& l : s.links) if (s.P.entailsEq(l.dt - dt)) { es = l.es; found = true; break; }
		if (!found) { Lin d = s.P.norm(dt); if (d.isConst() && dtSizeGV) { bool ok; AVal v = loadConst(s, dtSizeGV, (int64_t)d.c * 4, Type::getInt32Ty(M.getContext()), ok); if (ok && v.k == VInt && v.e.isConst()) { es = v.e; found = true; } } }
		if (need(found, "element size is unknown")) { needEq(s, p.e, "elements do not start at their memory"); needGe(s, dr.size - linMul(s.P.norm(n), s.P.norm(es)), "element memory is smaller than the element count needs"); }
		Lin ow;
		if (fo && intOf(fo, ow, "ownership mark")) needEq(s, ow - dr.owned, "ownership mark disagrees with who allocated the elements");
	} else if (cls == "CharEnumerator") {
		auto* fs = roleField(ci, "string", "ptr", 0); auto* fi = roleField(ci, "index", "int", 0);
		AVal p; Lin ix;
		if (!intOf(fi, ix, "position")) return;
		if (!need(fieldAt(s, reg, fs, p) && p.k == VPtr && p.reg != 0 && s.has(p.reg) && s.ro(p.reg).nullState == 0, "enumerated string is missing", p.k == VPtr && p.reg == 0)) return;
		if (s.ro(p.reg).lazy) return;
		AVal l; auto* sl = roleField(classes["String"], "length", "int", 0);
		if (!fieldAt(s, p.reg, sl, l)) return;
		needGe(s, ix + Lin(1), "position lies outside the string"); needGe(s, l.e - ix, "position lies outside the string");
	}
}
