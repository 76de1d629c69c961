// Facts about the linked module for the structural rules: definitions, calls, writes to globals, thrown and caught types, class hierarchy.
#include "engine.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <map>
#include <set>
using namespace llvm;

static std::string q(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}
static std::string dem(const Value* v) { return demangle(v->getName().str()); }

// what an address is derived from: globals, parameters, calls (allocations)
static void roots(const Value* v, std::set<const Value*>& out, std::set<const Value*>& seen) {
	if (!v || !seen.insert(v).second) return;
	if (auto* ce = dyn_cast<ConstantExpr>(v)) { if (ce->getOpcode() == Instruction::GetElementPtr || ce->isCast()) return roots(ce->getOperand(0), out, seen); out.insert(v); return; }
	if (auto* g = dyn_cast<GetElementPtrInst>(v)) return roots(g->getPointerOperand(), out, seen);
	if (auto* c = dyn_cast<CastInst>(v)) return roots(c->getOperand(0), out, seen);
	if (auto* p = dyn_cast<PHINode>(v)) { for (auto& u : p->incoming_values()) roots(u, out, seen); return; }
	if (auto* s = dyn_cast<SelectInst>(v)) { roots(s->getTrueValue(), out, seen); roots(s->getFalseValue(), out, seen); return; }
	if (auto* a = dyn_cast<GlobalAlias>(v)) return roots(a->getAliasee(), out, seen);
	out.insert(v);
}
static std::set<const Value*> roots(const Value* v) { std::set<const Value*> o, s; roots(v, o, s); return o; }

static std::string where(const Instruction& I) {
	const DILocation* l = I.getDebugLoc();
	while (l && l->getInlinedAt()) l = l->getInlinedAt();
	auto* sp = I.getFunction()->getSubprogram();
	std::string f = l ? l->getFilename().str() : sp ? sp->getFilename().str() : "";
	return ",\"file\":" + q(f) + ",\"line\":" + std::to_string(l ? l->getLine() : sp ? sp->getLine() : 0);
}

void dumpFacts(Module& M) {
	std::map<const Function*, std::set<unsigned>> writes;  // parameters a function stores through
	bool changed = true;
	auto forWrites = [&](const Function& F, const std::function<void(const Instruction&, const Value*)>& cb) {
		for (auto& I : instructions(F)) {
			if (auto* s = dyn_cast<StoreInst>(&I)) cb(I, s->getPointerOperand());
			else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) cb(I, r->getPointerOperand());
			else if (auto* m = dyn_cast<AnyMemIntrinsic>(&I)) cb(I, m->getDest());
			else if (auto* c = dyn_cast<CallBase>(&I)) {
				auto* f = c->getCalledFunction();
				if (!f) continue;
				static const std::set<std::string> libc = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "wcscpy", "wcsncpy", "wmemcpy", "wmemmove", "wmemset", "sprintf", "snprintf", "swprintf", "vsnprintf", "vswprintf", "free"};
				if (f->isDeclaration() && libc.count(f->getName().str()) && c->arg_size()) cb(I, c->getArgOperand(0));
				auto it = writes.find(f);
				if (it != writes.end()) for (unsigned k : it->second) if (k < c->arg_size()) cb(I, c->getArgOperand(k));
			}
		}
	};
	while (changed) {
		changed = false;
		for (auto& F : M) forWrites(F, [&](const Instruction&, const Value* p) { for (auto* r : roots(p)) if (auto* a = dyn_cast<Argument>(r)) if (writes[&F].insert(a->getArgNo()).second) changed = true; });
	}
	for (auto& F : M) {
		if (F.isIntrinsic()) continue;
		auto* sp = F.getSubprogram();
		std::string ps; for (auto& a : F.args()) ps += (ps.empty() ? "" : ",") + std::string(a.hasStructRetAttr() ? "\"sret\"" : "\"\"");
		printf("{\"k\":\"fn\",\"name\":%s,\"dem\":%s,\"decl\":%s,\"file\":%s,\"line\":%u}\n", q(F.getName().str()).c_str(), q(dem(&F)).c_str(), F.isDeclaration() ? "true" : "false", q(sp ? sp->getFilename().str() : "").c_str(), sp ? sp->getLine() : 0);
		forWrites(F, [&](const Instruction& I, const Value* p) {
			for (auto* r : roots(p)) if (auto* g = dyn_cast<GlobalVariable>(r)) printf("{\"k\":\"write\",\"fn\":%s,\"dem\":%s,\"gv\":%s%s}\n", q(F.getName().str()).c_str(), q(dem(&F)).c_str(), q(g->getName().str()).c_str(), where(I).c_str());
		});
		for (auto& I : instructions(F)) {
			if (auto* l = dyn_cast<LoadInst>(&I)) { for (auto* r : roots(l->getPointerOperand())) if (auto* g = dyn_cast<GlobalVariable>(r)) printf("{\"k\":\"read\",\"fn\":%s,\"gv\":%s%s}\n", q(F.getName().str()).c_str(), q(g->getName().str()).c_str(), where(I).c_str()); }
			if (auto* c = dyn_cast<CallBase>(&I)) {
				if (isa<IntrinsicInst>(c) && !isa<AnyMemIntrinsic>(c)) continue;
				auto* f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
				for (auto& a : c->args()) if (a->getType()->isPointerTy()) for (auto* r : roots(a)) if (auto* g = dyn_cast<GlobalVariable>(r)) printf("{\"k\":\"read\",\"fn\":%s,\"gv\":%s,\"addr\":true%s}\n", q(F.getName().str()).c_str(), q(g->getName().str()).c_str(), where(I).c_str());
				printf("{\"k\":\"call\",\"fn\":%s,\"callee\":%s%s}\n", q(F.getName().str()).c_str(), q(f ? f->getName().str() : "").c_str(), where(I).c_str());
				if (f && f->getName() == "__cxa_throw") printf("{\"k\":\"throw\",\"fn\":%s,\"type\":%s%s}\n", q(F.getName().str()).c_str(), q(c->getArgOperand(1)->stripPointerCasts()->getName().str()).c_str(), where(I).c_str());
			}
			if (auto* lp = dyn_cast<LandingPadInst>(&I)) for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) printf("{\"k\":\"catch\",\"fn\":%s,\"type\":%s%s}\n", q(F.getName().str()).c_str(), q(isa<ConstantPointerNull>(lp->getClause(k)) ? "..." : lp->getClause(k)->stripPointerCasts()->getName().str()).c_str(), where(I).c_str());
		}
	}
	for (auto& G : M.globals()) {
		std::string file, member; unsigned line = 0; SmallVector<DIGlobalVariableExpression*, 1> e; G.getDebugInfo(e);
		if (!e.empty()) { auto* d = e[0]->getVariable(); file = d->getFilename().str(); line = d->getLine(); if (auto* m = d->getStaticDataMemberDeclaration()) if (auto* c = dyn_cast_or_null<DIType>(m->getScope())) member = c->getName().str(); }
		printf("{\"k\":\"gv\",\"name\":%s,\"dem\":%s,\"decl\":%s,\"const\":%s,\"zero\":%s,\"member\":%s,\"file\":%s,\"line\":%u", q(G.getName().str()).c_str(), q(dem(&G)).c_str(), G.isDeclaration() ? "true" : "false", G.isConstant() ? "true" : "false", G.hasInitializer() && G.getInitializer()->isNullValue() ? "true" : "false", q(member).c_str(), q(file).c_str(), line);
		// type information: names of the base classes' type information; virtual tables: the functions in them
		if (G.hasInitializer() && (G.getName().starts_with("_ZTI") || G.getName().starts_with("_ZTV"))) {
			std::string refs; std::function<void(const Constant*, int)> walk = [&](const Constant* c, int d) {
				if (d > 6) return;
				if (isa<GlobalVariable>(c) || isa<Function>(c)) { refs += (refs.empty() ? "" : ",") + q(c->getName().str()); return; }
				for (auto& op : c->operands()) if (auto* k = dyn_cast<Constant>(op)) walk(k, d + 1);
			};
			walk(G.getInitializer(), 0);
			printf(",\"refs\":[%s]", refs.c_str());
		}
		printf("}\n");
	}
}
