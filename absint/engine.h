#pragma once
#include "state.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include <chrono>

struct Outcome { State s; bool thrown = false; AVal v; std::string exc; };
struct EdgeState { State s; const llvm::BasicBlock* from; const llvm::BasicBlock* to; AVal exc; std::string excT; };

struct Field { std::string name; int64_t off = 0, size = 0; std::string kind; std::string cls; int bits = 0; bool isSigned = true; };
struct ClassInfo { std::string name, base; int64_t size = 0; bool poly = false; std::vector<Field> fields; /* flattened */ };

// A violation is certain when a state that stands only for things that can happen satisfies one of these conjunctions (each term >= 0).
typedef std::vector<std::vector<Lin>> Alts;
struct Alarm { std::string rule, fn, file, msg, stack, example; int line = 0, tries = 0; long count = 0; bool sure = false; };
// one promise of a class: kept or not; and the ways in which it is certainly broken
struct InvRes { std::string m; bool ok; std::vector<std::pair<State, Alts>> viol; };

struct FnInfo {
	std::unique_ptr<llvm::DominatorTree> DT;
	std::unique_ptr<llvm::LoopInfo> LI;
	std::map<const llvm::BasicBlock*, int> rpo;
	std::map<const llvm::BasicBlock*, std::set<const llvm::Value*>> liveIn;
};

struct GiveUp { std::string why; };

struct Engine {
	llvm::Module& M;
	const llvm::DataLayout& DL;
	std::map<const llvm::GlobalVariable*, int> gvReg;
	std::map<std::string, ClassInfo> classes;
	std::map<const llvm::Function*, FnInfo> finfo;
	State base;
	int mute = 0;
	std::vector<std::pair<const llvm::Function*, const llvm::Instruction*>> stack;
	long steps = 0, stepLimit = 2000000;
	double timeLimit = 120;
	std::chrono::steady_clock::time_point t0;
	std::map<std::string, Alarm> alarms, initAlarms;
	std::map<std::pair<const void*, std::string>, std::pair<long, long>> obl;   // (inst, rule) -> (discharged, failed)
	std::set<const llvm::Function*> reached;
	std::set<std::string> externals;
	const llvm::GlobalVariable* dtSizeGV = nullptr;
	std::set<const llvm::GlobalVariable*> writtenGlobals;
	int level = 1;               // how many different states are kept apart (0 coarse .. 3 fine)
	bool trace = false;
	size_t cap = 48; int loopCap = 5;   // confirm: states kept per point, loop rounds that leave the loop
	bool wantConfirm = false, sureSpec = false;
	bool confirm = false;        // states are never joined; anything approximated is discarded; only certain violations are reported
	std::string entryName;
	bool checkingSpec = false;
	bool mallocFails = true;     // malloc may return null (false while contracts are checked)
	int allocModel = 1;          // 1: operator new is modelled; 0: analyse the allocator itself
	bool exactText = false;      // numbers are formatted digit by digit
	bool wrapRule = false;       // report silent integer wraps
	std::set<std::string> wrapFns;

	Engine(llvm::Module& m);
	// setup
	void loadClasses();
	void initGlobals();
	const FnInfo& info(const llvm::Function* F);
	std::vector<std::string> concreteSubclasses(const std::string& cls) const;
	bool isSubclass(const std::string& c, const std::string& b) const;
	const llvm::GlobalVariable* vtableOf(const std::string& cls) const;
	std::string classOfVtable(const llvm::GlobalVariable* gv) const;
	std::string dynClass(const State& s, int reg) const;
	// inputs
	Lin freshInt(State& s, int bits, const std::string& name);
	Lin freshRange(State& s, Z lo, Z hi, const std::string& name);
	AVal freshFlt(State& s, int bits, const std::string& name);
	AVal freshOf(State& s, llvm::Type* t, const std::string& name, bool exact = false);
	int newRegion(State& s, RKind k, Lin size, const std::string& role);
	AVal lazyObject(State& s, const std::string& cls, const std::string& role, int nullState);
	std::vector<State> materialize(const State& s, int reg);
	void fillFields(State& s, int reg, const ClassInfo& ci, int64_t off, const std::string& prefix);
	std::vector<State> materializeAs(const State& s, int reg, const std::string& cls);
	// invariants
	void checkInvariant(State& s, int reg, const std::string& cls, std::vector<InvRes>& res);
	void nonZeroWays(const State& s, int reg, const Lin& off, int64_t w, std::vector<std::pair<State, Alts>>& out, int depth = 0);
	bool zeroAt(State& s, int reg, const Lin& off, int64_t w);
	bool fieldAt(State& s, int reg, const Field* f, AVal& v);
	// values
	AVal val(State& s, const llvm::Value* v);
	AVal constVal(State& s, const llvm::Constant* c);
	AVal loadConst(State& s, const llvm::GlobalVariable* gv, int64_t off, llvm::Type* t, bool& ok);
	// constraints
	bool assumeGe(State& s, const Lin& e);
	bool assumeEq(State& s, const Lin& e);
	bool assumeNe(State& s, const Lin& e);
	bool assumeCond(State& s, const AVal& c, bool truth);
	void settle(State& s);
	// alarms
	void alarm(const std::string& rule, const llvm::Instruction* I, const std::string& msg, const State* s = nullptr, const Alts& viol = {});
	void sureAlarm(const std::string& rule, const llvm::Instruction* I, const std::string& msg, const std::vector<std::pair<State, Alts>>& ways);
	bool witness(const State& s, const Alts& viol, std::string& example);
	bool usesApprox(State& s, const Lin& e);
	void picks(State& s, const llvm::Instruction& I, std::vector<State>& retry);
	void markApprox(State& s, const AVal& v);
	void markApprox(State& s, const Lin& e);
	void ok(const std::string& rule, const llvm::Instruction* I);
	std::string where(const llvm::Instruction* I, int* line = nullptr, std::string* file = nullptr, std::string* fn = nullptr);
	// memory
	enum Acc { ACC_OK, ACC_DEAD, ACC_RETRY };
	Acc checkAccess(State& s, const AVal& p, const Lin& len, bool write, const llvm::Instruction* I, std::vector<State>& retry, bool zeroOk = false);
	AVal loadMem(State& s, const AVal& p, llvm::Type* t, const llvm::Instruction* I, std::vector<State>& retry, bool& didRetry);
	void storeMem(State& s, const AVal& p, const AVal& v, int64_t w);
	void demoteZero(State& s, Region& r, const Lin& off, const Lin& len);
	void havocRange(State& s, int reg, const Lin& off, const Lin& len);
	void writeZeroFacts(State& s, Region& r, const Lin& off, const Lin& len, bool isZero);
	void killCells(State& s, Region& r, const Lin& off, const Lin& len);
	void copyMem(State& s, const AVal& d, const AVal& src, const Lin& n);
	bool clearRange(State& s, Region& r, const Lin& off, const Lin& len);
	bool fromPieces(State& s, const std::vector<std::pair<Z, Cell>>& cs, int64_t w, llvm::Type* t, AVal& out, std::vector<State>& retry, bool& didRetry);
	AVal loadExact(State& s, const AVal& p, llvm::Type* t, const llvm::Instruction* I, std::vector<State>& retry, bool& didRetry);
	AVal asType(State& s, const AVal& v, llvm::Type* t);
	bool nulAt(State& s, const AVal& p, Lin& z);
	// execution
	std::vector<Outcome> callFunction(State s, const llvm::Function* F, const std::vector<AVal>& args, const llvm::Instruction* site);
	void runBlocks(const llvm::Function* F, const llvm::Loop* L, std::vector<EdgeState> start, std::vector<EdgeState>& exits, std::vector<EdgeState>& backs, std::vector<Outcome>& outs);
	void handleLoop(const llvm::Function* F, const llvm::Loop* L, std::vector<EdgeState> entry, std::vector<EdgeState>& exits, std::vector<Outcome>& outs);
	void execBlock(EdgeState es, std::vector<EdgeState>& edges, std::vector<Outcome>& outs);
	// returns 1 if s continues, 0 if it does not
	int step(State& s, const llvm::Instruction& I, const EdgeState& es, std::vector<State>& more, std::vector<State>& retry, std::vector<EdgeState>& edges, std::vector<Outcome>& outs);
	int doCall(State& s, const llvm::CallBase& I, std::vector<State>& more, std::vector<State>& retry, std::vector<EdgeState>& edges, std::vector<Outcome>& outs);
	bool externCall(State& s, const llvm::CallBase& I, const std::string& name, std::vector<AVal>& args, std::vector<State>& more, std::vector<State>& retry, int& rc, std::vector<Outcome>& outs);
	int binop(State& s, const llvm::BinaryOperator& I, std::vector<State>& more);
	int fbinop(State& s, const llvm::BinaryOperator& I, std::vector<State>& more);
	int icmp(State& s, const llvm::ICmpInst& I, std::vector<State>& more, std::vector<State>& retry);
	int fcmp(State& s, const llvm::FCmpInst& I, std::vector<State>& more);
	int castop(State& s, const llvm::CastInst& I, std::vector<State>& more);
	AVal gep(State& s, const llvm::GEPOperator& G);
	bool forceInt(State& s, const llvm::Value* v, std::vector<State>& retry);  // make v a VInt; pushes retry & returns false when it forked
	void wrapTo(State& s, const llvm::Instruction& I, const Lin& r, int bits, std::vector<State>& more, bool isUnsignedOk, const char* what);
	void fltBounds(State& s, const AVal& a, double& lo, double& hi);
	AVal fltFromRange(State& s, int bits, double lo, double hi, int nan, const std::string& name);
	void pruneEnv(State& s, const llvm::BasicBlock* bb, const llvm::BasicBlock* from);
	void mergeEdges(std::vector<EdgeState>& v, size_t limit);
	void mergeOutcomes(std::vector<Outcome>& v, size_t limit);
	void tick();
	void startEntry(const std::string& n);
};
std::string demangle(const std::string& s);
double ordToDbl(Z o);
Z dblToOrd(double d);
