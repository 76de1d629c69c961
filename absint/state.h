// Abstract values, regions, states; join / widening.
#pragma once
#include "num.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

enum VK { VUndef, VInt, VCond, VPtr, VFlt, VFn, VAgg, VTop };
struct AVal {
	VK k = VTop;
	int bits = 0;              // VInt: width. VFlt: 32/64
	Lin e;                     // VInt: value (signed reading); VPtr: byte offset; VCond: expression; VFlt: ordinal
	int reg = 0;               // VPtr: region (0: null)
	bool hasSub = false;       // VPtr: sub-object bounds
	Lin slo, shi;
	int op = 0;                // VCond: 0 e>=0, 1 e==0, 2 e!=0
	Lin nan;                   // VFlt: 0/1 NaN flag
	int zs = 0;                // VFlt: sign of a zero: 0 unknown, 1 +, 2 -
	const llvm::Function* fn = nullptr;
	std::vector<AVal> agg;
	static AVal Undef() { AVal a; a.k = VUndef; return a; }
	static AVal Top() { AVal a; a.k = VTop; return a; }
	static AVal Int(int bits, Lin e) { AVal a; a.k = VInt; a.bits = bits; a.e = e; return a; }
	static AVal Ptr(int reg, Lin off = Lin()) { AVal a; a.k = VPtr; a.reg = reg; a.e = off; return a; }
	static AVal Null() { return Ptr(0); }
	static AVal Cond(int op, Lin e) { AVal a; a.k = VCond; a.bits = 1; a.op = op; a.e = e; return a; }
	static AVal Fn(const llvm::Function* f) { AVal a; a.k = VFn; a.fn = f; return a; }
	static AVal Flt(int bits, Lin ord, Lin nan) { AVal a; a.k = VFlt; a.bits = bits; a.e = ord; a.nan = nan; return a; }
	bool isNull() const { return k == VPtr && reg == 0; }
};
std::string avalStr(const AVal& a);

enum RKind { RStack, RHeap, RGlobal, RInput, RExt };
enum RDef { DZero, DUndef, DTop, DElems };
struct Cell { int64_t w; AVal v; };
struct Region {
	RKind kind = RStack;
	Lin size;
	bool freed = false;
	Lin owned;                 // 1 iff the library may release it (0/1 expression)
	int nullState = 0;         // 0 non-null, 1 null, 2 unknown
	bool entry = false;        // existed before the analysed call
	bool immut = false;        // contents must not change during a call (characters of an existing string)
	bool dirty = false;        // written since entry
	bool lazy = false;         // class contents not yet materialised
	std::string cls;           // static class when input object
	std::string role;          // human readable
	RDef deflt = DUndef;
	Lin elemDt;                // DElems: data type code of elements
	std::map<int64_t, Cell> cells;
	std::vector<std::pair<Lin, Lin>> zero;   // byte ranges known to be zero
	struct Sym { Lin off; int64_t w; AVal v; };
	std::vector<Sym> sym;                    // values known at symbolic offsets
	std::vector<Sym> reads;                  // what was read at symbolic offsets since the last write
	std::vector<std::pair<Lin, Lin>> fuzz;   // byte ranges whose contents are only approximated
	bool fuzzAll = false;
	std::vector<std::pair<Lin, Lin>> lens;   // (start, number of characters before the first terminator) already measured
	const llvm::GlobalVariable* gv = nullptr;
};
typedef std::shared_ptr<Region> RegionP;
struct Link { Lin dt, es; };
typedef std::map<const llvm::Value*, AVal> Env;

extern std::map<int, RegionP> protoRegions;   // immutable library-wide regions not (yet) modified in a state
struct State {
	Poly P;
	std::map<int, RegionP> mem;
	Env env;
	std::vector<std::shared_ptr<Env>> callers;
	std::vector<Link> links;
	std::vector<Lin> ne;       // e != 0 facts
	std::set<int> approx;      // variables known only approximately, or whose connection to a value computed from them is not kept
	bool lossy = false;        // the state describes more than what can happen (joined, widened, approximated)
	std::vector<AVal> roots;   // values kept alive (entry arguments)
	std::set<std::string> notes;
	std::map<const void*, int> lineage;   // loop -> which of its head states this one comes from
	std::shared_ptr<std::map<int, int>> prov; // unused
	Region& rw(int id) {
		RegionP& p = mem[id];
		if (!p) { auto it = protoRegions.find(id); p = it != protoRegions.end() ? std::make_shared<Region>(*it->second) : std::make_shared<Region>(); }
		else if (p.use_count() > 1) p = std::make_shared<Region>(*p);
		return *p;
	}
	const RegionP& get(int id) const { auto it = mem.find(id); return it != mem.end() ? it->second : protoRegions.at(id); }
	const Region& ro(int id) const { return *get(id); }
	bool has(int id) const { return mem.count(id) != 0 || protoRegions.count(id) != 0; }
};
struct JoinRes { bool ok = false; bool stable = false; State s; std::string why; };
// mode: 0 plain, 1 first widening join, 3 early widening join (still adds bounds), 2 later widening join (a is the old header state)
JoinRes joinStates(const State& a, const State& b, int mode, const AVal* ra = nullptr, const AVal* rb = nullptr, AVal* rout = nullptr);
void gcState(State& s, const std::vector<AVal>& extra = {});
int newRegionId();
extern bool keepVars;      // gcState leaves variables alone
