// tokflow: a flow- and context-sensitive abstract interpreter for the LLVM IR of tok3n.
//
// It never runs the library. Every value is abstract: input positions are symbols ordered by
// difference bounds (a zone domain), input elements are sets over a finite universe of order/bit
// representatives, the values made by sub-parsers are uninterpreted terms, and the verdicts of
// sub-parsers are unknown (each unknown splits the abstract state into its cases).
// For each entry pair (lib_X, ref_X) the analysed function and its specification are interpreted as
// a product program, in lock step; abstract states are canonicalised (renaming of positions,
// k-extrapolation of bounds, universally quantified summaries of lists) at each split, and a state
// that was already covered is not explored again, so loops reach a fixpoint.
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
using std::string;
using i64 = int64_t;
using u64 = uint64_t;
template <class T> using sp = std::shared_ptr<T>;

static const i64 INF = (i64)1 << 60;

// ---------------------------------------------------------------------------------- linear terms
struct Lin
{
	i64 c = 0;
	std::vector<std::pair<int, i64>> t; // sorted by symbol, no zero coefficients
	Lin() = default;
	Lin(i64 v) : c(v) {}
	static Lin sym(int s) { Lin l; l.t.push_back({ s, 1 }); return l; }
	bool isConst() const { return t.empty(); }
	bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
	bool operator<(const Lin& o) const { return t != o.t ? t < o.t : c < o.c; }
};
static i64 wadd(i64 a, i64 b) { return (i64)((u64)a + (u64)b); }
static i64 wmul(i64 a, i64 b) { return (i64)((u64)a * (u64)b); }
static Lin add(const Lin& a, const Lin& b, i64 k = 1)
{
	Lin r;
	r.c = wadd(a.c, wmul(k, b.c));
	if (b.t.empty()) { r.t = a.t; return r; }
	size_t i = 0, j = 0;
	while (i < a.t.size() || j < b.t.size())
	{
		if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
		else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({ b.t[j].first, k * b.t[j].second }); j++; }
		else
		{
			i64 v = a.t[i].second + k * b.t[j].second;
			if (v) r.t.push_back({ a.t[i].first, v });
			i++; j++;
		}
	}
	return r;
}
static Lin sub(const Lin& a, const Lin& b) { return add(a, b, -1); }
static Lin mul(const Lin& a, i64 k)
{
	Lin r;
	if (!k) return r;
	r.c = wmul(a.c, k);
	for (auto& p : a.t) r.t.push_back({ p.first, p.second * k });
	return r;
}
static bool divExact(const Lin& a, i64 k, Lin& out)
{
	if (a.c % k) return false;
	for (auto& p : a.t) if (p.second % k) return false;
	out = Lin(a.c / k);
	for (auto& p : a.t) out.t.push_back({ p.first, p.second / k });
	return true;
}
static string str(const Lin& a)
{
	string s;
	for (auto& p : a.t) s += (p.second == 1 ? "+p" : (p.second == -1 ? "-p" : "+" + std::to_string(p.second) + "p")) + std::to_string(p.first);
	if (a.c || a.t.empty()) s += (a.c >= 0 && !s.empty() ? "+" : "") + std::to_string(a.c);
	return s;
}

// ---------------------------------------------------------------------------------- values
enum class VK : uint8_t { Undef, Int, Ptr, Elem, Term, Agg, Comp, Func };
struct Val;
struct ElemTab { int obj; Lin pos; std::vector<i64> out; };
struct TermNode;
struct Val
{
	VK k = VK::Undef;
	uint8_t w = 0;             // Int/Elem width in bits
	int obj = -1;              // Ptr
	Lin lin;                   // Int: value; Ptr: byte offset
	sp<ElemTab> et;            // Elem
	sp<TermNode> term;         // Term
	sp<std::vector<Val>> agg;  // Agg
	sp<std::vector<std::pair<i64, std::pair<Val, int>>>> comp; // Comp: (offset, (value, size))
	const Function* fn = nullptr;
};
struct TermNode { string kind; std::vector<Val> args; };
static i64 sext(i64 v, unsigned w)
{
	if (w >= 64 || w == 0) return v;
	u64 m = ((u64)1 << w) - 1;
	u64 x = (u64)v & m;
	if (x >> (w - 1)) x |= ~m;
	return (i64)x;
}
static u64 zext(i64 v, unsigned w) { return w >= 64 ? (u64)v : (u64)v & (((u64)1 << w) - 1); }
static Val vInt(Lin l, unsigned w)
{
	Val v; v.k = VK::Int; v.w = w; v.lin = std::move(l);
	if (v.lin.isConst()) v.lin.c = sext(v.lin.c, w);
	return v;
}
static Val vPtr(int obj, Lin off) { Val v; v.k = VK::Ptr; v.w = 64; v.obj = obj; v.lin = std::move(off); return v; }
static Val vTerm(string kind, std::vector<Val> args = {})
{
	Val v; v.k = VK::Term; v.w = 64;
	v.term = std::make_shared<TermNode>(TermNode{ std::move(kind), std::move(args) });
	return v;
}
static Val vBool(bool b) { return vInt(b ? 1 : 0, 1); }

// ---------------------------------------------------------------------------------- zone domain
struct Zone
{
	std::vector<int> ids;            // index -> symbol (0 = the constant zero)
	std::unordered_map<int, int> ix; // symbol -> index
	std::vector<std::vector<i64>> d; // d[i][j] >= x_i - x_j
	Zone() { ids.push_back(-1); d = { { 0 } }; }
	int index(int s)
	{
		auto it = ix.find(s);
		if (it != ix.end()) return it->second;
		int n = (int)ids.size();
		ids.push_back(s); ix[s] = n;
		for (auto& r : d) r.push_back(INF);
		d.push_back(std::vector<i64>(n + 1, INF));
		d[n][n] = 0;
		return n;
	}
	bool le(int i, int j, i64 c) // x_i - x_j <= c
	{
		if (d[i][j] <= c) return true;
		if (d[j][i] < INF && d[j][i] + c < 0) return false;
		int n = (int)d.size();
		for (int a = 0; a < n; a++)
		{
			if (d[a][i] >= INF) continue;
			for (int b = 0; b < n; b++)
			{
				if (d[j][b] >= INF) continue;
				i64 v = d[a][i] + c + d[j][b];
				if (v < d[a][b]) d[a][b] = v;
			}
		}
		for (int a = 0; a < n; a++) if (d[a][a] < 0) return false;
		return true;
	}
};

// ---------------------------------------------------------------------------------- memory
enum class OK : uint8_t { Stack, Global, Heap, Input, Func, Null };
struct Cell { Val v; int size; };
struct Obj
{
	OK kind = OK::Stack;
	i64 size = 0;
	bool dead = false, readonly = false;
	string name;
	std::map<i64, Cell> cells;
	// Input objects
	int esz = 1; int lenSym = -1; bool zterm = false;
	sp<std::vector<i64>> universe;
};
struct Frame
{
	const Function* f;
	const BasicBlock* bb; const BasicBlock* prev = nullptr;
	BasicBlock::const_iterator it;
	std::vector<Val> regs;
	std::vector<int> allocas;
	const CallBase* call = nullptr;
};
struct List { std::vector<Val> items; bool sizeSeen = false; };
struct Out { string tag; Val v; string loc; };
struct Thread
{
	std::vector<sp<Frame>> stack;
	bool done = false, blocked = false;
	std::vector<Out> out;
	List trace;
	bool noTrace = false;
	bool noteQueries = false; // which operand is asked where is an observation as well
};
struct LogNode { string s; sp<LogNode> up; };

struct Oracle { int kind; Lin np; Lin b, e; bool emptySpan = false; }; // 0 fail, 1 ok, 2 lookahead only
struct State
{
	Zone z;
	std::map<int, Lin> subst;
	int nsym = 0;
	std::map<int, sp<Obj>> mem;
	int nobj = 1000000;
	std::map<int, sp<List>> lists;
	int nlist = 1;
	Thread th[2];
	int cur = 0;
	std::map<std::pair<int, std::pair<Lin, Lin>>, Oracle> oracle; // (id, pos, end)
	std::map<std::pair<int, Lin>, sp<std::vector<uint8_t>>> esets;
	std::map<string, int> choices;
	std::vector<std::pair<std::pair<int, Val>, bool>> preds;
	std::map<string, int> opaque; // sign of undecidable linear forms
	std::map<string, Lin> fresh;
	sp<LogNode> log;
	u64 steps = 0, sinceFork = 0;
	int depth = 0;
	bool jumped = false; // its counters were moved on
};

struct Alt { string desc; std::function<bool(State&)> apply; };
struct NeedFork { std::vector<Alt> alts; };
struct Stop { string cat, msg; };         // a violation that ends this path
struct Unsupported { string msg; };
struct Prune {};

// ---------------------------------------------------------------------------------- globals
static Module* M;
static const DataLayout* DL;
static std::map<const GlobalVariable*, int> gvObj;
static std::map<int, sp<Obj>> gObjs; // immutable, shared by all states
static std::map<int, const GlobalVariable*> objGv;
static int nextG = 1;
static std::map<const Function*, int> fnObj;
static std::map<int, const Function*> objFn;
struct FnInfo { std::unordered_map<const BasicBlock*, std::vector<char>> liveOut; std::unordered_map<const Instruction*, sp<std::vector<char>>> liveAt; bool liveDone = false; DenseMap<const Value*, int> slot; int n = 0; i64 maxConst = 0; bool k3 = false; string name; };
static std::unordered_map<const Function*, sp<FnInfo>> fnInfos;
static u64 STEP_LIMIT = 4000000;
static std::set<const Function*> executedK3;

static bool isLib(const Function& f)
{
	// a function defined in a header of the analysed library (decided from its debug location)
	if (auto* s = f.getSubprogram())
	{
		StringRef fn = s->getFilename(), d = s->getDirectory();
		return fn.contains("k3/tok3n") || fn.contains("/examples/") || d.contains("k3/tok3n");
	}
	return f.getName().contains("2k35tok3n");
}
static FnInfo& info(const Function* f)
{
	auto& p = fnInfos[f];
	if (p) return *p;
	p = std::make_shared<FnInfo>();
	for (auto& a : f->args()) p->slot[&a] = p->n++;
	for (auto& i : instructions(*f)) p->slot[&i] = p->n++;
	p->k3 = isLib(*f);
	p->name = demangle(f->getName().str());
	if (p->k3)
		for (auto& i : instructions(*f))
		{
			auto see = [&](const Value* v) { if (auto* c = dyn_cast<ConstantInt>(v)) if (c->getBitWidth() <= 64) { i64 x = c->getSExtValue(); if (x < 0) x = -x; if (x > p->maxConst && x <= 70000) p->maxConst = x; } };
			if (isa<ICmpInst>(i) || isa<SwitchInst>(i)) for (auto& o : i.operands()) see(o);
			else if (auto* b = dyn_cast<BinaryOperator>(&i))
			{
				auto op = b->getOpcode();
				if (op == Instruction::And || op == Instruction::URem || op == Instruction::SRem || op == Instruction::UDiv) see(b->getOperand(1));
				if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)
					if (auto* c = dyn_cast<ConstantInt>(b->getOperand(1))) { i64 x = c->getZExtValue(); if (x < 17) p->maxConst = std::max<i64>(p->maxConst, (i64)1 << x); }
			}
			else if (auto* t = dyn_cast<TruncInst>(&i))
			{
				unsigned w = t->getType()->getIntegerBitWidth(), s = t->getSrcTy()->getIntegerBitWidth();
				if (s == 64 && (w == 8 || w == 16)) p->maxConst = std::max<i64>(p->maxConst, (i64)1 << w);
			}
		}
	return *p;
}
// registers that may still be read at or after instruction i
static const std::vector<char>& liveBefore(const Function* f, const Instruction* at)
{
	FnInfo& fi = info(f);
	auto use = [&](std::vector<char>& l, const Value* v) { auto it = fi.slot.find(v); if (it != fi.slot.end()) l[it->second] = 1; };
	auto back = [&](std::vector<char>& l, const Instruction& i) {
		auto it = fi.slot.find(&i);
		if (it != fi.slot.end()) l[it->second] = 0;
		if (!isa<PHINode>(i)) for (auto& o : i.operands()) use(l, o);
	};
	if (!fi.liveDone)
	{
		fi.liveDone = true;
		std::unordered_map<const BasicBlock*, std::vector<char>> in;
		for (auto& b : *f) { fi.liveOut[&b].assign(fi.n, 0); in[&b].assign(fi.n, 0); }
		bool ch = true;
		while (ch)
		{
			ch = false;
			for (auto bi = f->end(); bi != f->begin();)
			{
				--bi;
				const BasicBlock& b = *bi;
				std::vector<char> o(fi.n, 0);
				for (auto* s : successors(&b))
				{
					auto& si = in[s];
					for (int k = 0; k < fi.n; k++) o[k] |= si[k];
					for (auto& p : s->phis()) { auto it = fi.slot.find(&p); if (it != fi.slot.end()) o[it->second] = 0; }
					for (auto& p : s->phis()) use(o, p.getIncomingValueForBlock(&b));
				}
				std::vector<char> l = o;
				for (auto ii = b.rbegin(); ii != b.rend(); ++ii) { if (isa<PHINode>(*ii)) { continue; } back(l, *ii); }
				if (o != fi.liveOut[&b] || l != in[&b]) { ch = true; fi.liveOut[&b] = o; in[&b] = l; }
			}
		}
	}
	auto& r = fi.liveAt[at];
	if (!r)
	{
		r = std::make_shared<std::vector<char>>(fi.liveOut[at->getParent()]);
		for (auto ii = at->getParent()->rbegin(); ii != at->getParent()->rend(); ++ii)
		{
			back(*r, *ii);
			if (&*ii == at) break;
		}
	}
	return *r;
}
static string locOf(const Instruction* i)
{
	if (auto& dl = i->getDebugLoc())
	{
		string s = dl->getFilename().str();
		auto p = s.find("include/k3/");
		if (p != string::npos) s = s.substr(p);
		return s + ":" + std::to_string(dl.getLine());
	}
	return "?";
}

static string esc(const string& s)
{
	string r;
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r;
}

// ---------------------------------------------------------------------------------- the interpreter
struct Violation { string cat, msg, loc, path; };
struct Analyzer
{
	State* S = nullptr;
	string entry;
	i64 K = 4;
	size_t keepItems = 2; // how many trailing items of a list are kept exactly when states are merged
	std::vector<Violation> viols;
	std::set<string> violKeys;
	std::vector<string> unsup;
	u64 paths = 0, forks = 0, merged = 0, totalSteps = 0, statesN = 0, pairsChecked = 0;
	u64 maxPaths = 200000, maxForks = 400000;
	double tLimit = 60;
	std::unordered_set<string> visited;
	// counters: followed only near the values at which the analysed code may change its mind; in between an iteration repeats, so a state
	// that is an earlier one but for its counters is moved on to the next such value
	bool accel = false, counters = false;
	std::set<i64> turns;
	std::unordered_map<string, std::vector<std::pair<std::vector<i64>, sp<LogNode>>>> before;
	std::set<string> jumped;
	bool exactInt(i64 c) const
	{
		if (c <= K && c >= -K) return true;
		if (!accel) return false;
		auto it = turns.lower_bound(c - 3);
		return it != turns.end() && *it <= c + 3;
	}
	struct Slot { int t; size_t frame, reg; int obj; i64 off; int input; bool fixed; };
	void bigScalars(State& st, std::vector<Slot>& where, std::vector<i64>& vals)
	{
		std::function<void(const Val&, Slot)> see = [&](const Val& v, Slot at) {
			if (v.k == VK::Int && v.w >= 8) { Lin l = norm(v.lin); if (l.isConst() && !exactInt(l.c)) { where.push_back(at); vals.push_back(l.c); } }
			else if (v.k == VK::Ptr && v.obj)
			{
				// positions: see jump
				auto it = st.mem.find(v.obj);
				if (it == st.mem.end() || it->second->kind != OK::Input) return;
				Lin l = norm(v.lin);
				if (!l.isConst())
				{
					for (auto& t : l.t) { where.push_back(at); where.back().fixed = true; vals.push_back(t.first); }
					if (l.t.size() == 1 && !l.c) { vals.back() = -1; return; }
					at.fixed = true;
				}
				at.input = v.obj;
				where.push_back(at); vals.push_back(l.c);
			}
			else if (v.k == VK::Agg) { at.fixed = true; for (auto& x : *v.agg) see(x, at); }
			else if (v.k == VK::Comp) { at.fixed = true; for (auto& x : *v.comp) see(x.second.first, at); }
		};
		for (int t = 0; t < 2; t++)
			for (size_t i = 0; i < st.th[t].stack.size(); i++)
			{
				auto& f = *st.th[t].stack[i];
				if (f.it == f.bb->end()) continue;
				auto& live = liveBefore(f.f, &*f.it);
				for (size_t k = 0; k < f.regs.size(); k++) if (live[k]) see(f.regs[k], Slot{ t, i, k, -1, 0, 0, false });
			}
		for (auto& o : st.mem)
			if (!o.second->dead && o.second->kind != OK::Input)
				for (auto& c : o.second->cells) see(c.second.v, Slot{ -1, 0, 0, o.first, c.first, 0, false });
	}
	sp<State> jump(State& st, const std::vector<i64>& before)
	{
		std::vector<Slot> where; std::vector<i64> now;
		bigScalars(st, where, now);
		if (now.size() != before.size() || now.empty()) return nullptr;
		i64 k = -1;
		for (size_t i = 0; i < now.size(); i++)
		{
			i64 d = now[i] - before[i];
			if (!d) continue;
			if (where[i].fixed || where[i].input) return nullptr; // what is known of a position would have to move along
			i64 room;
			auto it = turns.upper_bound(now[i]);
			if (d > 0) { if (it == turns.end()) continue; room = *it - 3 - now[i]; }
			else { if (it == turns.begin()) continue; --it; room = now[i] - *it - 3; d = -d; }
			if (d > 64) return nullptr;
			if (room / d < k || k < 0) k = room / d;
		}
		if (k <= 0) return nullptr;
		auto c = std::make_shared<State>(st);
		for (size_t i = 0; i < now.size(); i++)
		{
			i64 d = now[i] - before[i];
			if (!d) continue;
			auto& at = where[i];
			if (at.t >= 0)
			{
				auto& f = c->th[at.t].stack[at.frame];
				f = std::make_shared<Frame>(*f);
				f->regs[at.reg].lin.c += k * d;
			}
			else
			{
				auto& o = c->mem[at.obj];
				o = std::make_shared<Obj>(*o);
				o->cells[at.off].v.lin.c += k * d;
			}
		}
		c->th[0].blocked = c->th[1].blocked = false;
		c->jumped = true;
		c->log = std::make_shared<LogNode>(LogNode{ "the same " + std::to_string(k) + " times more", st.log });
		return c;
	}

	// ---------------------------------------------------------------- linear reasoning
	Lin norm(const Lin& a)
	{
		State& s = *S;
		bool need = false;
		for (auto& p : a.t) if (s.subst.count(p.first)) need = true;
		if (!need) return a;
		Lin r(a.c);
		for (auto& p : a.t)
		{
			auto it = s.subst.find(p.first);
			if (it == s.subst.end()) { Lin l; l.t.push_back(p); r = add(r, l); }
			else r = add(r, norm(it->second), p.second);
		}
		return r;
	}
	// range of a - b etc. for d
	void range(const Lin& d, i64& lo, i64& hi)
	{
		Zone& z = S->z;
		lo = hi = d.c;
		// pair positive and negative coefficients greedily
		std::vector<std::pair<int, i64>> pos, neg;
		for (auto& p : d.t) (p.second > 0 ? pos : neg).push_back({ p.first, p.second > 0 ? p.second : -p.second });
		auto acc = [&](int i, int j, i64 k) {
			i64 up = z.d[i][j], dn = z.d[j][i];
			if (up >= INF || hi >= INF) hi = INF; else hi += k * up;
			if (dn >= INF || lo <= -INF) lo = -INF; else lo -= k * dn;
		};
		size_t i = 0, j = 0;
		while (i < pos.size() || j < neg.size())
		{
			if (i < pos.size() && j < neg.size())
			{
				i64 k = std::min(pos[i].second, neg[j].second);
				acc(z.index(pos[i].first), z.index(neg[j].first), k);
				if (!(pos[i].second -= k)) i++;
				if (!(neg[j].second -= k)) j++;
			}
			else if (i < pos.size()) { acc(z.index(pos[i].first), 0, pos[i].second); i++; }
			else { acc(0, z.index(neg[j].first), neg[j].second); j++; }
		}
	}
	static i64 fdiv(i64 a, i64 b) { i64 q = a / b; return (a % b && (a < 0) != (b < 0)) ? q - 1 : q; }
	bool isDiff(const Lin& d, int& x, int& y, i64& g)
	{
		if (d.t.size() == 1) { if (d.t[0].second > 0) { x = d.t[0].first; y = -1; g = d.t[0].second; } else { x = -1; y = d.t[0].first; g = -d.t[0].second; } return true; }
		if (d.t.size() == 2 && d.t[0].second == -d.t[1].second)
		{
			if (d.t[0].second > 0) { x = d.t[0].first; y = d.t[1].first; g = d.t[0].second; }
			else { x = d.t[1].first; y = d.t[0].first; g = d.t[1].second; }
			return true;
		}
		return false;
	}
	// add d <= 0; returns false when infeasible
	bool assumeLe0(State& s, const Lin& d0)
	{
		State* save = S; S = &s;
		Lin d = norm(d0);
		bool ok = true;
		int x, y; i64 g;
		if (d.isConst()) ok = d.c <= 0;
		else if (isDiff(d, x, y, g))
		{
			int i = x < 0 ? 0 : s.z.index(x), j = y < 0 ? 0 : s.z.index(y);
			ok = s.z.le(i, j, fdiv(-d.c, g));
			if (ok) ok = equate(s);
		}
		S = save;
		return ok;
	}
	bool equate(State& s)
	{
		// turn fixed differences into substitutions, and merge facts about positions that became equal
		bool changed = false;
		int n = (int)s.z.ids.size();
		for (int i = 1; i < n; i++)
		{
			if (s.subst.count(s.z.ids[i])) continue;
			for (int j = 0; j < i; j++)
			{
				if (j && s.subst.count(s.z.ids[j])) continue;
				if (s.z.d[i][j] < INF && s.z.d[j][i] < INF && s.z.d[i][j] == -s.z.d[j][i])
				{
					// x_i = x_j + c
					int si = s.z.ids[i], sj = j ? s.z.ids[j] : -1;
					i64 c = s.z.d[i][j];
					Lin l = j ? Lin::sym(sj) : Lin(0);
					l.c = c;
					s.subst[si] = l;
					changed = true;
					break;
				}
			}
		}
		if (!changed) return true;
		return renorm(s);
	}
	bool renorm(State& s)
	{
		State* save = S; S = &s;
		std::map<std::pair<int, Lin>, sp<std::vector<uint8_t>>> es;
		bool ok = true;
		for (auto& p : s.esets)
		{
			auto key = std::make_pair(p.first.first, norm(p.first.second));
			auto it = es.find(key);
			if (it == es.end()) es[key] = p.second;
			else
			{
				auto v = std::make_shared<std::vector<uint8_t>>(*it->second);
				bool any = false;
				for (size_t i = 0; i < v->size(); i++) { (*v)[i] &= (*p.second)[i]; any |= (*v)[i]; }
				it->second = v;
				if (!any) ok = false;
			}
		}
		s.esets = std::move(es);
		decltype(s.oracle) o;
		for (auto& p : s.oracle)
		{
			auto key = std::make_pair(p.first.first, std::make_pair(norm(p.first.second.first), norm(p.first.second.second)));
			auto it = o.find(key);
			if (it == o.end()) o[key] = p.second;
			else if (it->second.kind != p.second.kind) ok = false;
		}
		s.oracle = std::move(o);
		S = save;
		return ok;
	}
	bool assumeLt0(State& s, const Lin& d) { Lin e = d; e.c += 1; return assumeLe0(s, e); }
	bool assumeEq0(State& s, const Lin& d) { return assumeLe0(s, d) && assumeLe0(s, mul(d, -1)); }
	// possible signs: bit0 neg, bit1 zero, bit2 pos
	int signs(const Lin& d0)
	{
		Lin d = norm(d0);
		if (d.isConst()) return d.c < 0 ? 1 : d.c == 0 ? 2 : 4;
		auto it = S->opaque.find(str(d));
		if (it != S->opaque.end()) return it->second;
		int x, y; i64 g;
		i64 lo, hi;
		range(d, lo, hi);
		int r = 0;
		if (lo < 0) r |= 1;
		if (hi > 0) r |= 4;
		if (lo <= 0 && hi >= 0)
		{
			if (isDiff(d, x, y, g)) { if (d.c % g == 0) r |= 2; }
			else r |= 2;
		}
		return r ? r : 2;
	}
	std::vector<Alt> signAlts(const Lin& d0, int mask, const std::vector<int>& groups)
	{
		Lin d = norm(d0);
		int x, y; i64 g;
		bool diff = isDiff(d, x, y, g);
		std::vector<Alt> a;
		for (int grp : groups)
		{
			int m = grp & mask;
			if (!m) continue;
			string desc = "[" + str(d) + (m == 1 ? "<0" : m == 2 ? "==0" : m == 4 ? ">0" : m == 3 ? "<=0" : m == 6 ? ">=0" : "!=0") + "]";
			a.push_back({ desc, [this, d, m, diff](State& s) {
				if (!diff) { s.opaque[str(d)] = m; }
				if (m == 1) return assumeLt0(s, d);
				if (m == 2) return diff ? assumeEq0(s, d) : true;
				if (m == 4) return assumeLt0(s, mul(d, -1));
				if (m == 3) return assumeLe0(s, d);
				if (m == 6) return assumeLe0(s, mul(d, -1));
				return true;
			} });
		}
		return a;
	}
	bool decideNeg(const Lin& d) // d < 0 ?
	{
		int m = signs(d);
		if (m == 1) return true;
		if (!(m & 1)) return false;
		throw NeedFork{ signAlts(d, m, { 1, 6 }) };
	}
	bool decideEq(const Lin& d)
	{
		int m = signs(d);
		if (m == 2) return true;
		if (!(m & 2)) return false;
		throw NeedFork{ signAlts(d, m, { 1, 2, 4 }) };
	}
	bool mustLe(const Lin& d) { return !(signs(d) & 4); }

	// ---------------------------------------------------------------- elements
	sp<Obj> objp(int id)
	{
		auto it = S->mem.find(id);
		if (it != S->mem.end()) return it->second;
		auto g = gObjs.find(id);
		if (g != gObjs.end()) return g->second;
		return nullptr;
	}
	const std::vector<uint8_t>* eset(int obj, const Lin& pos)
	{
		auto it = S->esets.find({ obj, pos });
		return it == S->esets.end() ? nullptr : it->second.get();
	}
	std::map<i64, std::vector<int>> elemGroups(const Val& v)
	{
		Lin pos = norm(v.et->pos);
		auto* a = eset(v.et->obj, pos);
		std::map<i64, std::vector<int>> g;
		for (int i = 0; i < (int)v.et->out.size(); i++)
			if (!a || (*a)[i]) g[v.et->out[i]].push_back(i);
		return g;
	}
	Val concretize(const Val& v)
	{
		if (v.k != VK::Elem) return v;
		auto g = elemGroups(v);
		if (g.empty()) throw Prune{};
		if (g.size() == 1) return vInt(g.begin()->first, v.w);
		std::vector<Alt> alts;
		Lin pos = norm(v.et->pos);
		int obj = v.et->obj;
		size_t n = v.et->out.size();
		auto uni = objp(obj)->universe;
		for (auto& p : g)
		{
			auto ids = p.second;
			string d = "e" + (obj != inputObj(0) ? std::to_string(obj - 500000) : string()) + "[" + str(pos) + "]";
			if (ids.size() == 1) d += "=" + std::to_string((*uni)[ids[0]]);
			else d += "~{" + std::to_string((*uni)[ids[0]]) + "..#" + std::to_string(ids.size()) + "}";
			alts.push_back({ d, [=](State& s) {
				auto set = std::make_shared<std::vector<uint8_t>>(n, 0);
				for (int i : ids) (*set)[i] = 1;
				s.esets[{ obj, pos }] = set;
				return true;
			} });
		}
		throw NeedFork{ alts };
	}
	static int inputObj(int which) { return 500000 + which; }

	// ---------------------------------------------------------------- objects
	Obj& wobj(int id)
	{
		auto it = S->mem.find(id);
		if (it == S->mem.end()) throw Stop{ "oob", "write through a dangling or read-only pointer" };
		if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
		return *it->second;
	}
	int newObj(OK k, i64 size, const string& name)
	{
		int id = S->nobj++;
		auto o = std::make_shared<Obj>();
		o->kind = k; o->size = size; o->name = name;
		S->mem[id] = o;
		return id;
	}
	int globalObj(const GlobalVariable* g)
	{
		auto it = gvObj.find(g);
		if (it != gvObj.end()) return it->second;
		int id = nextG++;
		gvObj[g] = id;
		objGv[id] = g;
		auto o = std::make_shared<Obj>();
		o->kind = OK::Global; o->name = g->getName().str();
		o->size = DL->getTypeAllocSize(g->getValueType());
		o->readonly = g->isConstant();
		gObjs[id] = o;
		if (g->hasInitializer()) initCells(*o, 0, g->getInitializer());
		return id;
	}
	void putCell(Obj& o, i64 off, const Val& v, int size)
	{
		// drop overlapped cells, keeping the parts of concrete ones that stay visible
		auto it = o.cells.lower_bound(off);
		if (it != o.cells.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) it = p; }
		std::vector<std::pair<i64, Cell>> keep;
		while (it != o.cells.end() && it->first < off + size)
		{
			i64 b = it->first, e = b + it->second.size;
			const Val& cv = it->second.v;
			if ((b < off || e > off + size) && cv.k == VK::Int && cv.lin.isConst())
			{
				auto bytes = [&](i64 x, i64 y) { keep.push_back({ x, { vInt((i64)((u64)cv.lin.c >> (8 * (x - b))), (unsigned)(8 * (y - x))), (int)(y - x) } }); };
				if (b < off) bytes(b, off);
				if (e > off + size) bytes(off + size, e);
			}
			it = o.cells.erase(it);
		}
		for (auto& k : keep) o.cells[k.first] = k.second;
		o.cells[off] = { v, size };
	}
	void initCells(Obj& o, i64 off, const Constant* c)
	{
		Type* t = c->getType();
		if (isa<UndefValue>(c)) return;
		if (auto* st = dyn_cast<StructType>(t))
		{
			auto* sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); i++) initCells(o, off + (i64)sl->getElementOffset(i), c->getAggregateElement(i));
			return;
		}
		if (auto* at = dyn_cast<ArrayType>(t))
		{
			i64 es = DL->getTypeAllocSize(at->getElementType());
			for (u64 i = 0; i < at->getNumElements(); i++) initCells(o, off + (i64)i * es, c->getAggregateElement((unsigned)i));
			return;
		}
		putCell(o, off, constVal(c), (int)DL->getTypeStoreSize(t));
	}
	int funcObj(const Function* f)
	{
		auto it = fnObj.find(f);
		if (it != fnObj.end()) return it->second;
		int id = nextG++;
		fnObj[f] = id; objFn[id] = f;
		auto o = std::make_shared<Obj>();
		o->kind = OK::Func; o->name = f->getName().str(); o->readonly = true;
		gObjs[id] = o;
		return id;
	}
	Val constVal(const Constant* c)
	{
		if (auto* i = dyn_cast<ConstantInt>(c))
		{
			if (i->getBitWidth() <= 64) return vInt(i->getSExtValue(), i->getBitWidth());
			if (i->getValue().getSignificantBits() <= 64) return vInt(i->getValue().getSExtValue(), 64);
			throw Unsupported{ "wide integer constant" };
		}
		if (isa<ConstantPointerNull>(c)) return vPtr(0, 0);
		if (isa<UndefValue>(c))
		{
			if (c->getType()->isAggregateType()) { Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>(c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements()); return v; }
			Val v; return v;
		}
		if (auto* g = dyn_cast<GlobalVariable>(c)) return vPtr(globalObj(g), 0);
		if (auto* f = dyn_cast<Function>(c)) return vPtr(funcObj(f), 0);
		if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
		if (c->getType()->isAggregateType())
		{
			Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
			unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
			for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
			return v;
		}
		if (auto* e = dyn_cast<ConstantExpr>(c))
		{
			if (auto* g = dyn_cast<GEPOperator>(e))
			{
				Val b = constVal(cast<Constant>(g->getPointerOperand()));
				APInt off(64, 0);
				if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{ "constant gep" };
				b.lin = add(b.lin, Lin(off.getSExtValue()));
				return b;
			}
			if (e->getOpcode() == Instruction::BitCast || e->getOpcode() == Instruction::AddrSpaceCast) return constVal(e->getOperand(0));
			if (e->getOpcode() == Instruction::PtrToInt) return constVal(e->getOperand(0));
			if (e->getOpcode() == Instruction::IntToPtr) { Val v = constVal(e->getOperand(0)); if (v.k == VK::Int) return vPtr(0, v.lin); return v; }
		}
		if (auto* f = dyn_cast<ConstantFP>(c))
		{
			i64 bits = (i64)f->getValueAPF().bitcastToAPInt().getZExtValue();
			return vTerm("fp:" + std::to_string(bits));
		}
		string s; raw_string_ostream os(s); c->print(os);
		throw Unsupported{ "constant " + s.substr(0, 80) };
	}

	// ---------------------------------------------------------------- loads and stores
	Val loadCells(const Obj& o, i64 off, int size)
	{
		auto it = o.cells.find(off);
		if (it != o.cells.end() && it->second.size == size) return it->second.v;
		auto lo = o.cells.lower_bound(off);
		if (lo != o.cells.begin()) { auto p = std::prev(lo); if (p->first + p->second.size > off) lo = p; }
		// inside one concrete cell?
		if (lo != o.cells.end() && lo->first <= off && lo->first + lo->second.size >= off + size)
		{
			const Val& cv = lo->second.v;
			if (cv.k == VK::Int && cv.lin.isConst()) return vInt((i64)((u64)cv.lin.c >> (8 * (off - lo->first))), 8 * size);
			if (cv.k == VK::Elem && lo->first == off) { Val r = cv; r.w = 8 * size; r.et = std::make_shared<ElemTab>(*cv.et); for (auto& x : r.et->out) x = sext(x, r.w); return r; }
			if (cv.k == VK::Undef) return Val();
			if (cv.k == VK::Int && lo->first == off) return truncTo(cv, 8 * size);
			throw Unsupported{ "partial load of a symbolic cell" };
		}
		bool allConst = true, any = false;
		u64 acc = 0;
		i64 covered = 0;
		for (auto i = lo; i != o.cells.end() && i->first < off + size; ++i)
		{
			any = true;
			const Val& cv = i->second.v;
			i64 b = i->first, e = b + i->second.size;
			if (b < off || e > off + size || cv.k != VK::Int || !cv.lin.isConst()) { allConst = false; continue; }
			acc |= zext(cv.lin.c, 8 * i->second.size) << (8 * (b - off));
			covered += i->second.size;
		}
		if (!any) return Val();
		if (allConst && covered == size && size <= 8) return vInt((i64)acc, 8 * size);
		Val v; v.k = VK::Comp;
		v.comp = std::make_shared<std::vector<std::pair<i64, std::pair<Val, int>>>>();
		for (auto i = lo; i != o.cells.end() && i->first < off + size; ++i)
		{
			if (i->first < off || i->first + i->second.size > off + size) throw Unsupported{ "partial composite load" };
			v.comp->push_back({ i->first - off, { i->second.v, i->second.size } });
		}
		v.w = std::min(255, 8 * size);
		return v;
	}
	void storeCells(Obj& o, i64 off, const Val& v, int size)
	{
		if (v.k == VK::Comp)
		{
			putCell(o, off, Val(), size);
			o.cells.erase(off);
			for (auto& c : *v.comp) putCell(o, off + c.first, c.second.first, c.second.second);
			return;
		}
		putCell(o, off, v, size);
		if (v.k == VK::Undef) o.cells.erase(off);
	}
	Val loadElem(sp<Obj> o, int id, const Lin& boff, int size)
	{
		Lin p;
		if (size != o->esz)
		{
			throw Unsupported{ "input element read with another width" };
		}
		if (!divExact(boff, o->esz, p)) throw Unsupported{ "misaligned input read" };
		p = norm(p);
		Lin L = Lin::sym(o->lenSym);
		if (!mustLe(mul(p, -1))) throw Stop{ "oob", "reads an element before the start of the input (index " + str(p) + ")" };
		if (o->zterm)
		{
			if (decideEq(sub(p, L))) return vInt(0, 8 * size);
			if (!mustLe(sub(p, L))) throw Stop{ "oob", "reads beyond the terminating null of the input (index " + str(p) + ")" };
		}
		else
		{
			Lin d = sub(p, L); d.c += 1; // p + 1 - L <= 0
			if (!mustLe(d)) throw Stop{ "oob", "reads an element at or beyond the end of the input (index " + str(p) + ", length " + str(norm(L)) + ")" };
		}
		Val v; v.k = VK::Elem; v.w = 8 * size;
		v.et = std::make_shared<ElemTab>();
		v.et->obj = id; v.et->pos = p; v.et->out = *o->universe;
		if (o->zterm && !eset(id, p))
		{
			auto set = std::make_shared<std::vector<uint8_t>>(o->universe->size(), 1);
			for (size_t i = 0; i < set->size(); i++) if ((*o->universe)[i] == 0) (*set)[i] = 0;
			S->esets[{ id, p }] = set;
		}
		auto g = elemGroups(v);
		if (g.size() == 1) return vInt(g.begin()->first, v.w);
		return v;
	}
	sp<Obj> checkAccess(const Val& p, const char* what)
	{
		if (p.k == VK::Undef) throw Stop{ "uninit", string(what) + " through an uninitialised pointer" };
		if (p.k != VK::Ptr) throw Unsupported{ string(what) + " through a non-pointer" };
		if (p.obj == 0) throw Stop{ "oob", string(what) + " through a null pointer" };
		auto o = objp(p.obj);
		if (!o) throw Stop{ "lifetime", string(what) + " through a pointer to an object that no longer exists" };
		if (o->dead) throw Stop{ "lifetime", string(what) + " of '" + o->name + "' outside its lifetime" };
		return o;
	}
	Val load(const Val& p, Type* t)
	{
		auto o = checkAccess(p, "read");
		if (t->isAggregateType())
		{
			Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
			if (auto* st = dyn_cast<StructType>(t))
			{
				auto* sl = DL->getStructLayout(st);
				for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.lin = add(q.lin, Lin((i64)sl->getElementOffset(i))); v.agg->push_back(load(q, st->getElementType(i))); }
			}
			else for (u64 i = 0; i < t->getArrayNumElements(); i++) { Val q = p; q.lin = add(q.lin, Lin((i64)(i * DL->getTypeAllocSize(t->getArrayElementType())))); v.agg->push_back(load(q, t->getArrayElementType())); }
			return v;
		}
		int size = (int)DL->getTypeStoreSize(t);
		if (o->kind == OK::Input) return loadElem(o, p.obj, p.lin, size);
		Lin off = norm(p.lin);
		if (!off.isConst()) off = concreteLin(off, 0, o->size);
		if (off.c < 0 || off.c + size > o->size) throw Stop{ "oob", "read outside '" + o->name + "'" };
		if (o->kind == OK::Global && !o->readonly)
		{
			auto it = objGv.find(p.obj);
			if (it != objGv.end() && !it->second->hasInitializer()) throw Unsupported{ "read of external global " + o->name };
		}
		Val v = loadCells(*o, off.c, size);
		if (t->isIntegerTy(1) || (v.k == VK::Int && t->isIntegerTy() && v.w != t->getIntegerBitWidth())) { if (v.k == VK::Int) v = truncTo(v, t->getIntegerBitWidth()); }
		return v;
	}
	Lin concreteLin(const Lin& d, i64 lo, i64 hi)
	{
		// force a symbolic offset into [lo,hi) to a constant by splitting
		i64 a, b;
		range(d, a, b);
		if (a == b) return Lin(a);
		if (a < lo) a = lo - 1;
		if (b > hi + 8) b = hi + 8;
		std::vector<Alt> alts;
		if (b - a > 4096) throw Unsupported{ "symbolic offset" };
		for (i64 x = a; x <= b; x++)
		{
			Lin e = d; e.c -= x;
			if (x == a && a < lo) { Lin f = d; f.c -= a; alts.push_back({ "[" + str(d) + "<=" + std::to_string(a) + "]", [this, f](State& s) { return assumeLe0(s, f); } }); continue; }
			alts.push_back({ "[" + str(d) + "==" + std::to_string(x) + "]", [this, e](State& s) { return assumeEq0(s, e); } });
		}
		throw NeedFork{ alts };
	}
	void store(const Val& p, const Val& v, Type* t)
	{
		auto o = checkAccess(p, "write");
		if (o->kind == OK::Input) throw Stop{ "purity", "writes to the caller's input" };
		if (o->kind == OK::Global || o->kind == OK::Func)
		{
			throw Stop{ "purity", "writes to the global object '" + demangle(o->name) + "'" };
		}
		if (t->isAggregateType())
		{
			if (v.k == VK::Undef) return;
			if (auto* st = dyn_cast<StructType>(t))
			{
				auto* sl = DL->getStructLayout(st);
				for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.lin = add(q.lin, Lin((i64)sl->getElementOffset(i))); store(q, (*v.agg)[i], st->getElementType(i)); }
			}
			else for (u64 i = 0; i < t->getArrayNumElements(); i++) { Val q = p; q.lin = add(q.lin, Lin((i64)(i * DL->getTypeAllocSize(t->getArrayElementType())))); store(q, (*v.agg)[i], t->getArrayElementType()); }
			return;
		}
		int size = (int)DL->getTypeStoreSize(t);
		Lin off = norm(p.lin);
		if (!off.isConst()) off = concreteLin(off, 0, o->size);
		if (off.c < 0 || off.c + size > o->size) throw Stop{ "oob", "write outside '" + o->name + "'" };
		Val w = v;
		if (w.k == VK::Int && w.w == 1) w = vInt(Lin((i64)(w.lin.c & 1)), 8);
		if (w.k == VK::Elem && w.w == 1) { w.et = std::make_shared<ElemTab>(*w.et); for (auto& x : w.et->out) x &= 1; w.w = 8; }
		storeCells(wobj(p.obj), off.c, w, size);
	}
	void copyMem(const Val& d, const Val& s, const Val& n)
	{
		Lin N = norm(n.lin);
		if (!N.isConst())
		{
			if (decideEq(N)) return;
			throw Unsupported{ "memory copy of symbolic size" };
		}
		if (N.c == 0) return;
		auto so = checkAccess(s, "copy from");
		auto dob = checkAccess(d, "copy to");
		if (dob->kind == OK::Global) throw Stop{ "purity", "copies into the global object '" + demangle(dob->name) + "'" };
		if (dob->kind == OK::Input) throw Stop{ "purity", "copies into the caller's input" };
		Lin doff = norm(d.lin);
		if (!doff.isConst()) throw Unsupported{ "copy to symbolic offset" };
		if (doff.c < 0 || doff.c + N.c > dob->size) throw Stop{ "oob", "copy beyond the end of '" + dob->name + "'" };
		std::vector<std::pair<i64, Cell>> cells;
		if (so->kind == OK::Input)
		{
			for (i64 i = 0; i < N.c; i += so->esz)
				cells.push_back({ i, { loadElem(so, s.obj, add(s.lin, Lin(i)), so->esz), so->esz } });
		}
		else
		{
			Lin soff = norm(s.lin);
			if (!soff.isConst()) throw Unsupported{ "copy from symbolic offset" };
			if (soff.c < 0 || soff.c + N.c > so->size) throw Stop{ "oob", "copy from beyond the end of '" + so->name + "'" };
			auto lo = so->cells.lower_bound(soff.c);
			if (lo != so->cells.begin()) { auto q = std::prev(lo); if (q->first + q->second.size > soff.c) lo = q; }
			for (auto it = lo; it != so->cells.end() && it->first < soff.c + N.c; ++it)
			{
				i64 b = std::max(it->first, soff.c), e = std::min(it->first + it->second.size, soff.c + N.c);
				if (b == it->first && e == it->first + it->second.size) cells.push_back({ b - soff.c, it->second });
				else if (it->second.v.k == VK::Int && it->second.v.lin.isConst()) cells.push_back({ b - soff.c, { vInt((i64)((u64)it->second.v.lin.c >> (8 * (b - it->first))), (unsigned)(8 * (e - b))), (int)(e - b) } });
			}
		}
		Obj& o = wobj(d.obj);
		// clear the destination
		for (auto it = o.cells.lower_bound(doff.c); it != o.cells.end() && it->first < doff.c + N.c;)
		{
			if (it->first + it->second.size <= doff.c + N.c) it = o.cells.erase(it);
			else ++it;
		}
		for (auto& c : cells) putCell(o, doff.c + c.first, c.second.v, c.second.size);
	}

	// ---------------------------------------------------------------- frames
	Thread& T() { return S->th[S->cur]; }
	Frame& F()
	{
		auto& p = T().stack.back();
		if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
		return *p;
	}
	Val get(const Value* v)
	{
		if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
		const Frame& f = *T().stack.back();
		auto& fi = info(f.f);
		auto it = fi.slot.find(v);
		if (it == fi.slot.end()) throw Unsupported{ "value" };
		return f.regs[it->second];
	}
	void set(const Value* v, Val x) { Frame& f = F(); f.regs[info(f.f).slot[v]] = std::move(x); }
	void push(const Function* f, std::vector<Val> args, const CallBase* call)
	{
		if (T().stack.size() > 400) throw Stop{ "nontermination", "recursion deeper than 400 calls" };
		auto fr = std::make_shared<Frame>();
		auto& fi = info(f);
		if (fi.k3 && S->cur == 0) executedK3.insert(f);
		fr->f = f; fr->bb = &f->getEntryBlock(); fr->it = fr->bb->begin();
		fr->regs.resize(fi.n);
		unsigned i = 0;
		for (auto& a : f->args())
		{
			if (i < args.size())
			{
				if (a.hasByValAttr())
				{
					i64 sz = (i64)DL->getTypeAllocSize(a.getParamByValType());
					int o = newObj(OK::Stack, sz, "byval " + a.getName().str());
					fr->allocas.push_back(o);
					copyMem(vPtr(o, 0), args[i], vInt(sz, 64));
					fr->regs[fi.slot[&a]] = vPtr(o, 0);
				}
				else fr->regs[fi.slot[&a]] = args[i];
			}
			i++;
		}
		fr->call = call;
		T().stack.push_back(fr);
	}
	void popFrame(Val ret)
	{
		auto fr = T().stack.back();
		for (int o : fr->allocas) S->mem.erase(o);
		T().stack.pop_back();
		if (T().stack.empty()) { T().done = true; return; }
		if (fr->call && !fr->call->getType()->isVoidTy()) set(fr->call, ret);
		F().it++;
	}
	string where()
	{
		// innermost library frame, else innermost frame
		string first;
		for (int i = (int)T().stack.size() - 1; i >= 0; i--)
		{
			auto& f = *T().stack[i];
			if (f.it == f.bb->end()) continue;
			string l = locOf(&*f.it);
			if (first.empty()) first = l + " in " + shortName(info(f.f).name);
			if (info(f.f).k3) return l + " in " + shortName(info(f.f).name);
		}
		return first;
	}
	static string shortName(string n)
	{
		for (auto p = n.find("k3::tok3n::detail::"); p != string::npos; p = n.find("k3::tok3n::detail::")) n.erase(p, 19);
		for (auto p = n.find("k3::tok3n::"); p != string::npos; p = n.find("k3::tok3n::")) n.erase(p, 11);
		if (n.size() > 220) n = n.substr(0, 217) + "...";
		return n;
	}

	// ---------------------------------------------------------------- arithmetic
	Val truncTo(const Val& v, unsigned w)
	{
		if (v.k == VK::Int)
		{
			Lin l = norm(v.lin);
			if (l.isConst()) return vInt(l.c, w);
			if (w >= v.w) { Val r = v; r.w = w; return r; }
			if (w >= 32)
			{
				// lengths are assumed to fit 31 bits when a value is narrowed to 32 bits only if it is bounded
			}
			i64 lim = w >= 62 ? INF : ((i64)1 << (w - 1));
			// in range as a non-negative value of the narrower type?
			Lin over = l; over.c -= (w >= 62 ? 0 : ((i64)1 << w));
			if (decideNeg(l)) return freshVal("trunc" + std::to_string(w) + "n:" + str(l), w, -lim, lim - 1);
			if (w < 62 && !decideNeg(over)) return freshVal("trunc" + std::to_string(w) + ":" + str(l), w, 0, ((i64)1 << w) - 1);
			Val r = v; r.lin = l; r.w = w; return r;
		}
		if (v.k == VK::Elem)
		{
			Val r = v; r.w = w; r.et = std::make_shared<ElemTab>(*v.et);
			for (auto& x : r.et->out) x = sext(x, w);
			return r;
		}
		if (v.k == VK::Undef) { Val r; return r; }
		if (v.k == VK::Comp)
		{
			// keep the low parts
			Val r; r.k = VK::Comp; r.comp = std::make_shared<std::vector<std::pair<i64, std::pair<Val, int>>>>();
			for (auto& c : *v.comp)
			{
				if (c.first == 0 && c.second.second * 8 == (int)w) return c.second.first;
				if ((c.first + c.second.second) * 8 <= (i64)w) r.comp->push_back(c);
			}
			r.w = w;
			return r;
		}
		throw Unsupported{ "trunc" };
	}
	Val freshVal(const string& key, unsigned w, i64 lo, i64 hi)
	{
		auto it = S->fresh.find(key);
		if (it != S->fresh.end()) return vInt(it->second, w);
		int s = S->nsym++;
		Lin l = Lin::sym(s);
		S->z.index(s);
		Lin a = l; a.c -= hi; assumeLe0(*S, a);
		Lin b = mul(l, -1); b.c += lo; assumeLe0(*S, b);
		S->fresh[key] = l;
		return vInt(l, w);
	}
	static i64 evalBin(unsigned op, i64 a, i64 b, unsigned w)
	{
		u64 ua = zext(a, w), ub = zext(b, w);
		switch (op)
		{
		case Instruction::Add: return sext((i64)(ua + ub), w);
		case Instruction::Sub: return sext((i64)(ua - ub), w);
		case Instruction::Mul: return sext((i64)(ua * ub), w);
		case Instruction::UDiv: if (!ub) throw Stop{ "oob", "division by zero" }; return sext((i64)(ua / ub), w);
		case Instruction::SDiv: if (!b) throw Stop{ "oob", "division by zero" }; if (b == -1) return sext(-a, w); return sext(a / b, w);
		case Instruction::URem: if (!ub) throw Stop{ "oob", "division by zero" }; return sext((i64)(ua % ub), w);
		case Instruction::SRem: if (!b) throw Stop{ "oob", "division by zero" }; if (b == -1) return 0; return sext(a % b, w);
		case Instruction::Shl: return ub >= w ? 0 : sext((i64)(ua << ub), w);
		case Instruction::LShr: return ub >= w ? 0 : sext((i64)(ua >> ub), w);
		case Instruction::AShr: return ub >= w ? (a < 0 ? -1 : 0) : sext(a >> ub, w);
		case Instruction::And: return sext((i64)(ua & ub), w);
		case Instruction::Or: return sext((i64)(ua | ub), w);
		case Instruction::Xor: return sext((i64)(ua ^ ub), w);
		}
		throw Unsupported{ "binary operator" };
	}
	Val elemMap(const Val& a, unsigned w, std::function<i64(i64)> f)
	{
		Val r = a; r.w = w; r.et = std::make_shared<ElemTab>(*a.et);
		for (auto& x : r.et->out) x = f(x);
		auto g = elemGroups(r);
		if (g.size() == 1) return vInt(g.begin()->first, w);
		return r;
	}
	bool sameElem(const Val& a, const Val& b) { return a.et->obj == b.et->obj && norm(a.et->pos) == norm(b.et->pos); }
	Val elemBin(const Val& a, const Val& b, unsigned w, std::function<i64(i64, i64)> f)
	{
		if (a.k == VK::Elem && b.k == VK::Elem)
		{
			if (sameElem(a, b))
			{
				Val r = a; r.w = w; r.et = std::make_shared<ElemTab>(*a.et);
				for (size_t i = 0; i < r.et->out.size(); i++) r.et->out[i] = f(a.et->out[i], b.et->out[i]);
				auto g = elemGroups(r);
				if (g.size() == 1) return vInt(g.begin()->first, w);
				return r;
			}
			Val x = concretize(a);
			return elemBin(x, b, w, f);
		}
		if (a.k == VK::Elem)
		{
			Lin lb = norm(b.lin);
			if (b.k == VK::Int && lb.isConst()) return elemMap(a, w, [&](i64 x) { return f(x, lb.c); });
			Val x = concretize(a); throw Unsupported{ "element combined with a symbolic value" };
		}
		Lin la = norm(a.lin);
		if (a.k == VK::Int && la.isConst() && b.k == VK::Elem) return elemMap(b, w, [&](i64 x) { return f(la.c, x); });
		throw Unsupported{ "element combined with a symbolic value" };
	}
	Val binop(unsigned op, Val a, Val b, unsigned w, const Instruction* I)
	{
		if (a.k == VK::Undef || b.k == VK::Undef)
		{
			if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) return Val();
			throw Stop{ "uninit", "arithmetic on an uninitialised value" };
		}
		if (a.k == VK::Elem || b.k == VK::Elem)
		{
			if (a.k == VK::Elem && b.k == VK::Int && !norm(b.lin).isConst()) { a = concretize(a); }
			else if (b.k == VK::Elem && a.k == VK::Int && !norm(a.lin).isConst()) { b = concretize(b); }
			else if (a.k == VK::Ptr || b.k == VK::Ptr) { a = concretize(a); b = concretize(b); }
			else return elemBin(a, b, w, [&](i64 x, i64 y) { return evalBin(op, x, y, w); });
		}
		if (a.k == VK::Term || b.k == VK::Term) { return vTerm(string("op") + std::to_string(op), { a, b }); }
		if (a.k == VK::Ptr || b.k == VK::Ptr)
		{
			if (op == Instruction::Sub && a.k == VK::Ptr && b.k == VK::Ptr)
			{
				if (a.obj == b.obj) return vInt(norm(sub(a.lin, b.lin)), w);
				// pointers to different objects: an unknown, never zero, distance
				return vTerm("ptrdiff", { a, b });
			}
			if (op == Instruction::Add && a.k == VK::Ptr && b.k == VK::Int) { Val r = a; r.lin = add(a.lin, b.lin); return r; }
			if (op == Instruction::Add && b.k == VK::Ptr && a.k == VK::Int) { Val r = b; r.lin = add(b.lin, a.lin); return r; }
			if (op == Instruction::Sub && a.k == VK::Ptr && b.k == VK::Int) { Val r = a; r.lin = sub(a.lin, b.lin); return r; }
			throw Unsupported{ "pointer arithmetic" };
		}
		if (a.k == VK::Comp || b.k == VK::Comp)
		{
			if (a.k == VK::Comp && b.k == VK::Int && op == Instruction::LShr && b.lin.isConst())
			{
				i64 sh = b.lin.c / 8;
				Val r; r.k = VK::Comp; r.w = a.w; r.comp = std::make_shared<std::vector<std::pair<i64, std::pair<Val, int>>>>();
				for (auto& c : *a.comp) if (c.first >= sh) r.comp->push_back({ c.first - sh, c.second });
				return r;
			}
			throw Unsupported{ "arithmetic on a composite value" };
		}
		Lin x = norm(a.lin), y = norm(b.lin);
		if (x.isConst() && y.isConst()) return vInt(evalBin(op, x.c, y.c, w), w);
		switch (op)
		{
		case Instruction::Add: return vInt(add(x, y), w);
		case Instruction::Sub: return vInt(sub(x, y), w);
		case Instruction::Mul:
			if (y.isConst()) return vInt(mul(x, y.c), w);
			if (x.isConst()) return vInt(mul(y, x.c), w);
			break;
		case Instruction::Shl:
			if (y.isConst()) return vInt(mul(x, (i64)1 << y.c), w);
			break;
		case Instruction::SDiv: case Instruction::UDiv:
		{
			Lin q;
			if (y.isConst() && y.c && divExact(x, y.c, q)) return vInt(q, w);
			break;
		}
		case Instruction::AShr: case Instruction::LShr:
		{
			Lin q;
			if (y.isConst() && divExact(x, (i64)1 << y.c, q)) return vInt(q, w);
			break;
		}
		case Instruction::And:
			if (y.isConst() && y.c >= 0)
			{
				if (y.c == 0) return vInt(0, w);
				return freshVal("and" + std::to_string(y.c) + ":" + str(x), w, 0, y.c);
			}
			break;
		case Instruction::URem:
			if (y.isConst() && y.c > 0) { if (y.c == 1) return vInt(0, w); return freshVal("rem" + std::to_string(y.c) + ":" + str(x), w, 0, y.c - 1); }
			break;
		case Instruction::Xor:
			if (w == 1) break;
			if (y.isConst() && y.c == -1) { Lin r = mul(x, -1); r.c -= 1; return vInt(r, w); }
			break;
		}
		return freshVal("op" + std::to_string(op) + ":" + str(x) + "," + str(y), w, (op == Instruction::UDiv || op == Instruction::LShr) ? 0 : -INF + 2, INF - 2);
	}
	static bool evalCmp(CmpInst::Predicate p, i64 a, i64 b, unsigned w)
	{
		u64 ua = zext(a, w), ub = zext(b, w);
		switch (p)
		{
		case CmpInst::ICMP_EQ: return ua == ub;
		case CmpInst::ICMP_NE: return ua != ub;
		case CmpInst::ICMP_ULT: return ua < ub;
		case CmpInst::ICMP_ULE: return ua <= ub;
		case CmpInst::ICMP_UGT: return ua > ub;
		case CmpInst::ICMP_UGE: return ua >= ub;
		case CmpInst::ICMP_SLT: return sext(a, w) < sext(b, w);
		case CmpInst::ICMP_SLE: return sext(a, w) <= sext(b, w);
		case CmpInst::ICMP_SGT: return sext(a, w) > sext(b, w);
		case CmpInst::ICMP_SGE: return sext(a, w) >= sext(b, w);
		default: throw Unsupported{ "comparison" };
		}
	}
	bool cmpLin(CmpInst::Predicate p, const Lin& d) // sign of d = a - b
	{
		switch (p)
		{
		case CmpInst::ICMP_EQ: return decideEq(d);
		case CmpInst::ICMP_NE: return !decideEq(d);
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return decideNeg(d);
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return !decideNeg(d);
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return decideNeg(mul(d, -1));
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return !decideNeg(mul(d, -1));
		default: throw Unsupported{ "comparison" };
		}
	}
	Val icmp(CmpInst::Predicate p, Val a, Val b, unsigned w)
	{
		if (a.k == VK::Undef || b.k == VK::Undef) throw Stop{ "uninit", "decides on an uninitialised value" };
		if (a.k == VK::Elem || b.k == VK::Elem)
		{
			if ((a.k == VK::Int && !norm(a.lin).isConst()) || (b.k == VK::Int && !norm(b.lin).isConst()) || a.k == VK::Ptr || b.k == VK::Ptr || a.k == VK::Term || b.k == VK::Term)
				return icmp(p, concretize(a), concretize(b), w);
			return elemBin(a, b, 1, [&](i64 x, i64 y) -> i64 { return evalCmp(p, x, y, w) ? 1 : 0; });
		}
		if (a.k == VK::Term || b.k == VK::Term)
		{
			// distances between different objects never compare equal to anything we know
			auto isPD = [](const Val& v) { return v.k == VK::Term && v.term->kind == "ptrdiff"; };
			if ((isPD(a) || isPD(b)) && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return vBool(p == CmpInst::ICMP_NE);
			if (a.k == VK::Term && b.k == VK::Term && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE))
			{
				if (eqVal(a, b)) return vBool(p == CmpInst::ICMP_EQ);
			}
			if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
			{
				// equality of opaque values: unknown but stable
				string key = "eq:" + show(a) + "==" + show(b), key2 = "eq:" + show(b) + "==" + show(a);
				if (key2 < key) key = key2;
				return vBool(choose(key, { "no", "yes" }) == (p == CmpInst::ICMP_EQ ? 1 : 0));
			}
			bool swap = p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SLE || p == CmpInst::ICMP_ULE;
			(void)swap;
			throw Unsupported{ "ordering of opaque values" };
		}
		if (a.k == VK::Ptr || b.k == VK::Ptr)
		{
			if (a.k == VK::Int) a = vPtr(0, a.lin);
			if (b.k == VK::Int) b = vPtr(0, b.lin);
			if (a.obj == b.obj) return vBool(cmpLin(p, norm(sub(a.lin, b.lin))));
			if (p == CmpInst::ICMP_EQ) return vBool(false);
			if (p == CmpInst::ICMP_NE) return vBool(true);
			// ordering of unrelated pointers: unspecified but stable
			string key = "ptrord:" + std::to_string(a.obj) + "<" + std::to_string(b.obj);
			bool flip = a.obj > b.obj;
			if (flip) key = "ptrord:" + std::to_string(b.obj) + "<" + std::to_string(a.obj);
			if (a.obj == 0 || b.obj == 0) { bool alt = (a.obj == 0); bool less = alt; switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return vBool(less); default: return vBool(!less); } }
			bool lt = choose(key, { "no", "yes" }) == 1;
			if (flip) lt = !lt;
			switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: return vBool(lt); default: return vBool(!lt); }
		}
		if (a.k == VK::Comp || b.k == VK::Comp || a.k == VK::Agg || b.k == VK::Agg) throw Unsupported{ "comparison of composite values" };
		Lin x = norm(a.lin), y = norm(b.lin);
		if (x.isConst() && y.isConst()) return vBool(evalCmp(p, x.c, y.c, w));
		// how a counter that was moved on relates to the positions is not known
		if (S->jumped && ((x.isConst() && (x.c > K || x.c < -K)) || (y.isConst() && (y.c > K || y.c < -K)))) throw Prune{};
		if (CmpInst::isUnsigned(p))
		{
			auto neg = [&](const Lin& l) { return l.isConst() ? l.c < 0 : decideNeg(l); };
			bool nx = neg(x), ny = neg(y);
			if (nx != ny) // the negative one is huge as an unsigned value
			{
				bool less = ny; // x < y
				return vBool((p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) ? less : !less);
			}
		}
		return vBool(cmpLin(p, sub(x, y)));
	}
	int choose(const string& key, std::vector<string> names)
	{
		auto it = S->choices.find(key);
		if (it != S->choices.end()) return it->second;
		std::vector<Alt> alts;
		for (int i = 0; i < (int)names.size(); i++)
			alts.push_back({ key + "=" + names[i], [key, i](State& s) { s.choices[key] = i; return true; } });
		throw NeedFork{ alts };
	}
	string show(const Val& v, int depth = 0)
	{
		switch (v.k)
		{
		case VK::Undef: return "undef";
		case VK::Int: return str(norm(v.lin));
		case VK::Ptr:
		{
			if (v.obj == 0) return "null";
			auto o = objp(v.obj);
			if (o && o->kind == OK::Input) { Lin p; if (divExact(norm(v.lin), o->esz, p)) return "in" + std::to_string(v.obj - 500000) + "+" + str(p); }
			return "&" + (o ? o->name : string("dangling")) + "+" + str(norm(v.lin));
		}
		case VK::Elem: return "e[" + str(norm(v.et->pos)) + "]";
		case VK::Term:
		{
			static const std::map<string, string> names = { { "c1", "default" }, { "c2", "moved-from" }, { "c3", "cons" }, { "c4", "nil" }, { "c5", "some" }, { "c6", "none" }, { "c7", "alternative" }, { "c8", "pair" }, { "c9", "call" }, { "c10", "construct" }, { "c11", "array" }, { "c12", "unit" } };
			string s = v.term->kind;
			if (auto nm = names.find(s); nm != names.end()) s = nm->second;
			if (!v.term->args.empty())
			{
				s += "(";
				for (size_t i = 0; i < v.term->args.size(); i++) s += (i ? "," : "") + (depth > 12 ? string("..") : show(v.term->args[i], depth + 1));
				s += ")";
			}
			return s;
		}
		default: return "?";
		}
	}
	bool eqVal(const Val& a, const Val& b)
	{
		if (a.k != b.k) return false;
		switch (a.k)
		{
		case VK::Undef: return true;
		case VK::Int:
		{
			Lin d = norm(sub(a.lin, b.lin));
			return decideEq(d);
		}
		case VK::Ptr: return a.obj == b.obj && decideEq(norm(sub(a.lin, b.lin)));
		case VK::Term:
			if (a.term == b.term) return true;
			if (a.term->kind != b.term->kind || a.term->args.size() != b.term->args.size()) return false;
			for (size_t i = 0; i < a.term->args.size(); i++) if (!eqVal(a.term->args[i], b.term->args[i])) return false;
			return true;
		case VK::Elem: return sameElem(a, b) && a.et->out == b.et->out;
		default: return false;
		}
	}
	Val forceInt(const Val& v)
	{
		if (v.k == VK::Elem) return concretize(v);
		return v;
	}
	bool truth(const Val& c)
	{
		Val v = c;
		if (v.k == VK::Undef) throw Stop{ "uninit", "branches on an uninitialised value" };
		if (v.k == VK::Elem) v = concretize(v);
		if (v.k == VK::Int)
		{
			Lin l = norm(v.lin);
			if (l.isConst()) return l.c & 1;
			return !decideEq(l);
		}
		throw Unsupported{ "branch condition" };
	}

	// ---------------------------------------------------------------- natives
	Lin elemPos(const Val& p, sp<Obj>& o)
	{
		if (p.k != VK::Ptr) throw Stop{ "uninit", "an uninitialised or invalid pointer is used as an input position" };
		o = p.obj ? objp(p.obj) : nullptr;
		if (!o || o->kind != OK::Input) throw Stop{ "foreign", "a position that is not inside the caller's input (" + show(p) + ") is used as an input position" };
		Lin q;
		if (!divExact(norm(p.lin), o->esz, q)) throw Unsupported{ "misaligned position" };
		return q;
	}
	i64 cint(const Val& v)
	{
		if (v.k != VK::Int || !norm(v.lin).isConst()) throw Unsupported{ "expected a constant argument" };
		return norm(v.lin).c;
	}
	Lin lint(const Val& v)
	{
		if (v.k == VK::Undef) throw Stop{ "uninit", "an uninitialised size is used" };
		if (v.k == VK::Elem) { return concretize(v).lin; }
		if (v.k != VK::Int) throw Unsupported{ "expected an integer argument" };
		return norm(v.lin);
	}
	List& wlist(int h)
	{
		auto it = S->lists.find(h);
		if (it == S->lists.end()) throw Unsupported{ "bad list handle" };
		if (it->second.use_count() > 1) it->second = std::make_shared<List>(*it->second);
		return *it->second;
	}
	Oracle& query(int id, int flags, const Val& data, const Val& size)
	{
		sp<Obj> o;
		Lin pos = elemPos(data, o);
		Lin n = lint(size);
		Lin L = Lin::sym(o->lenSym);
		Lin end = norm(add(pos, n));
		if (!mustLe(mul(pos, -1))) throw Stop{ "oob", "a sub-parser is given a range that starts before the input" };
		if (!mustLe(mul(n, -1))) throw Stop{ "oob", "a sub-parser is given a range of negative size (" + str(n) + ")" };
		if (!mustLe(sub(end, L))) throw Stop{ "oob", "a sub-parser is given a range that ends beyond the input" };
		auto key = std::make_pair(id, std::make_pair(pos, end));
		auto it = S->oracle.find(key);
		if (it != S->oracle.end()) return it->second;
		string nm = "P" + std::to_string(id) + "@" + str(pos);
		if (!(norm(sub(end, L)) == Lin(0))) nm += "..end" + str(end);
		std::vector<Alt> alts;
		int obj = data.obj;
		(void)obj;
		// flags: 1 nullable, 2 divergent (lookahead accepts, parse rejects), 4 never fails, 8 has a span value, 16 only fixed length 1
		if (!(flags & 4)) alts.push_back({ nm + ":fail", [key](State& s) { s.oracle[key] = Oracle{ 0, {}, {}, {} }; return true; } });
		auto ok = [&](int kind, const char* txt, bool empty, bool spanEmpty) {
			alts.push_back({ nm + txt, [this, key, pos, end, kind, empty, spanEmpty, flags](State& s) {
				Oracle r; r.kind = kind;
				if (empty) r.np = pos;
				else
				{
					int q = s.nsym++;
					s.z.index(q);
					r.np = Lin::sym(q);
					Lin a = sub(pos, r.np); a.c += 1; // pos + 1 <= np
					if (!assumeLe0(s, a)) return false;
					if (!assumeLe0(s, sub(r.np, end))) return false;
					if (flags & 16) { Lin d = sub(r.np, pos); d.c -= 1; if (!assumeEq0(s, d)) return false; }
				}
				if (flags & 8)
				{
					if (flags & 32) { r.b = pos; r.e = r.np; } // the whole consumed range
					else
					{
						int b = s.nsym++; s.z.index(b); r.b = Lin::sym(b);
						if (!assumeLe0(s, sub(pos, r.b)) || !assumeLe0(s, sub(r.b, r.np))) return false;
						if (spanEmpty) r.e = r.b;
						else
						{
							int e = s.nsym++; s.z.index(e); r.e = Lin::sym(e);
							Lin d = sub(r.b, r.e); d.c += 1;
							if (!assumeLe0(s, d) || !assumeLe0(s, sub(r.e, r.np))) return false;
						}
					}
				}
				s.oracle[key] = r;
				return true;
			} });
		};
		bool sub2 = (flags & 8) && !(flags & 32);
		if (sub2)
		{
			ok(1, ":ok,span", false, false);
			ok(1, ":ok,emptyspan", false, true);
			if (flags & 1) ok(1, ":ok-empty,emptyspan", true, true);
		}
		else
		{
			ok(1, ":ok", false, false);
			if (flags & 1) ok(1, ":ok-empty", true, true);
			if (flags & 2) { ok(2, ":lookahead-only", false, false); if (flags & 1) ok(2, ":lookahead-only-empty", true, true); }
		}
		throw NeedFork{ alts };
	}
	std::vector<i64> universe(unsigned bits, bool isSigned, std::vector<i64> seeds)
	{
		std::set<i64> u;
		if (bits == 8) { for (int i = 0; i < 256; i++) u.insert(sext(i, 8)); }
		else
		{
			auto put = [&](i64 v) { u.insert(sext(v, bits)); };
			for (i64 v : seeds)
			{
				for (int d = -1; d <= 1; d++) put(v + d);
				for (unsigned sh : { 7u, 8u, 15u, 16u, 31u, 32u }) if (sh < bits) { put(v + ((i64)1 << sh)); put(v - ((i64)1 << sh)); put(v ^ ((i64)1 << sh)); }
				put(-v); put(v & 0xff); put(v & 0x7f); put(v & 0xffff); put(v ^ ((i64)1 << (bits - 1)));
			}
			put(0); put(1); put(-1); put(((i64)1 << (bits - 1)) - 1); put((i64)1 << (bits - 1));
		}
		(void)isSigned;
		return std::vector<i64>(u.begin(), u.end());
	}
	Val listItemsTerm(const List& l)
	{
		std::vector<Val> a(l.items.begin(), l.items.end());
		return vTerm("list", a);
	}

	bool native(const CallBase* cb, const Function* f, std::vector<Val>& a, Val& ret)
	{
		StringRef n = f->getName();
		if (f->isIntrinsic())
		{
			switch (f->getIntrinsicID())
			{
			case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
			case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
			case Intrinsic::prefetch: case Intrinsic::donothing:
				return true;
			case Intrinsic::lifetime_start:
				if (a[1].k == VK::Ptr) { Obj& o = wobj(a[1].obj); o.dead = false; o.cells.clear(); }
				return true;
			case Intrinsic::lifetime_end:
				if (a[1].k == VK::Ptr) { Obj& o = wobj(a[1].obj); o.dead = true; o.cells.clear(); }
				return true;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(a[0], a[1], a[2]); return true;
			case Intrinsic::memset: case Intrinsic::memset_inline:
			{
				auto o = checkAccess(a[0], "fill");
				i64 nb = cint(a[2]);
				i64 off = cint(vInt(a[0].lin, 64));
				if (nb == 0) return true;
				if (o->kind == OK::Global || o->kind == OK::Input) throw Stop{ "purity", "fills a global or the caller's input" };
				if (off < 0 || off + nb > o->size) throw Stop{ "oob", "fill beyond the end of '" + o->name + "'" };
				Obj& w = wobj(a[0].obj);
				i64 byte = cint(a[1]);
				i64 i = 0;
				while (i < nb) { int s = (nb - i >= 8 && (off + i) % 8 == 0) ? 8 : (nb - i >= 4 && (off + i) % 4 == 0) ? 4 : 1; u64 v = 0; for (int k = 0; k < s; k++) v |= (u64)(byte & 0xff) << (8 * k); putCell(w, off + i, vInt((i64)v, 8 * s), s); i += s; }
				return true;
			}
			case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
				ret = a[0]; return true;
			case Intrinsic::is_constant: ret = vBool(a[0].k != VK::Term); return true;
			case Intrinsic::objectsize: ret = vInt(-1, 64); return true;
			case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
			{
				auto id = f->getIntrinsicID();
				CmpInst::Predicate p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
				ret = truth(icmp(p, a[0], a[1], a[0].w)) ? a[0] : a[1];
				return true;
			}
			case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::abs: case Intrinsic::bswap:
			{
				Val v = concretize(a[0]);
				u64 x = zext(cint(v), v.w);
				i64 r = 0;
				switch (f->getIntrinsicID())
				{
				case Intrinsic::ctlz: r = x ? (i64)__builtin_clzll(x) - (64 - v.w) : v.w; break;
				case Intrinsic::cttz: r = x ? (i64)__builtin_ctzll(x) : v.w; break;
				case Intrinsic::ctpop: r = __builtin_popcountll(x); break;
				case Intrinsic::abs: r = std::llabs(cint(v)); break;
				default: throw Unsupported{ "bswap" };
				}
				ret = vInt(r, v.w);
				return true;
			}
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
			case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
			{
				auto id = f->getIntrinsicID();
				unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
				Val r; r.k = VK::Agg;
				Val v = binop(op, a[0], a[1], a[0].w, nullptr);
				bool ov = false;
				if (id == Intrinsic::usub_with_overflow) ov = truth(icmp(CmpInst::ICMP_ULT, a[0], a[1], a[0].w));
				r.agg = std::make_shared<std::vector<Val>>(std::vector<Val>{ v, vBool(ov) });
				ret = r;
				return true;
			}
			case Intrinsic::usub_sat: ret = truth(icmp(CmpInst::ICMP_ULT, a[0], a[1], a[0].w)) ? vInt(0, a[0].w) : binop(Instruction::Sub, a[0], a[1], a[0].w, nullptr); return true;
			case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: throw Stop{ "assert", "reaches a trap" };
			case Intrinsic::stacksave: ret = vPtr(0, 0); return true;
			case Intrinsic::stackrestore: return true;
			default:
				throw Unsupported{ "intrinsic " + n.str() };
			}
		}
		if (!f->isDeclaration()) return false;
		if (n.starts_with("vp_")) { ret = vp(cb, n, a); return true; }
		if (n.contains("__glibcxx_assert_fail")) throw Stop{ "assert", "breaks a precondition of the standard library: " + assertText(a) };
		// a throw ends the path: quietly where the harness expects it
		if ((n.contains("__throw_") || n == "__cxa_allocate_exception" || n == "__cxa_throw" || n == "__cxa_rethrow" || n == "abort") && S->choices.count("may-throw") && S->choices["may-throw"]) throw Prune{};
		if (n == "__cxa_allocate_exception" || n == "__cxa_throw" || n == "__cxa_rethrow") throw Stop{ "assert", "throws an exception" };
		if (n.contains("__throw_")) throw Stop{ "assert", "throws from the standard library (" + demangle(n.str()) + ")" };
		if (n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "exit" || n == "_Exit") throw Stop{ "assert", "terminates the program (" + demangle(n.str()) + ")" };
		if (n == "_Znwm" || n == "malloc" || n == "_Znam" || n == "_ZnwmSt11align_val_t") { ret = vPtr(newObj(OK::Heap, cint(a[0]), "heap"), 0); return true; }
		if (n.starts_with("_ZdlPv") || n == "free" || n.starts_with("_ZdaPv"))
		{
			if (a[0].k == VK::Ptr && a[0].obj) { auto o = objp(a[0].obj); if (!o || o->dead) throw Stop{ "lifetime", "frees an object twice" }; S->mem.erase(a[0].obj); }
			return true;
		}
		if (n == "memcmp" || n == "bcmp" || n == "wmemcmp" || n == "__builtin_memcmp")
		{
			Lin len = lint(a[2]);
			if (decideEq(len)) { ret = vInt(0, 32); return true; }
			i64 es = n == "wmemcmp" ? 4 : 1;
			for (i64 i = 0;; i++)
			{
				Lin rest = len; rest.c -= i;
				if (decideEq(rest)) break;
				if (i > 100000) throw Unsupported{ "memcmp length" };
				auto at = [&](const Val& p) { Val q = p; q.lin = add(q.lin, Lin(i * es)); return load(q, Type::getIntNTy(M->getContext(), (unsigned)es * 8)); };
				Val x = at(a[0]), y = at(a[1]);
				auto pr = es == 1 ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT;
				if (truth(icmp(CmpInst::ICMP_EQ, x, y, (unsigned)es * 8))) continue;
				ret = vInt(truth(icmp(pr, x, y, (unsigned)es * 8)) ? -1 : 1, 32);
				return true;
			}
			ret = vInt(0, 32);
			return true;
		}
		if (n == "memchr" || n == "wmemchr")
		{
			Lin len = lint(a[2]);
			i64 es = n == "wmemchr" ? 4 : 1;
			Val needle = a[1];
			needle = needle.k == VK::Elem || needle.k == VK::Int ? truncTo(needle, (unsigned)es * 8) : needle;
			for (i64 i = 0;; i++)
			{
				Lin rest = len; rest.c -= i;
				if (decideEq(rest)) break;
				if (i > 100000) throw Unsupported{ "memchr length" };
				Val q = a[0]; q.lin = add(q.lin, Lin(i * es));
				Val x = load(q, Type::getIntNTy(M->getContext(), (unsigned)es * 8));
				if (truth(icmp(CmpInst::ICMP_EQ, x, needle, (unsigned)es * 8))) { ret = q; return true; }
			}
			ret = vPtr(0, 0);
			return true;
		}
		if (n == "strlen" || n == "wcslen")
		{
			auto o = checkAccess(a[0], "strlen");
			i64 es = n == "wcslen" ? 4 : 1;
			if (o->kind == OK::Input)
			{
				if (!o->zterm) throw Stop{ "oob", "searches for a terminating null that the input does not have" };
				sp<Obj> oo; Lin p = elemPos(a[0], oo);
				ret = vInt(norm(sub(Lin::sym(o->lenSym), p)), 64);
				return true;
			}
			for (i64 i = 0;; i++)
			{
				Val q = a[0]; q.lin = add(q.lin, Lin(i * es));
				Val x = load(q, Type::getIntNTy(M->getContext(), (unsigned)es * 8));
				if (truth(icmp(CmpInst::ICMP_EQ, x, vInt(0, (unsigned)es * 8), (unsigned)es * 8))) { ret = vInt(i, 64); return true; }
			}
		}
		if (n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n.starts_with("_ZGT") || n == "__tls_get_addr")
			throw Stop{ "purity", "uses a function-local static or thread-local object (" + n.str() + ")" };
		static const char* effects[] = { "printf", "puts", "putchar", "fwrite", "fprintf", "fputs", "fputc", "write", "read", "open", "getenv", "time", "rand", "clock", "random", "std::chrono", "std::ostream", "std::__ostream", "std::basic_ostream", "operator<<", "std::random_device", "std::mersenne", "errno", "std::locale", "isalpha", "tolower", "isspace" };
		string dn = demangle(n.str());
		for (auto* e : effects) if (dn.rfind(e, 0) == 0 || (strstr(e, "std::") && dn.find(e) != string::npos)) throw Stop{ "purity", "calls the environment-dependent function " + dn };
		throw Unsupported{ "call of " + dn };
	}
	string assertText(std::vector<Val>& a)
	{
		// __glibcxx_assert_fail(file, line, function, condition)
		try
		{
			if (a.size() >= 4 && a[3].k == VK::Ptr)
			{
				auto it = objGv.find(a[3].obj);
				if (it != objGv.end() && it->second->hasInitializer())
					if (auto* c = dyn_cast<ConstantDataArray>(it->second->getInitializer())) return c->getAsString().str().c_str();
			}
		}
		catch (...) {}
		return "(assertion)";
	}
	Val vp(const CallBase* cb, StringRef n, std::vector<Val>& a)
	{
		(void)cb;
		Val none;
		if (n == "vp_input") // (which, elem size, flags)
		{
			int id = inputObj((int)cint(a[0]));
			if (!S->mem.count(id)) throw Unsupported{ "input not declared" };
			return vPtr(id, 0);
		}
		if (n == "vp_declare") // (which, elem size, zero terminated, signed, seeds ptr, nseeds, exact)
		{
			int id = inputObj((int)cint(a[0]));
			if (S->mem.count(id)) return none;
			auto o = std::make_shared<Obj>();
			o->kind = OK::Input; o->esz = (int)cint(a[1]); o->zterm = cint(a[2]) != 0; o->name = "input";
			o->lenSym = S->nsym++;
			S->z.index(o->lenSym);
			std::vector<i64> seeds;
			i64 ns = cint(a[5]);
			for (i64 i = 0; i < ns; i++)
			{
				Val p = a[4]; p.lin = add(p.lin, Lin(8 * i));
				seeds.push_back(cint(load(p, Type::getInt64Ty(M->getContext()))));
			}
			if (cint(a[6])) { std::set<i64> u; for (i64 v : seeds) u.insert(sext(v, 8 * o->esz)); o->universe = std::make_shared<std::vector<i64>>(u.begin(), u.end()); }
			else
			{
				for (i64 c : extraSeeds) seeds.push_back(c);
				o->universe = std::make_shared<std::vector<i64>>(universe(8 * o->esz, cint(a[3]) != 0, seeds));
			}
			S->mem[id] = o;
			assumeLe0(*S, mul(Lin::sym(o->lenSym), -1));
			if (forceMax >= 0) { keepItems = 16; Lin d = Lin::sym(o->lenSym); d.c -= forceMax; if (!assumeLe0(*S, d)) throw Prune{}; }
			return none;
		}
		if (n == "vp_len") { auto o = objp(inputObj((int)cint(a[0]))); return vInt(norm(Lin::sym(o->lenSym)), 64); }
		if (n == "vp_fixlen") // (which, n): the length is exactly n
		{
			auto o = objp(inputObj((int)cint(a[0]))); Lin d = Lin::sym(o->lenSym); d.c -= cint(a[1]);
			if (!assumeEq0(*S, d)) throw Prune{};
			return none;
		}
		if (n == "vp_maxlen")
		{
			keepItems = 16; // a bounded input: nothing needs to be summarised
			auto o = objp(inputObj((int)cint(a[0]))); Lin d = Lin::sym(o->lenSym); d.c -= cint(a[1]);
			if (!assumeLe0(*S, d)) throw Prune{};
			return none;
		}
		if (n == "vp_query") // (id, flags, data, size, size_t* consumed) -> kind
		{
			Oracle r = query((int)cint(a[0]), (int)cint(a[1]), a[2], a[3]);
			sp<Obj> o;
			Lin pos = elemPos(a[2], o);
			if (T().noteQueries) T().trace.items.push_back(vTerm("ask" + std::to_string(cint(a[0])), { vPtr(a[2].obj, mul(pos, o->esz)) }));
			if (r.kind) store(a[4], vInt(norm(sub(r.np, pos)), 64), Type::getInt64Ty(M->getContext()));
			else store(a[4], vInt(0, 64), Type::getInt64Ty(M->getContext()));
			return vInt(r.kind, 32);
		}
		if (n == "vp_query_span") // (id, flags, data, size, ptr* b, size_t* n)
		{
			Oracle r = query((int)cint(a[0]), (int)cint(a[1]), a[2], a[3]);
			auto o = objp(a[2].obj);
			store(a[4], vPtr(a[2].obj, mul(r.b, o->esz)), PointerType::get(M->getContext(), 0));
			store(a[5], vInt(norm(sub(r.e, r.b)), 64), Type::getInt64Ty(M->getContext()));
			return none;
		}
		if (n == "vp_tok") { sp<Obj> o; Lin p = elemPos(a[1], o); return vTerm("tok" + std::to_string(cint(a[0])), { vPtr(a[1].obj, mul(p, o->esz)) }); }
		if (n == "vp_t0") return vTerm("c" + std::to_string(cint(a[0])));
		if (n == "vp_t1") return vTerm("c" + std::to_string(cint(a[0])), { a[1] });
		if (n == "vp_t2") return vTerm("c" + std::to_string(cint(a[0])), { a[1], a[2] });
		if (n == "vp_spread")
		{
			if (a[0].k != VK::Term) throw Unsupported{ "spread of something that is no term" };
			auto& tn = *a[0].term;
			if (tn.kind == "c3" || tn.kind == "c4") return a[0];                                                            // a tuple
			if (tn.kind == "c8") return vTerm("c3", { tn.args[0], vTerm("c3", { tn.args[1], vTerm("c4") }) }); // a pair
			if (tn.kind == "c11" && tn.args[0].k == VK::Term && tn.args[0].term->kind == "list")
			{
				Val r = vTerm("c4");
				auto& it = tn.args[0].term->args;
				for (size_t i = it.size(); i-- > 0;) r = vTerm("c3", { it[i], r });
				return r;
			}
			throw Unsupported{ "spread of " + tn.kind };
		}
		if (n == "vp_int") { Val v = forceInt(a[0]); return vTerm("int", { v }); }
		if (n == "vp_bool") { return vTerm(truth(icmp(CmpInst::ICMP_NE, a[0], vInt(0, a[0].w ? a[0].w : 8), a[0].w ? a[0].w : 8)) ? "true" : "false"); }
		if (n == "vp_ptr_term")
		{
			if (a[0].k == VK::Undef) throw Stop{ "uninit", "an uninitialised pointer is part of a result" };
			return vTerm("ptr", { a[0] });
		}
		if (n == "vp_span_term") // (data, size): a view of the caller's input
		{
			Lin sz = lint(a[1]);
			if (!decideEq(sz))
			{
				sp<Obj> o;
				Lin b = elemPos(a[0], o);
				Lin L = Lin::sym(o->lenSym);
				Lin e = add(b, sz);
				if (!mustLe(mul(b, -1)) || !mustLe(sub(e, L)) || !mustLe(mul(sz, -1))) throw Stop{ "range", "a result view [" + str(b) + ", " + str(norm(e)) + ") is not inside the input" };
				return vTerm("span", { vPtr(a[0].obj, mul(b, o->esz)), vPtr(a[0].obj, mul(norm(e), o->esz)) });
			}
			if (a[0].k == VK::Ptr && !a[0].obj) return vTerm("span-null"); // the empty view of nothing
			sp<Obj> o;
			Lin b = elemPos(a[0], o);
			Lin L = Lin::sym(o->lenSym);
			if (!mustLe(mul(b, -1)) || !mustLe(sub(b, L))) throw Stop{ "range", "an empty result view is not inside the input" };
			return vTerm("span-empty");
		}
		if (n == "vp_list_new") { int h = S->nlist++; S->lists[h] = std::make_shared<List>(); return vTerm("lh", { vInt(h, 32) }); }
		if (n.starts_with("vp_list_"))
		{
			if (a[0].k != VK::Term || a[0].term->kind != "lh")
			{
				if (n == "vp_list_size" && a[0].k == VK::Undef) throw Stop{ "uninit", "reads an uninitialised container" };
				throw Unsupported{ "list handle" };
			}
			int h = (int)cint(a[0].term->args[0]);
			if (n == "vp_list_push")
			{
				// where only the verdict is compared, the values of a repetition beyond the first do not matter
				if (T().noTrace && !S->lists[h]->items.empty() && !S->lists[h]->sizeSeen) return none;
				wlist(h).items.push_back(a[1]);
				return none;
			}
			if (n == "vp_list_pop") { auto& l = wlist(h); if (l.items.empty()) throw Stop{ "assert", "removes from an empty container" }; l.items.pop_back(); return none; }
			if (n == "vp_list_size") { auto& l = wlist(h); return vInt((i64)l.items.size(), 64); }
			if (n == "vp_list_observe") { wlist(h).sizeSeen = true; return none; }
			if (n == "vp_list_at" || n == "vp_list_set")
			{
				i64 i = cint(a[1]);
				auto& l = wlist(h);
				if (i < 0 || i >= (i64)l.items.size()) throw Stop{ "oob", "container index out of range" };
				if (n == "vp_list_set") { l.items[i] = a[2]; return none; }
				return l.items[i];
			}
			if (n == "vp_list_insert")
			{
				i64 i = cint(a[1]);
				auto& l = wlist(h);
				if (i < 0 || i > (i64)l.items.size()) throw Stop{ "oob", "container insertion position out of range" };
				l.items.insert(l.items.begin() + i, a[2]);
				return none;
			}
			if (n == "vp_list_erase") { i64 i = cint(a[1]); auto& l = wlist(h); if (i < 0 || i >= (i64)l.items.size()) throw Stop{ "oob", "container erase position out of range" }; l.items.erase(l.items.begin() + i); return none; }
			if (n == "vp_list_term") { return listItemsTerm(*S->lists[h]); }
		}
		if (n == "vp_alloc") return vPtr(newObj(OK::Heap, cint(a[0]), "container element"), 0);
		if (n == "vp_trace") { if (!T().noTrace) T().trace.items.push_back(a[0]); return none; }
		if (n == "vp_note_queries") { T().noteQueries = true; return none; }
		if (n == "vp_trace_off") { T().noTrace = true; return none; }
		if (n == "vp_pred")
		{
			int id = (int)cint(a[0]);
			for (auto& p : S->preds) if (p.first.first == id && eqVal(p.first.second, a[1])) return vInt(p.second ? 1 : 0, 8);
			Val key = a[1];
			string d = "pred" + std::to_string(id) + "(" + show(key) + ")";
			throw NeedFork{ { { d + "=no", [id, key](State& s) { s.preds.push_back({ { id, key }, false }); return true; } }, { d + "=yes", [id, key](State& s) { s.preds.push_back({ { id, key }, true }); return true; } } } };
		}
		if (n == "vp_choice") { return vInt(choose("choice" + std::to_string(cint(a[0])), { "no", "yes" }), 8); }
		if (n == "vp_pick") // any number below n, chosen anew at every execution
		{
			string key = "pick" + std::to_string(S->cur);
			auto it = S->choices.find(key);
			if (it != S->choices.end()) { int r = it->second; S->choices.erase(it); return vInt(r, 32); }
			std::vector<string> names;
			for (i64 i = 0; i < cint(a[0]); i++) names.push_back(std::to_string(i));
			return vInt(choose(key, names), 32);
		}
		if (n == "vp_same")
		{
			pairsChecked++;
			if (!eqVal(a[1], a[2])) throw Stop{ outTag((int)cint(a[0])), "got " + show(a[1]) + ", specified " + show(a[2]) };
			return none;
		}
		if (n == "vp_ce") return vInt(choose("constant-evaluated", { "no", "yes" }), 8);
		if (n == "vp_known") return vInt(a[0].k != VK::Term ? 1 : 0, 8); // a distance between unrelated objects is not a constant
		if (n == "vp_out") { T().out.push_back({ outTag((int)cint(a[0])), a[1], "" }); return none; }
		if (n == "vp_out_bool") { bool b = truth(icmp(CmpInst::ICMP_NE, a[1], vInt(0, a[1].w ? a[1].w : 8), a[1].w ? a[1].w : 8)); T().out.push_back({ outTag((int)cint(a[0])), vTerm(b ? "true" : "false"), "" }); return none; }
		if (n == "vp_fail") throw Stop{ outTag((int)cint(a[0])), "the analysed code violates a condition of the harness" };
		if (n == "vp_violation_copy") throw Stop{ "copy", "copies a value that it could have moved" };
		if (n == "vp_prune") throw Prune{};
		if (n == "vp_may_throw") { if (cint(a[0])) S->choices["may-throw"] = 1; else S->choices.erase("may-throw"); return none; }
		throw Unsupported{ "native " + n.str() };
	}
	static string outTag(int t)
	{
		static const char* tags[] = { "success", "remaining-data", "remaining-size", "value", "fail-remaining-data", "fail-remaining-size", "calls", "other" };
		return t >= 0 && t < 8 ? tags[t] : "other";
	}
	std::vector<i64> extraSeeds;
	i64 forceMax = -1;   // >= 0: the input is no longer than this
	bool overBudget = false;

	// ---------------------------------------------------------------- one instruction
	void step()
	{
		Frame& fr = *T().stack.back();
		const Instruction* I = &*fr.it;
		S->steps++; S->sinceFork++; totalSteps++;
		if (S->sinceFork > STEP_LIMIT + 2000 * (u64)K) throw Stop{ "nontermination", "no progress: more than " + std::to_string(STEP_LIMIT) + " steps without consuming input or asking anything new" };
		switch (I->getOpcode())
		{
		case Instruction::Alloca:
		{
			auto* al = cast<AllocaInst>(I);
			i64 sz = (i64)DL->getTypeAllocSize(al->getAllocatedType());
			if (al->isArrayAllocation()) sz *= cint(get(al->getArraySize()));
			int o = newObj(OK::Stack, sz, al->getName().str());
			F().allocas.push_back(o);
			for (auto* u : al->users()) if (auto* ii = dyn_cast<IntrinsicInst>(u)) if (ii->getIntrinsicID() == Intrinsic::lifetime_start) { wobj(o).dead = true; break; }
			set(I, vPtr(o, 0));
			break;
		}
		case Instruction::Load: { Val v = load(get(I->getOperand(0)), I->getType()); set(I, v); break; }
		case Instruction::Store: { Val v = get(I->getOperand(0)); store(get(I->getOperand(1)), v, I->getOperand(0)->getType()); break; }
		case Instruction::GetElementPtr:
		{
			auto* g = cast<GetElementPtrInst>(I);
			Val p = get(g->getPointerOperand());
			if (p.k == VK::Undef) { set(I, Val()); break; }
			if (p.k == VK::Term) throw Unsupported{ "address computation on an opaque value" };
			Type* t = g->getSourceElementType();
			bool first = true;
			for (auto it = g->idx_begin(); it != g->idx_end(); ++it)
			{
				Val ix = get(*it);
				if (ix.k == VK::Elem) ix = concretize(ix);
				if (ix.k == VK::Undef) throw Stop{ "uninit", "indexes with an uninitialised value" };
				if (ix.k != VK::Int) throw Unsupported{ "index" };
				if (first) { p.lin = add(p.lin, mul(norm(ix.lin), (i64)DL->getTypeAllocSize(t))); first = false; continue; }
				if (auto* st = dyn_cast<StructType>(t)) { u64 k = (u64)cint(ix); p.lin = add(p.lin, Lin((i64)DL->getStructLayout(st)->getElementOffset((unsigned)k))); t = st->getElementType((unsigned)k); }
				else { t = t->getArrayElementType(); p.lin = add(p.lin, mul(norm(ix.lin), (i64)DL->getTypeAllocSize(t))); }
			}
			p.lin = norm(p.lin);
			set(I, p);
			break;
		}
		case Instruction::ICmp:
		{
			auto* c = cast<ICmpInst>(I);
			unsigned w = c->getOperand(0)->getType()->isIntegerTy() ? c->getOperand(0)->getType()->getIntegerBitWidth() : 64;
			set(I, icmp(c->getPredicate(), get(c->getOperand(0)), get(c->getOperand(1)), w));
			break;
		}
		case Instruction::FCmp:
		{
			Val a = get(I->getOperand(0)), b = get(I->getOperand(1));
			set(I, vBool(choose("fcmp" + std::to_string(cast<FCmpInst>(I)->getPredicate()) + show(a) + "," + show(b), { "no", "yes" }) == 1));
			break;
		}
		case Instruction::Br:
		{
			auto* b = cast<BranchInst>(I);
			const BasicBlock* t;
			if (b->isConditional()) t = truth(get(b->getCondition())) ? b->getSuccessor(0) : b->getSuccessor(1);
			else t = b->getSuccessor(0);
			jump(t);
			return;
		}
		case Instruction::Switch:
		{
			auto* s = cast<SwitchInst>(I);
			Val v = get(s->getCondition());
			if (v.k == VK::Undef) throw Stop{ "uninit", "switches on an uninitialised value" };
			if (v.k == VK::Elem)
			{
				// group the element's classes by successor
				Val r = elemMap(v, 32, [&](i64 x) -> i64 { int k = 0; for (auto& c : s->cases()) { k++; if (c.getCaseValue()->getSExtValue() == sext(x, v.w)) return k; } return 0; });
				r = concretize(r);
				i64 k = r.lin.c;
				if (k == 0) { jump(s->getDefaultDest()); return; }
				int q = 0;
				for (auto& c : s->cases()) if (++q == k) { jump(c.getCaseSuccessor()); return; }
			}
			if (v.k != VK::Int) throw Unsupported{ "switch" };
			for (auto& c : s->cases()) { Lin d = norm(v.lin); d.c -= c.getCaseValue()->getSExtValue(); if (decideEq(d)) { jump(c.getCaseSuccessor()); return; } }
			jump(s->getDefaultDest());
			return;
		}
		case Instruction::PHI: throw Unsupported{ "phi" };
		case Instruction::Select:
		{
			Val c = get(I->getOperand(0));
			set(I, truth(c) ? get(I->getOperand(1)) : get(I->getOperand(2)));
			break;
		}
		case Instruction::Ret:
		{
			Val v;
			if (I->getNumOperands()) v = get(I->getOperand(0));
			popFrame(v);
			return;
		}
		case Instruction::Unreachable: throw Stop{ "assert", "control reaches a point declared unreachable" };
		case Instruction::ExtractValue:
		{
			auto* e = cast<ExtractValueInst>(I);
			Val v = get(e->getAggregateOperand());
			for (unsigned i : e->indices()) { if (v.k == VK::Undef) break; if (v.k != VK::Agg) throw Unsupported{ "extractvalue" }; Val w = (*v.agg)[i]; v = w; }
			set(I, v);
			break;
		}
		case Instruction::InsertValue:
		{
			auto* e = cast<InsertValueInst>(I);
			Val v = get(e->getAggregateOperand());
			Val x = get(e->getInsertedValueOperand());
			std::function<Val(Val, Type*, unsigned)> ins = [&](Val cur, Type* t, unsigned d) -> Val {
				if (d == e->getNumIndices()) return x;
				Val r; r.k = VK::Agg;
				unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
				r.agg = std::make_shared<std::vector<Val>>(cur.k == VK::Agg ? *cur.agg : std::vector<Val>(n));
				unsigned i = e->getIndices()[d];
				Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
				(*r.agg)[i] = ins((*r.agg)[i], et, d + 1);
				return r;
			};
			set(I, ins(v, e->getType(), 0));
			break;
		}
		case Instruction::Trunc: { Val v = get(I->getOperand(0)); set(I, truncTo(v, I->getType()->getIntegerBitWidth())); break; }
		case Instruction::ZExt:
		{
			Val v = get(I->getOperand(0));
			unsigned w = I->getType()->getIntegerBitWidth(), sw = I->getOperand(0)->getType()->getIntegerBitWidth();
			if (w > 64) throw Unsupported{ "wide integer" };
			if (v.k == VK::Int) { Lin l = norm(v.lin); if (l.isConst()) set(I, vInt((i64)zext(l.c, sw), w)); else { if (sw < 64 && decideNeg(l)) { Lin q = l; q.c = wadd(q.c, (i64)1 << sw); set(I, vInt(q, w)); } else set(I, vInt(l, w)); } }
			else if (v.k == VK::Elem) set(I, elemMap(v, w, [&](i64 x) { return (i64)zext(x, sw); }));
			else if (v.k == VK::Undef) set(I, v);
			else if (v.k == VK::Comp || v.k == VK::Term) set(I, v);
			else throw Unsupported{ "zext" };
			break;
		}
		case Instruction::SExt:
		{
			Val v = get(I->getOperand(0));
			unsigned w = I->getType()->getIntegerBitWidth();
			if (v.k == VK::Int) set(I, vInt(norm(v.lin), w));
			else if (v.k == VK::Elem) { unsigned sw = v.w; set(I, elemMap(v, w, [&](i64 x) { return sext(x, sw); })); }
			else if (v.k == VK::Undef || v.k == VK::Term) set(I, v);
			else throw Unsupported{ "sext" };
			break;
		}
		case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
			set(I, get(I->getOperand(0)));
			break;
		case Instruction::IntToPtr: { Val v = get(I->getOperand(0)); if (v.k == VK::Int) v = vPtr(0, v.lin); set(I, v); break; }
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI:
		{
			std::vector<Val> as;
			for (auto& o : I->operands()) as.push_back(get(o));
			set(I, vTerm(string("f") + I->getOpcodeName(), as));
			break;
		}
		case Instruction::Call:
		{
			auto* cb = cast<CallBase>(I);
			const Function* f = cb->getCalledFunction();
			if (!f)
			{
				if (cb->isInlineAsm()) return (void)F().it++;
				Val c = get(cb->getCalledOperand());
				if (c.k == VK::Ptr && objFn.count(c.obj)) f = objFn[c.obj];
				else if (c.k == VK::Undef) throw Stop{ "uninit", "calls through an uninitialised pointer" };
				else if (c.k == VK::Ptr && c.obj == 0) throw Stop{ "oob", "calls through a null pointer" };
				else throw Unsupported{ "indirect call" };
			}
			if (f->isIntrinsic() && (f->getName().starts_with("llvm.dbg"))) { F().it++; return; }
			std::vector<Val> args;
			for (auto& x : cb->args()) { if (isa<MetadataAsValue>(x)) { args.push_back(Val()); continue; } args.push_back(get(x)); }
			Val ret;
			if (native(cb, f, args, ret))
			{
				if (!I->getType()->isVoidTy()) set(I, ret);
				break;
			}
			push(f, args, cb);
			return;
		}
		default:
			if (auto* b = dyn_cast<BinaryOperator>(I))
			{
				if (!b->getType()->isIntegerTy()) throw Unsupported{ "vector arithmetic" };
				unsigned w = b->getType()->getIntegerBitWidth();
				if (w > 64) throw Unsupported{ "wide arithmetic" };
				set(I, binop(b->getOpcode(), get(b->getOperand(0)), get(b->getOperand(1)), w, I));
				break;
			}
			throw Unsupported{ string("instruction ") + I->getOpcodeName() };
		}
		F().it++;
	}
	void jump(const BasicBlock* t)
	{
		Frame& f = F();
		const BasicBlock* from = f.bb;
		std::vector<std::pair<const Value*, Val>> phis;
		auto it = t->begin();
		for (; isa<PHINode>(it); ++it)
		{
			auto* p = cast<PHINode>(it);
			phis.push_back({ p, get(p->getIncomingValueForBlock(from)) });
		}
		for (auto& p : phis) set(p.first, p.second);
		Frame& g = F();
		g.prev = from; g.bb = t; g.it = it;
	}

	// ---------------------------------------------------------------- canonical form of a state
	struct Canon
	{
		Analyzer& A; State& s;
		string out;
		std::map<Lin, int> points;
		std::vector<Lin> plist;
		std::map<int, int> objs, lists;
		std::vector<int> objQ;
		std::vector<std::pair<size_t, i64>> bigInts; // (position in out, value)
		std::vector<string> chunks;
		Canon(Analyzer& a, State& st) : A(a), s(st) {}
		int point(const Lin& l)
		{
			auto it = points.find(l);
			if (it != points.end()) return it->second;
			int i = (int)plist.size();
			points[l] = i; plist.push_back(l);
			return i;
		}
		void num(i64 v) { out += std::to_string(v); out += ' '; }
		void linInt(const Lin& l0)
		{
			Lin l = A.norm(l0);
			if (l.isConst())
			{
				if (A.exactInt(l.c)) num(l.c);
				else { chunks.push_back(out); out.clear(); chunks.push_back("\1" + std::to_string(l.c)); }
				return;
			}
			// difference of two points?
			const std::pair<int, i64>* pos = nullptr; const std::pair<int, i64>* neg = nullptr;
			bool simple = l.t.size() <= 2;
			for (auto& t : l.t) { if (t.second > 0) { if (pos) simple = false; pos = &t; } else { if (neg) simple = false; neg = &t; } }
			if (simple && pos && (!neg || pos->second == -neg->second) && (l.c % pos->second == 0))
			{
				i64 g = pos->second;
				Lin a = Lin::sym(pos->first);
				Lin b = neg ? Lin::sym(neg->first) : Lin(0);
				b.c -= l.c / g;
				out += "d" + std::to_string(g) + ":" + std::to_string(point(a)) + "-" + std::to_string(point(b)) + " ";
				return;
			}
			out += "L";
			for (auto& t : l.t) out += std::to_string(t.second) + "*" + std::to_string(point(Lin::sym(t.first))) + "+";
			out += std::to_string(l.c) + " ";
		}
		void val(const Val& v)
		{
			switch (v.k)
			{
			case VK::Undef: out += "u "; return;
			case VK::Int: out += "i"; linInt(v.lin); return;
			case VK::Ptr:
			{
				if (v.obj == 0) { out += "n"; linInt(v.lin); return; }
				auto o = A.objp(v.obj);
				if (!o) { out += "x "; return; }
				if (o->kind == OK::Input)
				{
					Lin p;
					Lin l = A.norm(v.lin);
					if (divExact(l, o->esz, p)) { out += "p" + std::to_string(v.obj) + ":" + std::to_string(point(p)) + " "; return; }
					out += "q" + str(l) + " ";
					return;
				}
				if (gObjs.count(v.obj)) { out += "g" + std::to_string(v.obj) + "+"; linInt(v.lin); return; }
				out += "o" + std::to_string(obj(v.obj)) + "+"; linInt(v.lin);
				return;
			}
			case VK::Elem:
			{
				out += "e" + std::to_string(v.et->obj) + ":" + std::to_string(point(A.norm(v.et->pos))) + "{";
				u64 h = 1469598103934665603ull;
				for (i64 x : v.et->out) { h ^= (u64)x; h *= 1099511628211ull; }
				out += std::to_string(h) + "} ";
				return;
			}
			case VK::Term:
				if (v.term->kind == "lh") { out += "l" + std::to_string(list((int)v.term->args[0].lin.c)) + " "; return; }
				out += "t" + v.term->kind + "(";
				for (auto& a : v.term->args) val(a);
				out += ") ";
				return;
			case VK::Agg: out += "["; for (auto& a : *v.agg) val(a); out += "] "; return;
			case VK::Comp: out += "<"; for (auto& c : *v.comp) { num(c.first); val(c.second.first); } out += "> "; return;
			default: out += "f "; return;
			}
		}
		int obj(int id)
		{
			auto it = objs.find(id);
			if (it != objs.end()) return it->second;
			int i = (int)objs.size();
			objs[id] = i; objQ.push_back(id);
			return i;
		}
		std::vector<int> listQ;
		int list(int h)
		{
			auto it = lists.find(h);
			if (it != lists.end()) return it->second;
			int i = (int)lists.size();
			lists[h] = i; listQ.push_back(h);
			return i;
		}
		// a description of one value with positions renamed locally (used in list summaries)
		string local(const Val& v, std::map<Lin, int>& nm, int depth = 0)
		{
			string r;
			auto lin = [&](const Lin& l0) { Lin l = A.norm(l0); if (l.isConst() && A.exactInt(l.c)) return std::to_string(l.c); auto it = nm.find(l); if (it == nm.end()) it = nm.insert({ l, (int)nm.size() }).first; return "#" + std::to_string(it->second); };
			if (depth > 20) return "..";
			switch (v.k)
			{
			case VK::Undef: return "u";
			case VK::Int: return "i" + lin(v.lin);
			case VK::Ptr:
			{
				if (v.obj == 0) return "n";
				auto o = A.objp(v.obj);
				if (!o) return "x";
				if (o->kind == OK::Input) { auto it = nm.find(A.norm(v.lin)); if (it == nm.end()) it = nm.insert({ A.norm(v.lin), (int)nm.size() }).first; return "p#" + std::to_string(it->second); }
				if (gObjs.count(v.obj)) return "g" + std::to_string(v.obj);
				r = "{";
				for (auto& c : o->cells) r += std::to_string(c.first) + ":" + local(c.second.v, nm, depth + 1) + ";";
				return r + "}";
			}
			case VK::Term:
				if (v.term->kind == "lh")
				{
					r = "LIST[";
					auto it = s.lists.find((int)v.term->args[0].lin.c);
					if (it != s.lists.end()) for (auto& x : it->second->items) r += local(x, nm, depth + 1) + ",";
					return r + "]";
				}
				r = v.term->kind + "(";
				for (auto& a : v.term->args) r += local(a, nm, depth + 1) + ",";
				return r + ")";
			case VK::Agg: r = "["; for (auto& a : *v.agg) r += local(a, nm, depth + 1) + ","; return r + "]";
			default: return "?";
			}
		}
	};
	string canon(State& st)
	{
		State* save = S; S = &st;
		Canon c(*this, st);
		c.out.reserve(4096);
		c.point(Lin(0));
		for (int t = 0; t < 2; t++)
		{
			auto& th = st.th[t];
			c.out += "T" + std::to_string(t) + (th.done ? "d " : "r ");
			for (auto& f : th.stack)
			{
				char buf[64]; snprintf(buf, sizeof buf, "F%p@%p ", (const void*)f->f, (const void*)(f->it == f->bb->end() ? nullptr : &*f->it));
				c.out += buf;
				if (f->it == f->bb->end()) { for (auto& r : f->regs) c.val(r); }
				else
				{
					auto& live = liveBefore(f->f, &*f->it);
					for (size_t k = 0; k < f->regs.size(); k++) if (live[k]) c.val(f->regs[k]); else c.out += "_ ";
				}
			}
			c.out += "out:";
			for (auto& o : th.out) { c.out += o.tag; c.val(o.v); }
		}
		// lists: pair lists of the two threads to summarise their common history
		size_t li = 0, oi = 0;
		std::vector<int> order;
		std::set<int> summarized;
		auto drain = [&] {
			while (oi < c.objQ.size())
			{
				int id = c.objQ[oi++];
				auto o = objp(id);
				c.out += "O" + std::to_string(oi) + (o->dead ? "D" : "") + ":";
				for (auto& cell : o->cells) { c.num(cell.first); c.val(cell.second.v); }
			}
		};
		drain();
		// collect long lists reachable so far (nested ones are described inside the summaries)
		std::vector<std::pair<int, const List*>> longs;
		std::vector<List*> all;
		const size_t KEEP = keepItems;
		for (li = 0; li < c.listQ.size(); li++)
		{
			int h = c.listQ[li];
			auto& l = *st.lists[h];
			c.out += "\nl" + std::to_string(li) + ":";
			if (l.sizeSeen) c.out += "S" + std::to_string(std::min<i64>((i64)l.items.size(), K + 1)) + " ";
			if (l.items.size() <= KEEP)
			{
				c.num((i64)l.items.size());
				for (auto& x : l.items) c.val(x);
			}
			else longs.push_back({ (int)li, &l });
			drain();
		}
		if (!st.th[0].trace.items.empty()) longs.push_back({ -1, &st.th[0].trace });
		if (!st.th[1].trace.items.empty()) longs.push_back({ -2, &st.th[1].trace });
		// pair by length, in order
		std::vector<char> used(longs.size(), 0);
		for (size_t i = 0; i < longs.size(); i++)
		{
			if (used[i]) continue;
			used[i] = 1;
			size_t best = (size_t)-1;
			for (size_t j = i + 1; j < longs.size(); j++)
			{
				if (used[j]) continue;
				i64 d = (i64)longs[j].second->items.size() - (i64)longs[i].second->items.size();
				if (d < -1 || d > 1) continue;
				// must look at the same history: compare the positions of the first elements
				std::map<Lin, int> n1, n2;
				string a = c.local(longs[i].second->items[0], n1), b = c.local(longs[j].second->items[0], n2);
				bool rel = false;
				for (auto& p : n1) if (n2.count(p.first)) rel = true;
				if (n1.empty() || n2.empty()) rel = true;
				if (!rel) continue;
				best = j;
				break;
			}
			auto* A = longs[i].second;
			auto* B = best == (size_t)-1 ? nullptr : longs[best].second;
			if (best != (size_t)-1) used[best] = 1;
			c.out += "\nP" + std::to_string(longs[i].first) + "," + (B ? std::to_string(longs[best].first) : string("-"));
			size_t na = A->items.size(), nb = B ? B->items.size() : 0;
			if (B)
			{
				size_t n = std::min(na, nb);
				c.out += "diff" + std::to_string((i64)na - (i64)nb) + " ";
				std::set<string> sigs;
				size_t old = n > KEEP ? n - KEEP : 0;
				for (size_t k = 0; k < old; k++)
				{
					std::map<Lin, int> nm;
					string s1 = c.local(A->items[k], nm), s2 = c.local(B->items[k], nm);
					sigs.insert(s1 + "~" + s2);
				}
				for (auto& x : sigs) c.out += x + ";";
				for (size_t k = old; k < na; k++) c.val(A->items[k]);
				c.out += "|";
				for (size_t k = old; k < nb; k++) c.val(B->items[k]);
			}
			else { c.num((i64)na); for (auto& x : A->items) c.val(x); }
			drain();
		}
		// lists discovered while describing pairs
		for (; li < c.listQ.size(); li++)
		{
			auto& l = *st.lists[c.listQ[li]];
			c.out += "\nl" + std::to_string(li) + ":";
			c.num((i64)l.items.size());
			for (auto& x : l.items) c.val(x);
			drain();
		}
		// facts about live positions
		for (auto& o : st.oracle)
		{
			auto it = c.points.find(norm(o.first.second.first));
			if (it == c.points.end()) continue;
			c.out += "Q" + std::to_string(o.first.first) + "@" + std::to_string(it->second) + "e";
			auto e = c.points.find(norm(o.first.second.second));
			c.out += e == c.points.end() ? "?" : std::to_string(e->second);
			c.out += "=" + std::to_string(o.second.kind);
			if (o.second.kind) { auto q = c.points.find(norm(o.second.np)); c.out += q == c.points.end() ? "?" : std::to_string(q->second); }
			c.out += " ";
		}
		for (auto& e : st.esets)
		{
			Lin p = norm(e.first.second);
			int best = -1; i64 dist = 0;
			for (size_t i = 0; i < c.plist.size(); i++)
				if (c.plist[i].t == p.t && p.c >= c.plist[i].c && p.c - c.plist[i].c <= K && (best < 0 || p.c - c.plist[i].c < dist)) { best = (int)i; dist = p.c - c.plist[i].c; }
			if (best < 0) continue;
			u64 h = 1469598103934665603ull;
			for (auto x : *e.second) { h ^= x + 1; h *= 1099511628211ull; }
			c.out += "E" + std::to_string(e.first.first) + ":" + std::to_string(best) + "+" + std::to_string(dist) + "=" + std::to_string(h) + " ";
		}
		for (auto& p : st.preds)
		{
			// only predicates over live positions matter
			std::map<Lin, int> nm;
			string d = c.local(p.first.second, nm);
			bool live = true;
			string where2;
			for (auto& q : nm) { Lin e; auto it = c.points.find(q.first); if (it == c.points.end()) { live = false; break; } where2 += std::to_string(it->second) + ","; }
			if (live) c.out += "R" + std::to_string(p.first.first) + d + where2 + (p.second ? "y" : "n") + " ";
		}
		for (auto& p : st.choices) c.out += p.first + "=" + std::to_string(p.second) + " ";
		for (auto& p : st.opaque) c.out += "?" + p.first + "=" + std::to_string(p.second) + " ";
		c.chunks.push_back(c.out);
		// big integers as distances between live points
		string res;
		bool haveBig = false; i64 prevBig = 0;
		for (auto& ch : c.chunks)
		{
			if (!ch.empty() && ch[0] == '\1')
			{
				i64 v = std::stoll(ch.substr(1));
				string enc = "B" + std::to_string(v) + " ";
				bool f = false;
				for (size_t i = 0; i < c.plist.size() && !f; i++)
					for (size_t j = 0; j < c.plist.size() && !f; j++)
						if (c.plist[i].t == c.plist[j].t && c.plist[i].c - c.plist[j].c == v) { enc = "d1:" + std::to_string(i) + "-" + std::to_string(j) + " "; f = true; }
				if (!f && v > -((i64)1 << 31) && v < ((i64)1 << 31))
				{
					// beyond every constant of the analysed code: only its order and its distance to others matter
					enc = v > 0 ? "B+" : "B-";
					if (accel) enc += std::to_string(std::distance(turns.begin(), turns.lower_bound(v)));
					else if (haveBig) { i64 d = v - prevBig; enc += d > K ? "+" : d < -K ? "-" : std::to_string(d); }
					haveBig = true; prevBig = v;
					enc += " ";
				}
				res += enc;
			}
			else res += ch;
		}
		// relations between live points, k-extrapolated
		size_t n = c.plist.size();
		for (size_t i = 0; i < n; i++)
			for (size_t j = 0; j < n; j++)
			{
				if (i == j) continue;
				i64 lo, hi;
				range(norm(sub(c.plist[i], c.plist[j])), lo, hi);
				if (hi > K) res += "+ ";
				else if (hi < -K) res += "- ";
				else res += std::to_string(hi) + " ";
			}
		S = save;
		return res;
	}

	// ---------------------------------------------------------------- exploration
	string pathOf(State& s)
	{
		std::vector<string> v;
		for (auto p = s.log; p; p = p->up) v.push_back(p->s);
		string r;
		size_t n = v.size();
		size_t skip = n > 40 ? n - 40 : 0;
		if (skip) r = "... ";
		for (size_t i = n - skip; i-- > 0;) r += v[i] + "; ";
		return r;
	}
	void report(const string& cat, const string& msg, const string& loc)
	{
		static const std::set<string> observed{ "success", "remaining-data", "remaining-size", "fail-remaining-data", "fail-remaining-size", "value", "calls", "other" };
		if (accel && !observed.count(cat)) return; // the second run looks for results only
		string key = cat + "|" + loc + "|" + (cat == "value" || cat == "success" ? "" : msg.substr(0, 60));
		string path = pathOf(*S);
		string when; // on a path that asked whether it is constant evaluated, and was told
		if (S->choices.count("constant-evaluated")) when = S->choices["constant-evaluated"] ? "+ce" : "+rt";
		if (!violKeys.insert(key + when).second) return;
		if (viols.size() < 20) viols.push_back({ cat + when, msg, loc, path });
	}
	void finish()
	{
		paths++;
		auto& a = S->th[0].out; auto& b = S->th[1].out;
		size_t n = std::min(a.size(), b.size());
		for (size_t i = 0; i < n; i++)
		{
			if (a[i].tag != b[i].tag) { report("success", "the analysed code reports '" + a[i].tag + "' where the specification has '" + b[i].tag + "'", entry); return; }
			pairsChecked++;
			if (!eqVal(a[i].v, b[i].v))
			{
				report(a[i].tag, "got " + show(a[i].v) + ", specified " + show(b[i].v), entry);
				return;
			}
		}
		if (a.size() != b.size()) { report("other", "different number of observations", entry); return; }
		auto& x = S->th[0].trace.items; auto& y = S->th[1].trace.items;
		bool same = x.size() == y.size();
		for (size_t i = 0; same && i < x.size(); i++) if (!eqVal(x[i], y[i])) same = false;
		if (!same)
		{
			string sx, sy;
			for (auto& v : x) sx += show(v) + " ";
			for (auto& v : y) sy += show(v) + " ";
			if (S->th[0].noteQueries)
			{
				size_t k = 0; // asking less than specified is no fault
				for (auto& v : y) if (k < x.size() && eqVal(x[k], v)) k++;
				if (k == x.size()) return;
			}
			report("calls", string(S->th[0].noteQueries ? "operands run and user functions called" : "user functions called") + ": [" + sx + "], specified: [" + sy + "]", entry);
		}
	}
	// run until both threads are blocked or done; returns alternatives to apply, empty when the path ended
	bool advance(State& st, std::vector<Alt>& alts)
	{
		S = &st;
		try
		{
			for (;;)
			{
				if (st.th[0].done && st.th[1].done) { finish(); return false; }
				st.cur = (!st.th[0].done && !st.th[0].blocked) ? 0 : (!st.th[1].done && !st.th[1].blocked) ? 1 : -1;
				if (st.cur < 0)
				{
					// both are blocked or done: split
					st.cur = st.th[0].done ? 1 : 0;
					st.th[0].blocked = st.th[1].blocked = false;
					try { step(); }
					catch (NeedFork& f)
					{
						alts = std::move(f.alts);
						return true;
					}
					continue;
				}
				try { step(); }
				catch (NeedFork&) { st.th[st.cur].blocked = true; }
			}
		}
		catch (Stop& v)
		{
			paths++;
			if (st.cur == 1) { unsup.push_back("specification of " + entry + " failed: " + v.cat + ": " + v.msg + " at " + where() + " path " + pathOf(st)); return false; }
			report(v.cat, v.msg, where());
			return false;
		}
		catch (Prune&) { return false; }
		catch (NeedFork&)
		{
			// a split needed while comparing final results: perform it
			return finishFork(st, alts);
		}
	}
	bool finishFork(State& st, std::vector<Alt>& alts)
	{
		S = &st;
		paths--;
		try { finish(); return false; }
		catch (NeedFork& f) { paths--; alts = std::move(f.alts); return true; }
	}
	void run(const Function* lib, const Function* ref)
	{
		auto t0 = std::chrono::steady_clock::now();
		// the constants the analysed code compares with bound how far loops are followed exactly
		K = 3;
		std::set<const Function*> seen;
		std::vector<const Function*> q{ lib };
		std::set<i64> imm;
		while (!q.empty())
		{
			auto* f = q.back(); q.pop_back();
			if (!seen.insert(f).second) continue;
			auto& fi = info(f);
			if (fi.k3) K = std::max(K, fi.maxConst + 1);
			if (fi.k3)
				for (auto& i : instructions(*f))
					if (isa<ICmpInst>(i) || isa<SwitchInst>(i) || isa<BinaryOperator>(i))
						for (auto& o : i.operands()) if (auto* ci = dyn_cast<ConstantInt>(o)) if (ci->getBitWidth() >= 8 && ci->getBitWidth() <= 64) imm.insert(ci->getSExtValue());
			for (auto& i : instructions(*f))
				if (auto* c = dyn_cast<CallBase>(&i)) if (auto* g = c->getCalledFunction()) if (!g->isDeclaration()) q.push_back(g);
		}
		if (accel)
		{
			K = 3;
			for (i64 x : imm) if (x < ((i64)1 << 31) && x > -((i64)1 << 31)) { turns.insert(x); turns.insert(-x); }
			for (i64 x : { 128, 256, 32768, 65536 }) { turns.insert(x); turns.insert(-x); }
		}
		for (auto* f : seen)
			if (info(f).k3)
				for (auto& i : instructions(*f))
					if (isa<BinaryOperator>(i) && i.getOpcode() == Instruction::Add && (i.getType()->isIntegerTy(8) || i.getType()->isIntegerTy(16))) counters = true;
		for (i64 x : imm) if (x > 70000 && x < ((i64)1 << 31)) counters = true;
		extraSeeds.assign(imm.begin(), imm.end());
		if (extraSeeds.size() > 40) extraSeeds.resize(40);
		auto init = std::make_shared<State>();
		S = init.get();
		try
		{
			S->cur = 0; push(lib, {}, nullptr);
			S->cur = 1; push(ref, {}, nullptr);
		}
		catch (...) { unsup.push_back("cannot start"); return; }
		std::vector<sp<State>> work{ init };
		while (!work.empty())
		{
			if (forks > maxForks || paths > maxPaths || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tLimit)
			{
				overBudget = true;
				unsup.push_back("analysis budget exceeded (" + std::to_string(paths) + " paths, " + std::to_string(forks) + " splits)");
				break;
			}
			if (viols.size() >= 8) break;
			auto st = work.back(); work.pop_back();
			std::vector<Alt> alts;
			bool more = false;
			try { more = advance(*st, alts); }
			catch (Unsupported& u)
			{
				S = st.get();
				string w;
				try { w = where(); } catch (...) {}
				unsup.push_back(u.msg + " at " + w);
				if (unsup.size() > 10) break;
				continue;
			}
			if (!more) continue;
			forks++;
			string key = canon(*st);
			if (getenv("VP_DUMP")) fprintf(stderr, "=== %s\n%s\n", pathOf(*st).c_str(), key.c_str());
			bool again = false;
			if (accel)
			{
				std::vector<Slot> where; std::vector<i64> vals;
				bigScalars(*st, where, vals);
				auto& earlier = before[key];
				if (earlier.empty() || vals.empty()) { if (!vals.empty()) earlier.push_back({ vals, st->log }); }
				else
				{
					// only on the way here: what came to look the same on another way is no earlier iteration. And only once it went on by
					// the same three times
					std::set<const LogNode*> way;
					for (auto* l = st->log.get(); l; l = l->up.get()) way.insert(l);
					std::vector<const std::vector<i64>*> its;
					for (auto& e : earlier) if (way.count(e.second.get())) its.push_back(&e.first);
					its.push_back(&vals);
					bool steady = its.size() > 1;
					for (size_t i = 1; i < its.size() && steady; i++)
					{
						bool moves = false;
						if (its[i]->size() != its[0]->size()) { steady = false; break; }
						for (size_t j = 0; j < its[0]->size(); j++)
						{
							if ((*its[i])[j] != (*its[i - 1])[j]) moves = true;
							if (i > 1 && (*its[i])[j] - (*its[i - 1])[j] != (*its[1])[j] - (*its[0])[j]) steady = false;
						}
						if (!moves) steady = false;
					}
					if (steady && its.size() > 3)
					{
						auto c = jump(*st, *its[its.size() - 2]);
						if (c && jumped.insert(canon(*c)).second) work.push_back(c);
					}
					else if (steady) { earlier.push_back({ vals, st->log }); again = true; }
				}
			}
			if (!visited.insert(key).second && !again) { merged++; continue; }
			statesN++;
			st->sinceFork = 0;
			for (size_t i = alts.size(); i-- > 0;)
			{
				auto c = std::make_shared<State>(*st);
				c->log = std::make_shared<LogNode>(LogNode{ alts[i].desc, st->log });
				S = c.get();
				if (!alts[i].apply(*c)) continue;
				c->depth++;
				work.push_back(c);
			}
		}
	}
};

int main(int argc, char** argv)
{
	if (argc < 2) { fprintf(stderr, "usage: tokflow module.bc [-e name] [-v]\n"); return 2; }
	bool verbose = false;
	string only;
	double tl = 60;
	for (int i = 2; i < argc; i++)
	{
		if (!strcmp(argv[i], "-e")) only = argv[++i];
		else if (!strcmp(argv[i], "-v")) verbose = true;
		else if (!strcmp(argv[i], "-t")) tl = atof(argv[++i]);
	}
	LLVMContext C;
	SMDiagnostic E;
	auto Mod = parseIRFile(argv[1], E, C);
	if (!Mod) { E.print(argv[0], errs()); return 2; }
	M = Mod.get();
	DL = &M->getDataLayout();
	for (auto& f : *M)
	{
		if (f.isDeclaration() || !f.getName().starts_with("lib_")) continue;
		string nm = f.getName().substr(4).str();
		if (!only.empty() && nm != only) continue;
		auto* r = M->getFunction("ref_" + nm);
		if (!r) { fprintf(stderr, "no ref for %s\n", nm.c_str()); return 2; }
		executedK3.clear();
		auto t0 = std::chrono::steady_clock::now();
		std::unique_ptr<Analyzer> AP;
		i64 bound = -1;
		for (i64 b : { (i64)-1, (i64)4, (i64)3, (i64)2 })
		{
			// no fixpoint within the budget: the same obligation for inputs of bounded length
			AP = std::make_unique<Analyzer>();
			AP->entry = nm;
			// a check has to answer in time: late ones are content with less
			double late = getenv("VP_T0") ? (double)time(nullptr) - atof(getenv("VP_T0")) : 0;
			AP->tLimit = late > 400 && b != 2 ? std::min(tl, late > 600 ? 0.5 : 1.5) : tl;
			AP->forceMax = bound = b;
			AP->run(&f, r);
			if (!AP->viols.empty()) break;
			if (b < 0 && late < 400 && (AP->overBudget || AP->counters || getenv("VP_ACCEL")))
			{
				// once more, counters moved on: only what is found counts
				auto Q = std::make_unique<Analyzer>();
				Q->entry = nm;
				Q->tLimit = tl;
				Q->accel = true;
				Q->run(&f, r);
				if (!Q->viols.empty()) { AP = std::move(Q); AP->unsup.clear(); AP->overBudget = false; break; }
			}
			if (!AP->overBudget) break;
		}
		Analyzer& A = *AP;
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		string fns;
		std::set<string> locs;
		for (auto* x : executedK3) if (auto* s = x->getSubprogram()) { string fn = s->getFilename().str(); auto p = fn.find("include/k3/"); if (p != string::npos) fn = fn.substr(p); locs.insert(fn + ":" + std::to_string(s->getLine()) + " " + s->getName().str()); }
		for (auto& l : locs) fns += (fns.empty() ? "\"" : ",\"") + esc(l) + "\"";
		printf("{\"entry\":\"%s\",\"paths\":%llu,\"splits\":%llu,\"merged\":%llu,\"states\":%llu,\"steps\":%llu,\"compared\":%llu,\"K\":%lld,\"bound\":%lld,\"wall\":%.3f,\"functions\":[%s],\"violations\":[",
			nm.c_str(), (unsigned long long)A.paths, (unsigned long long)A.forks, (unsigned long long)A.merged, (unsigned long long)A.statesN, (unsigned long long)A.totalSteps, (unsigned long long)A.pairsChecked, (long long)A.K, (long long)bound, dt, fns.c_str());
		for (size_t i = 0; i < A.viols.size(); i++)
			printf("%s{\"cat\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"path\":\"%s\"}", i ? "," : "", esc(A.viols[i].cat).c_str(), esc(A.viols[i].msg).c_str(), esc(A.viols[i].loc).c_str(), esc(A.viols[i].path).c_str());
		printf("],\"unsupported\":[");
		for (size_t i = 0; i < A.unsup.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(A.unsup[i]).c_str());
		printf("]}\n");
		fflush(stdout);
		(void)verbose;
	}
	return 0;
}
