// Call-graph analyses over the LLVM IR of the instantiated library (unoptimised, with exceptions).
// For every entry (a function whose name starts with "ent_") three rules, each over all functions
// reachable from it through calls and references:
//   unwind  an exception thrown by anything the user supplies reaches the caller of the entry: no call
//           through which it may come is made where it would be swallowed or terminate the program
//   alloc   no path of calls from the entry leads to an allocation function
//   recurse no cycle of calls and no stack allocation of variable size, other than through the user's own rules
// usage: irscan FILE.bc            -> one JSON object per entry
//        irscan --bodies FILE.bc   -> one line per definition that other translation units may share: its name and
//                                     the hash of its body
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <regex>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static std::map<const Function*, string> names;
static string shortName(const Function* f)
{
	auto* sp = f->getSubprogram();
	string file = sp->getFile() ? sp->getFile()->getFilename().str() : "";
	auto p = file.find("include/k3");
	return (p == string::npos ? file : file.substr(p)) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str();
}
static const string& nameOf(const Function* f)
{
	auto& s = names[f];
	if (s.empty())
	{
		s = demangle(f->getName().str());
		// manglings newer than the demangler, and names that only say where they are
		if (s == f->getName().str() && f->getSubprogram()) s = shortName(f);
	}
	return s;
}
static string fileOf(const Function* f)
{
	if (auto* sp = f->getSubprogram()) if (sp->getFile()) return sp->getFile()->getFilename().str().empty() ? "" : (sp->getFile()->getFilename().str());
	return "";
}
static bool inLibrary(const Function* f) { return fileOf(f).find("k3/tok3n") != string::npos; }
static bool inHarness(const Function* f)
{
	string n = fileOf(f);
	return n.find("vp.h") != string::npos || n.find("irh.h") != string::npos || f->getName().starts_with("ent_");
}
static string whereOf(const Instruction* i)
{
	if (auto l = i->getDebugLoc()) return l->getFilename().str() + ":" + std::to_string(l.getLine());
	return fileOf(i->getFunction());
}
static string shortFile(string s)
{
	auto p = s.find("include/k3");
	return p == string::npos ? s : s.substr(p);
}
static string esc(const string& s)
{
	string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32) r += ' ';
		else r += (char)c;
	}
	return r;
}

struct Site { const CallBase* cb; const Function* to; }; // to == nullptr: through a pointer
struct Info
{
	std::vector<Site> sites;
	std::set<const Function*> refs; // every function mentioned: called, or its address taken
	std::set<const Function*> called;
	bool vla = false;
	const Instruction* vlaAt = nullptr;
};
static std::map<const Function*, Info> infos;

static void refsOf(const Value* v, std::set<const Value*>& seen, std::set<const Function*>& out)
{
	if (!isa<Constant>(v) || !seen.insert(v).second) return;
	if (auto* f = dyn_cast<Function>(v)) { out.insert(f); return; }
	if (auto* g = dyn_cast<GlobalVariable>(v)) { if (g->hasInitializer()) refsOf(g->getInitializer(), seen, out); return; }
	if (auto* u = dyn_cast<User>(v)) for (auto& o : u->operands()) refsOf(o.get(), seen, out);
}
static Info& infoOf(const Function* f)
{
	auto it = infos.find(f);
	if (it != infos.end()) return it->second;
	Info& in = infos[f];
	std::set<const Value*> seen;
	for (auto& bb : *f) for (auto& i : bb)
	{
		if (isa<DbgInfoIntrinsic>(i)) continue;
		if (auto* a = dyn_cast<AllocaInst>(&i)) if (!a->isStaticAlloca()) { in.vla = true; in.vlaAt = a; }
		if (auto* cb = dyn_cast<CallBase>(&i))
		{
			const Function* to = cb->getCalledFunction();
			if (!to) to = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
			if (!(to && to->isIntrinsic()) && !cb->isInlineAsm()) in.sites.push_back({ cb, to });
			if (to) in.called.insert(to);
		}
		if (isa<LandingPadInst>(i)) continue;
		for (auto& o : i.operands())
		{
			// the personality and landing pads are no references of the program
			refsOf(o.get(), seen, in.refs);
		}
	}
	return in;
}

static bool isThrowPoint(const Function* f)
{
	StringRef n = f->getName();
	if (n == "vp_query" || n == "vp_query_span" || n == "vp_trace" || n == "vp_pred" || n == "vp_throw") return true;
	if (n.starts_with("_Znw") || n.starts_with("_Zna")) return !f->doesNotThrow();
	return f->isDeclaration() && (n.contains("__throw_") || n == "__cxa_throw");
}
static bool isTerminate(const Function* f)
{
	StringRef n = f->getName();
	return n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_call_unexpected" || n == "exit" || n == "_exit" || n == "_Exit" || n == "_ZSt10unexpectedv";
}
static bool isAlloc(const Function* f)
{
	StringRef n = f->getName();
	return n.starts_with("_Znw") || n.starts_with("_Zna") || n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "posix_memalign" || n == "strdup";
}

// what becomes of an exception that arrives at a landing pad, on the way the program takes if nothing else goes wrong
struct Fate { bool resumes = false; const Instruction* swallowed = nullptr; const Instruction* terminates = nullptr; };
static Fate fateOf(const BasicBlock* pad)
{
	Fate ft;
	std::set<const BasicBlock*> seen{ pad };
	std::deque<const BasicBlock*> q{ pad };
	while (!q.empty())
	{
		auto* b = q.front(); q.pop_front();
		bool cut = false;
		for (auto& i : *b)
		{
			if (auto* cb = dyn_cast<CallBase>(&i))
			{
				auto* to = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				if (to && isTerminate(to)) { ft.terminates = &i; cut = true; break; }
				if (to && (to->getName() == "__cxa_rethrow" || to->getName() == "__cxa_throw" || to->getName().contains("__throw_")))
				{
					if (auto* inv = dyn_cast<InvokeInst>(&i)) { if (seen.insert(inv->getUnwindDest()).second) q.push_back(inv->getUnwindDest()); }
					else ft.resumes = true;
					cut = true;
					break;
				}
			}
			if (isa<ResumeInst>(i)) ft.resumes = true;
			if (isa<ReturnInst>(i)) ft.swallowed = &i;
		}
		if (cut) continue;
		if (auto* inv = dyn_cast<InvokeInst>(b->getTerminator())) { if (seen.insert(inv->getNormalDest()).second) q.push_back(inv->getNormalDest()); continue; }
		for (auto* s : successors(b)) if (seen.insert(s).second) q.push_back(s);
	}
	return ft;
}
static std::map<const BasicBlock*, Fate> fates;
static const Fate& fate(const BasicBlock* b)
{
	auto it = fates.find(b);
	if (it == fates.end()) it = fates.emplace(b, fateOf(b)).first;
	return it->second;
}

static std::map<const Function*, bool> throwsOut; // may an exception leave the function?

static string chain(const std::map<const Function*, const Function*>& from, const Function* f)
{
	std::vector<const Function*> v;
	for (auto* g = f; g;) { v.push_back(g); auto it = from.find(g); g = it == from.end() ? nullptr : it->second; }
	string r;
	for (size_t i = v.size(); i-- > 0;)
	{
		if (!r.empty()) r += " -> ";
		string n = nameOf(v[i]);
		r += n.size() > 160 ? n.substr(0, 160) + "..." : n;
	}
	return r;
}

// what a definition says, whatever it is numbered
static string bodyOf(const Function& f)
{
	string t;
	raw_string_ostream o(t);
	f.print(o);
	static const std::regex noise(R"( #[0-9]+|, ![a-z_.]+ ![0-9]+|!([0-9]+)|; .*|@\.[A-Za-z_.]+[0-9.]*|\.[0-9]+(?=[^0-9])|@(__)?const[A-Za-z_.]*[0-9.]*|\$_[0-9]+)");
	return std::regex_replace(t, noise, "");
}
static int bodies(const char* file)
{
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(file, err, ctx);
	if (!M) { fprintf(stderr, "cannot read %s\n", file); return 3; }
	std::vector<const Function*> fs;
	std::vector<string> at, key;
	for (auto& f : *M) if (!f.isDeclaration() && (f.hasLinkOnceLinkage() || f.hasWeakLinkage()) && inLibrary(&f))
	{
		fs.push_back(&f); at.push_back(shortName(&f));
		string k;
		for (const DIScope* c = f.getSubprogram()->getScope(); c; c = c->getScope()) if (!isa<DIFile>(c)) k = c->getName().str() + "::" + k;
		key.push_back(k + f.getSubprogram()->getName().str());
	}
	StripDebugInfo(*M);
	for (size_t i = 0; i < fs.size(); i++)
		puts(("{\"name\":\"" + esc(key[i]) + "\",\"at\":\"" + esc(at[i]) + "\",\"hash\":\"" + std::to_string(std::hash<string>{}(bodyOf(*fs[i]))) + "\"}").c_str());
	return 0;
}

int main(int argc, char** argv)
{
	if (argc > 2 && string(argv[1]) == "--bodies") return bodies(argv[2]);
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { fprintf(stderr, "cannot read %s\n", argv[1]); return 3; }
	std::set<const Function*> taken; // address taken: may be called through a pointer
	for (auto& f : *M) for (auto* u : f.users())
		if (auto* cb = dyn_cast<CallBase>(u)) { if (cb->getCalledOperand() != &f) taken.insert(&f); }
		else if (!isa<BlockAddress>(u)) taken.insert(&f);
	auto targets = [&](const Site& s) {
		std::vector<const Function*> r;
		if (s.to) r.push_back(s.to);
		else for (auto* t : taken) if (t->getFunctionType() == s.cb->getFunctionType()) r.push_back(t);
		return r;
	};
	// fixpoint: which functions let an exception of the user's out
	for (bool again = true; again;)
	{
		again = false;
		for (auto& f : *M)
		{
			if (f.isDeclaration()) { bool t = isThrowPoint(&f); if (t && !throwsOut[&f]) { throwsOut[&f] = true; again = true; } continue; }
			if (throwsOut[&f]) continue;
			for (auto& s : infoOf(&f).sites)
			{
				bool th = false;
				for (auto* t : targets(s)) th |= throwsOut[t];
				if (!th) continue;
				if (auto* inv = dyn_cast<InvokeInst>(s.cb)) { if (!fate(inv->getUnwindDest()).resumes) continue; }
				throwsOut[&f] = true; again = true;
				break;
			}
		}
	}
	// what only one translation unit of a program may define
	{
		string r;
		for (auto& f : *M) if (!f.isDeclaration() && f.hasExternalLinkage() && inLibrary(&f)) r += (r.empty() ? "" : ",") + ("\"function " + esc(nameOf(&f)) + "\"");
		for (auto& g : M->globals())
		{
			if (g.isDeclaration() || !g.hasExternalLinkage()) continue;
			SmallVector<DIGlobalVariableExpression*, 1> di;
			g.getDebugInfo(di);
			for (auto* d : di) if (d->getVariable()->getFile() && d->getVariable()->getFile()->getFilename().contains("k3/tok3n")) r += (r.empty() ? "" : ",") + ("\"variable " + esc(demangle(g.getName().str())) + "\"");
		}
		puts(("{\"strong\":[" + r + "]}").c_str());
	}
	for (auto& e : *M)
	{
		if (e.isDeclaration() || !e.getName().starts_with("ent_")) continue;
		std::map<const Function*, const Function*> from;
		std::deque<const Function*> q{ &e };
		from[&e] = nullptr;
		size_t nsites = 0, nthrow = 0;
		std::vector<string> viol;
		std::set<string> seenMsg;
		auto report = [&](const char* cat, const string& msg, const string& at, const string& path) {
			string key = string(cat) + msg + at;
			if (!seenMsg.insert(key).second || viol.size() > 20) return;
			viol.push_back("{\"cat\":\"" + string(cat) + "\",\"msg\":\"" + esc(msg) + "\",\"loc\":\"" + esc(shortFile(at)) + "\",\"path\":\"" + esc(path) + "\"}");
		};
		std::vector<const Function*> order;
		while (!q.empty())
		{
			auto* f = q.front(); q.pop_front();
			order.push_back(f);
			if (isAlloc(f)) report("alloc", "calls " + nameOf(f), from[f] ? fileOf(from[f]) : "", chain(from, f));
			if (f->isDeclaration()) continue;
			for (auto* t : infoOf(f).refs) if (!from.count(t)) { from[t] = f; q.push_back(t); }
		}
		std::set<string> fns;
		for (auto* f : order)
		{
			if (f->isDeclaration()) continue;
			auto& in = infoOf(f);
			if (inLibrary(f)) fns.insert(shortFile(fileOf(f)) + ":" + std::to_string(f->getSubprogram()->getLine()) + " " + f->getSubprogram()->getName().str());
			if (in.vla && !inHarness(f)) report("recurse", "allocates an amount of stack that depends on a value", whereOf(in.vlaAt), chain(from, f));
			for (auto& s : in.sites)
			{
				nsites++;
				bool th = false;
				const Function* which = nullptr;
				for (auto* t : targets(s)) if (throwsOut[t]) { th = true; which = t; }
				if (!th) continue;
				nthrow++;
				if (inHarness(f)) continue;
				if (auto* inv = dyn_cast<InvokeInst>(s.cb))
				{
					auto& ft = fate(inv->getUnwindDest());
					if (ft.terminates) report("unwind", "an exception that leaves " + nameOf(which).substr(0, 200) + " terminates the program in " + nameOf(f).substr(0, 200), whereOf(s.cb), chain(from, f));
					if (ft.swallowed) report("unwind", "an exception that leaves " + nameOf(which).substr(0, 200) + " is swallowed by " + nameOf(f).substr(0, 200), whereOf(s.cb), chain(from, f));
				}
				else if (f->doesNotThrow()) report("unwind", "an exception leaves " + nameOf(which).substr(0, 200) + " inside a function that must not throw, " + nameOf(f).substr(0, 200), whereOf(s.cb), chain(from, f));
			}
		}
		// cycles among functions that call each other (Tarjan), the user's own recursive rules taken out
		std::map<const Function*, int> num, low;
		std::vector<const Function*> st;
		std::set<const Function*> on;
		int cnt = 0;
		std::function<void(const Function*)> visit = [&](const Function* f) {
			num[f] = low[f] = ++cnt; st.push_back(f); on.insert(f);
			bool self = false;
			if (!f->isDeclaration())
			{
				std::set<const Function*> next;
				for (auto& s : infoOf(f).sites) for (auto* t : targets(s)) next.insert(t);
				for (auto* t : next)
				{
					if (t->getName().contains("custom_parserIN2vp3RecILi")) continue;
					if (t == f) self = true;
					if (!num.count(t)) { visit(t); low[f] = std::min(low[f], low[t]); }
					else if (on.count(t)) low[f] = std::min(low[f], num[t]);
				}
			}
			if (low[f] == num[f])
			{
				std::vector<const Function*> scc;
				for (;;) { auto* g = st.back(); st.pop_back(); on.erase(g); scc.push_back(g); if (g == f) break; }
				if (scc.size() > 1 || self)
				{
					string r;
					bool lib = false;
					const Function* at = f;
					for (auto* g : scc) { r += (r.empty() ? "" : " , ") + nameOf(g).substr(0, 160); if (inLibrary(g)) { lib = true; at = g; } }
					if (lib) report("recurse", "calls itself: " + r, fileOf(at) + (at->getSubprogram() ? ":" + std::to_string(at->getSubprogram()->getLine()) : ""), chain(from, at));
				}
			}
		};
		visit(&e);
		string out = "{\"entry\":\"" + e.getName().str() + "\",\"functions\":[";
		bool first = true;
		for (auto& s : fns) { out += (first ? "" : ",") + ("\"" + esc(s) + "\""); first = false; }
		out += "],\"reachable\":" + std::to_string(order.size()) + ",\"sites\":" + std::to_string(nsites) + ",\"throwing_sites\":" + std::to_string(nthrow) + ",\"violations\":[";
		for (size_t i = 0; i < viol.size(); i++) out += (i ? "," : "") + viol[i];
		puts((out + "]}").c_str());
	}
	return 0;
}
