/* Path-sensitive abstract interpretation of every function of the library,
 * with function summaries computed bottom-up over the call graph.
 *
 * Nothing is executed: values are abstracted to nullness (pointers) and sign
 * (integers), references to objects to an ownership state, and every path
 * of the control-flow graph is followed until no new abstract state appears.
 */
#include "ir.h"
#include <chrono>
#include <deque>
#include <thread>
#include <mutex>
#include <atomic>
#include <unordered_set>
#include <unordered_map>

/* ---- values ---- */
struct Val {
	enum K : uint8_t { UNK, UNDEF, CONST, SYM, NUL, NN } k = UNK;
	long v = 0;
	bool operator==(const Val &o) const { return k == o.k && v == o.v; }
	bool operator<(const Val &o) const {
		return k != o.k ? k < o.k : v < o.v;
	}
	static Val C(long c) { return {CONST, c}; }
	static Val S(int s) { return {SYM, s}; }
	static Val Null() { return {NUL, 0}; }
};
/* masks: pointers N=1, NN=2; integers neg=1 zero=2 pos=4 */
enum { N = 1, NNB = 2, PANY = 3, NEG = 1, ZERO = 2, POS = 4, IANY = 7 };
/* ownership */
enum Own : uint8_t { OB, OO, OU, OR, OD, OT };
enum { F_EV = 1, F_EXCL = 2, F_STATUS = 4, F_PTR = 8, F_RAW = 16, F_ANNRET = 32,
	F_PEEK = 64, F_EMPTY = 128,
	/* fails only if an argument is NULL, and these are not */
	F_NOFAIL = 256 };

struct SymKey {
	uint8_t kind;	/* P T F A M X O */
	long a, b;
	Val l, r;
	int gen;
	bool operator<(const SymKey &o) const {
		return std::tie(kind, a, b, l, r, gen) <
			std::tie(o.kind, o.a, o.b, o.l, o.r, o.gen);
	}
};
struct SymInfo {
	SymKey key;
	int base = -1;		/* for F, M */
	int path = -1;
	int type = -1;		/* IR type of the value */
	bool ptr = false;
	int depth = 0;
	string desc;
};
struct Attr {
	uint8_t mask = 0, own = OB;
	uint16_t fl = 0;
	uint8_t em = 0;		/* classes that mean failure */
	int line = 0;		/* where created or released: diagnostics only */
	int callee = -1;	/* producing callee, diagnostics and status */
	bool operator==(const Attr &o) const {
		return mask == o.mask && own == o.own && fl == o.fl && em == o.em;
	}
};
struct MemE {
	int base, path;
	Val v;
	uint8_t fl;	/* 1: dangling, 2: written here */
	int line;
	bool operator==(const MemE &o) const {
		return base == o.base && path == o.path && v == o.v && fl == o.fl;
	}
};
struct Impl {
	int a; uint8_t ma; int b; uint8_t mb;
	bool operator==(const Impl &o) const {
		return a == o.a && ma == o.ma && b == o.b && mb == o.mb;
	}
	bool operator<(const Impl &o) const {
		return std::tie(a, ma, b, mb) < std::tie(o.a, o.ma, o.b, o.mb);
	}
};
struct Pend {
	int line, callee;
	bool operator==(const Pend &o) const { return line == o.line && callee == o.callee; }
	bool operator<(const Pend &o) const { return std::tie(line, callee) < std::tie(o.line, o.callee); }
};
enum { S_ERR = 1, S_FAIL = 2, S_CBERR = 4, S_REAL = 8 };
struct State {
	vector<Val> env;
	vector<std::pair<int, Val>> temps;
	vector<MemE> mem;
	vector<std::pair<int, Attr>> at;
	vector<Impl> impl;
	vector<Pend> pend;
	uint8_t fl = 0;
	bool operator==(const State &o) const {
		return fl == o.fl && env == o.env && temps == o.temps &&
			at == o.at && mem == o.mem && impl == o.impl;
	}
	size_t hash() const {
		size_t h = fl;
		auto mix = [&](size_t x) {
			h ^= x + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2);
		};
		for (auto &v : env) mix(v.k * 1000003 + v.v);
		for (auto &t : temps) { mix(t.first); mix(t.second.k * 1000003 + t.second.v); }
		for (auto &m : mem) { mix(m.base * 131 + m.path); mix(m.v.k * 1000003 + m.v.v + m.fl); }
		for (auto &a : at) { mix(a.first); mix(a.second.mask | a.second.own << 8 | a.second.fl << 16); }
		for (auto &i : impl) { mix(i.a * 31 + i.ma); mix(i.b * 31 + i.mb); }
		return h;
	}
};
struct StateHash { size_t operator()(const State &s) const { return s.hash(); } };

/* ---- summaries ---- */
struct Summary {
	bool done = false, isStatic = false;
	uint8_t retMask = 0;
	vector<std::array<uint8_t, 3>> retIf;	/* [param][class] */
	vector<uint8_t> req;			/* dereferences param when NULL */
	vector<int> reqLine;
	vector<uint8_t> mut;			/* writes through param */
	vector<int> mutLine;
	vector<string> mutWhat;
	vector<uint8_t> incref;
	vector<uint8_t> eff;			/* for unannotated: 1 released, 2 kept (bits) */
	vector<uint8_t> outw;			/* may store an owned object through param */
	vector<std::array<uint8_t, 3>> inIf;	/* as retIf, for *param on entry */
	vector<std::array<uint8_t, 3>> outMask;	/* [param][class of result] */
	vector<uint8_t> outSame;		/* *param may be unchanged */
	vector<uint8_t> outOwn;			/* bits: 1 owned, 2 not owned */
	map<std::pair<int,int>, std::array<uint8_t, 2>> outPair; /* [class i] -> mask j */
	vector<uint8_t> exclReq;		/* result shares with this param */
	vector<set<string>> wpaths;		/* fields written through param */
	vector<set<string>> intInit, intClr;	/* integers initialised/cleared through param */
	bool retExcl = true;
	int ident = -2;				/* always returns this parameter */
	vector<uint8_t> consumed, survives;	/* by some / on some path */
	uint8_t retOwn = 0;			/* bits: 1 owned 2 borrowed */
	uint8_t okMask = 0;			/* results without failure */
	int benignLine = 0;
	bool raisesErr = false;			/* may call the error reporter */
	bool failNN = false;			/* may fail on non-NULL arguments */
	bool returns = false;
	void init(size_t n) {
		retIf.assign(n, {0, 0, 0});
		inIf.assign(n, {0, 0, 0});
		outMask.assign(n, {0, 0, 0});
		outSame.assign(n, 0);
		outOwn.assign(n, 0);
		exclReq.assign(n, 0);
		consumed.assign(n, 0);
		survives.assign(n, 0);
		wpaths.assign(n, {});
		intInit.assign(n, {});
		intClr.assign(n, {});
		req.assign(n, 0);
		reqLine.assign(n, 0);
		mut.assign(n, 0);
		mutLine.assign(n, 0);
		mutWhat.assign(n, "");
		incref.assign(n, 0);
		eff.assign(n, 0);
		outw.assign(n, 0);
	}
	bool operator==(const Summary &o) const {
		return retMask == o.retMask && retIf == o.retIf &&
			req == o.req && mut == o.mut && incref == o.incref &&
			eff == o.eff && retExcl == o.retExcl && outw == o.outw &&
			retOwn == o.retOwn && okMask == o.okMask &&
			inIf == o.inIf && outMask == o.outMask &&
			outSame == o.outSame && outOwn == o.outOwn &&
			exclReq == o.exclReq && consumed == o.consumed &&
			survives == o.survives && outPair == o.outPair && wpaths == o.wpaths && intInit == o.intInit && intClr == o.intClr && ident == o.ident &&
			returns == o.returns && failNN == o.failNN;
	}
};
struct Report {
	string cat, fn, file, what;
	int line;
	vector<int> trace;
};

static Program P;
static map<const Fn *, Summary> SUM;
static set<std::pair<string, string>> ownedFields;	/* record, field */
static vector<Report> REPORTS;
static set<string> reportKeys;
static std::mutex repMutex;
static map<string, long> STATS;
static set<string> INCOMPLETE;
/* functions with inferred annotations */
static set<Fn *> INFERRED;
/* unannotated functions that are known to consume their argument
 * on failure and to return it otherwise
 */
static const set<string> TAKEGIVE = {
	"isl_tab_detect_equalities", "isl_scc_graph_reduce",
	"isl_scc_graph_add_reverse_edges", "isl_tab_init_samples",
	"isl_tab_drop_sample", "add_eq", "set_row_cst_to_div",
	"add_lexmin_valid_eq", "add_lexmin_ineq", "cut_to_integer_lexmin",
	"check_samples", "check_integer_feasible",
	"tab_detect_nonnegative_parameters",
	"context_lex_detect_nonnegative_parameters", "add_gbr_eq", "pos_neg",
};
/* ownership contracts of functions that are not annotated:
 * the result, and the arguments
 */
struct Contract { int ret; map<int, int> args; };
static const map<string, Contract> CONTRACTS = {
	{"isl_token_new", {A_GIVE, {}}},
	{"isl_stream_next_token", {A_GIVE, {}}},
	{"isl_stream_next_token_on_same_line", {A_GIVE, {}}},
	{"isl_token_free", {0, {{0, A_TAKE}}}},
	{"isl_stream_push_token", {0, {{1, A_TAKE}}}},
	{"isl_stream_error", {0, {{1, A_KEEP}}}},
	{"isl_token_get_type", {0, {{0, A_KEEP}}}},
};
static bool reporting = false;
static bool dumpCap = false;
static string traceFn;
static int capStates = 40000;

static bool isStatusType(const Type &t)
{
	return t.sp == "isl_bool" || t.sp == "isl_stat" || t.sp == "isl_size";
}

static const set<string> rawAlloc = {
	"isl_malloc_or_die", "isl_calloc_or_die", "malloc", "calloc", "strdup",
};

/* arguments of library functions that have to point to something */
static const map<string, unsigned> libcReads = {
	{"strcmp", 3}, {"strncmp", 3}, {"strcasecmp", 3}, {"strlen", 1},
	{"strdup", 1}, {"strndup", 1}, {"strchr", 1}, {"strrchr", 1},
	{"strstr", 3}, {"strcpy", 3}, {"strcat", 3}, {"strncpy", 3},
	{"strtol", 1}, {"strtoul", 1}, {"strtod", 1}, {"atoi", 1},
	{"atol", 1}, {"fputs", 3}, {"sscanf", 3}, {"fprintf", 3},
	{"isdigit", 0}, {"fclose", 1}, {"fputc", 2}, {"getc", 1},
	{"__gmpz_set_str", 2}, {"mpz_set_str", 2},
};

struct Analyzer {
	const Fn &F;
	Summary sum;
	vector<SymInfo> syms;
	map<SymKey, int> symIdx;
	vector<string> paths;
	map<string, int> pathIdx;
	vector<vector<int>> pathSyms;	/* symbolic indices in a path */
	vector<string> names;		/* callee names for diagnostics */
	map<string, int> nameIdx;
	vector<char> addrTaken;		/* per variable */
	vector<vector<char>> liveV, liveT;
	struct Node { int parent; int block; };
	vector<Node> nodes;
	int curNode = -1;
	int curLine = 0;
	bool quiet = false;		/* suppress side effects of probing */
	long steps = 0;

	Analyzer(const Fn &f) : F(f) {
		sum.init(F.ps.size());
	}

	/* ---- types ---- */
	const Type &T(int i) const {
		static Type none{"?", 'o', "", -1, false};
		return i < 0 || i >= (int) F.tu->types.size() ? none : F.tu->types[i];
	}
	bool isPtr(int t) const { char k = T(t).k; return k == 'p' || k == 'F'; }
	string pointee(int t) const {
		const Type &x = T(t);
		if (x.k != 'p')
			return "";
		const Type &e = T(x.el);
		return e.k == 'r' ? e.arg : "";
	}
	bool isVoidPtr(int t) const {
		return T(t).k == 'p' && T(T(t).el).k == 'v';
	}
	bool isCtx(int t) const { return pointee(t) == "isl_ctx"; }
	bool isObj(int t) const {
		string r = pointee(t);
		return r.compare(0, 4, "isl_") == 0 && r != "isl_ctx" &&
			r != "isl_options" && r != "isl_args";
	}
	uint8_t fullMask(int t) const {
		const Type &x = T(t);
		if (x.k == 'p' || x.k == 'F' || x.k == 'a')
			return PANY;
		if (x.k == 'i' && x.bits < 0)
			return ZERO | POS;
		return IANY;
	}
	bool isUnsigned(int t) const { const Type &x = T(t); return x.k == 'i' && x.bits < 0; }

	/* a function that returns a number or a value of an enumeration and
	 * that returns -1 somewhere, but only if something failed
	 */
	int minusOne = -1;
	static bool isMinusOne(const E *e) {
		while (e && e->op == 'c' && !e->ch.empty())
			e = e->ch.back();
		if (!e)
			return false;
		if (e->op == 'i')
			return e->i == -1;
		return e->op == 'u' && e->s == "-" && !e->ch.empty() &&
			e->ch[0]->op == 'i' && e->ch[0]->i == 1;
	}
	bool isNumStatus() {
		char k = T(F.ret).k;
		if ((k != 'i' && k != 'e') || isStatusType(T(F.ret)))
			return false;
		if (final && (final->okMask & NEG))
			return false;
		if (minusOne < 0) {
			minusOne = 0;
			for (auto &b : F.bl)
				for (auto &i : b.is)
					if (i.k == Instr::RET && isMinusOne(i.r))
						minusOne = 1;
		}
		return minusOne;
	}
	static bool isNum(const Type &t) {
		return t.k == 'i' || (t.k == 'e' && !isStatusType(t));
	}

	/* ---- interning ---- */
	int path(const string &s) {
		auto it = pathIdx.find(s);
		if (it != pathIdx.end())
			return it->second;
		int id = paths.size();
		paths.push_back(s);
		vector<int> ix;
		for (size_t p = 0; (p = s.find("[s", p)) != string::npos; p += 2)
			ix.push_back(atoi(s.c_str() + p + 2));
		pathSyms.push_back(ix);
		return pathIdx[s] = id;
	}
	int nameId(const string &s) {
		auto it = nameIdx.find(s);
		if (it != nameIdx.end())
			return it->second;
		int id = names.size();
		names.push_back(s);
		return nameIdx[s] = id;
	}
	int sym(const SymKey &k, int type, bool ptr, const string &desc,
		int base = -1, int p = -1) {
		auto it = symIdx.find(k);
		if (it != symIdx.end())
			return it->second;
		int id = syms.size();
		SymInfo i;
		i.key = k;
		i.base = base;
		i.path = p;
		i.type = type;
		i.ptr = ptr;
		i.desc = desc;
		if (base >= 0)
			i.depth = syms[base].depth + (k.kind == 'F');
		if (k.kind == 'X') {
			i.depth = 0;
			if (k.l.k == Val::SYM && syms[k.l.v].key.kind == 'X')
				i.depth = syms[k.l.v].depth + 1;
			else
				i.depth = 1;
			if (k.r.k == Val::SYM && syms[k.r.v].key.kind == 'X')
				i.depth = std::max(i.depth, syms[k.r.v].depth + 1);
		}
		syms.push_back(i);
		symIdx[k] = id;
		return id;
	}
	int symParam(int i) {
		return sym({'P', i, 0, {}, {}, 0}, F.ps[i].type,
			isPtr(F.ps[i].type) || T(F.ps[i].type).k == 'a',
			F.ps[i].name);
	}
	/* initial value of *param */
	int symIn(int i) {
		int t = F.ps[i].type;
		if (T(t).k != 'p')
			return -1;
		int e = T(t).el;
		char k = T(e).k;
		if (k != 'p' && k != 'i')
			return -1;
		auto it = symIdx.find({'F', symParam(i), path("[0]"), {}, {}, 0});
		return it == symIdx.end() ? -1 : it->second;
	}
	bool isInSym(int id) {
		const SymInfo &i = syms[id];
		return i.key.kind == 'F' && i.key.gen == 0 && i.base >= 0 &&
			syms[i.base].key.kind == 'P' && paths[i.path] == "[0]";
	}
	int symAddrVar(int v) {
		return sym({'A', v, 0, {}, {}, 0}, -1, true, "&" + F.vnames[v]);
	}

	/* ---- state helpers ---- */
	static Attr *attr(State &s, int id) {
		auto it = std::lower_bound(s.at.begin(), s.at.end(), id,
			[](const std::pair<int, Attr> &a, int b) { return a.first < b; });
		if (it == s.at.end() || it->first != id)
			return nullptr;
		return &it->second;
	}
	uint8_t defMask(int id) {
		if (syms[id].key.kind == 'A' || syms[id].key.kind == 'M')
			return NNB;
		return syms[id].ptr ? PANY :
			(syms[id].type >= 0 ? fullMask(syms[id].type) : IANY);
	}
	Attr &mkAttr(State &s, int id) {
		auto it = std::lower_bound(s.at.begin(), s.at.end(), id,
			[](const std::pair<int, Attr> &a, int b) { return a.first < b; });
		if (it == s.at.end() || it->first != id) {
			Attr a;
			a.mask = defMask(id);
			if (syms[id].ptr)
				a.fl |= F_PTR;
			it = s.at.insert(it, {id, a});
		}
		return it->second;
	}
	MemE *findMem(State &s, int base, int p) {
		for (auto &m : s.mem)
			if (m.base == base && m.path == p)
				return &m;
		return nullptr;
	}
	void setMem(State &s, int base, int p, Val v, uint8_t fl) {
		if (MemE *m = findMem(s, base, p)) {
			m->v = v;
			m->fl = fl;
			m->line = curLine;
			return;
		}
		MemE m{base, p, v, fl, curLine};
		auto it = std::lower_bound(s.mem.begin(), s.mem.end(), m,
			[](const MemE &a, const MemE &b) {
				return std::tie(a.base, a.path) < std::tie(b.base, b.path);
			});
		s.mem.insert(it, m);
	}
	Val getTemp(State &s, int t) {
		for (auto &x : s.temps)
			if (x.first == t)
				return x.second;
		return {};
	}
	void setTemp(State &s, int t, Val v) {
		auto it = std::lower_bound(s.temps.begin(), s.temps.end(), t,
			[](const std::pair<int, Val> &a, int b) { return a.first < b; });
		if (it != s.temps.end() && it->first == t)
			it->second = v;
		else
			s.temps.insert(it, {t, v});
	}
	void addImpl(State &s, int a, uint8_t ma, int b, uint8_t mb) {
		if (a == b)
			return;
		Impl i{a, ma, b, mb};
		auto it = std::lower_bound(s.impl.begin(), s.impl.end(), i);
		if (it != s.impl.end() && *it == i)
			return;
		s.impl.insert(it, i);
	}
	uint8_t maskOf(State &s, Val v) {
		switch (v.k) {
		case Val::CONST:
			return v.v < 0 ? NEG : v.v == 0 ? ZERO : POS;
		case Val::NUL: return N;
		case Val::NN: return NNB;
		case Val::SYM: {
			Attr *a = attr(s, v.v);
			if (a)
				return a->mask;
			return defMask(v.v);
		}
		default: return IANY;
		}
	}
	bool isPtrVal(Val v) {
		return v.k == Val::NUL || v.k == Val::NN ||
			(v.k == Val::SYM && syms[v.v].ptr);
	}

	/* ---- refinement ---- */
	bool refine(State &s, int id, uint8_t m) {
		Attr &a = mkAttr(s, id);
		uint8_t o = a.mask, n = o & m;
		if (n == o)
			return true;
		if (!n)
			return false;
		a.mask = n;
		if (a.em && !(n & ~a.em))
			s.fl |= a.fl & F_NOFAIL ? S_FAIL : S_FAIL | S_REAL;
		if (syms[id].key.kind == 'P' && n == NEG &&
		    isStatusType(T(syms[id].type)))
			s.fl |= S_FAIL;
		if (syms[id].key.kind == 'P' && (a.fl & F_PTR) && n == N &&
		    isPtr(syms[id].type) && (isObj(syms[id].type) ||
			isVoidPtr(syms[id].type) || F.ps[syms[id].key.a].ann))
			s.fl |= S_FAIL;
		if ((a.fl & F_PTR) && n == N && (isInSym(id) ||
		    (syms[id].key.kind == 'F' && isObj(syms[id].type))))
			s.fl |= S_FAIL;
		/* implications */
		for (size_t i = 0; i < s.impl.size(); ++i) {
			Impl im = s.impl[i];
			if (im.a == id && (n & ~im.ma) == 0) {
				if (!refine(s, im.b, im.mb))
					return false;
			} else if (im.b == id && (n & im.mb) == 0) {
				if (!refine(s, im.a, (uint8_t) ~im.ma))
					return false;
			}
		}
		return derived(s, id);
	}
	/* consequences of the value of a difference L - R */
	bool derived(State &s, int id) {
		const SymKey &k = syms[id].key;
		if (!syms[id].ptr && !propagateConst(s, Val::S(id)))
			return false;
		if (k.kind != 'X')
			return true;
		if (k.a == '-' ) {
			uint8_t m = attr(s, id)->mask;
			if (k.l.k == Val::SYM && k.r.k == Val::CONST &&
			    !syms[k.l.v].ptr) {
				long c = k.r.v;
				uint8_t lm = IANY;
				if (!(m & NEG)) {	/* L >= c */
					if (c > 0) lm &= POS;
					else if (c == 0) lm &= ZERO | POS;
				}
				if (!(m & POS)) {	/* L <= c */
					if (c < 0) lm &= NEG;
					else if (c == 0) lm &= NEG | ZERO;
				}
				if (!(m & (NEG | ZERO))) {	/* L > c */
					if (c >= 0) lm &= POS;
					else if (c == -1) lm &= ZERO | POS;
				}
				if (!(m & (POS | ZERO))) {	/* L < c */
					if (c <= 0) lm &= NEG;
					else if (c == 1) lm &= NEG | ZERO;
				}
				if (!(m & ZERO) && c == -1) {
					/* error codes are -1 */
					Attr *a = attr(s, k.l.v);
					if (a && (a->em & NEG))
						lm &= ZERO | POS;
				}
				if (lm != IANY && !refine(s, k.l.v, lm))
					return false;
				return propagateConst(s, k.l);
			}
			if (k.l.k == Val::SYM && k.r.k == Val::SYM && m == ZERO) {
				uint8_t lm = maskOf(s, k.l), rm = maskOf(s, k.r);
				return refine(s, k.l.v, rm) && refine(s, k.r.v, lm);
			}
			if (k.l.k == Val::SYM && k.r.k == Val::SYM &&
			    !syms[k.l.v].ptr) {
				uint8_t lm = maskOf(s, k.l), rm = maskOf(s, k.r);
				if (m == POS && !(rm & NEG))
					return refine(s, k.l.v, POS);
				if (m == NEG && !(lm & NEG))
					return refine(s, k.r.v, POS);
				if (!(m & POS) && !(rm & POS))
					return refine(s, k.l.v, rm);
			}
		}
		return true;
	}
	/* constant bounds on the value of an integer */
	void bounds(State &s, Val L, long &lo, long &hi) {
		lo = -(1L << 40);
		hi = 1L << 40;
		if (L.k == Val::CONST) {
			lo = hi = L.v;
			return;
		}
		if (L.k != Val::SYM || syms[L.v].ptr)
			return;
		uint8_t m = maskOf(s, L);
		if (!(m & NEG)) lo = m & ZERO ? 0 : 1;
		if (!(m & POS)) hi = m & ZERO ? 0 : -1;
		for (auto &x : s.at) {
			const SymKey &k = syms[x.first].key;
			if (k.kind != 'X' || k.a != '-' || k.b != 0 ||
			    !(k.l == L) || k.r.k != Val::CONST)
				continue;
			uint8_t xm = x.second.mask;
			if (!(xm & NEG)) lo = std::max(lo, k.r.v + !(xm & ZERO));
			if (!(xm & POS)) hi = std::min(hi, k.r.v - !(xm & ZERO));
		}
	}
	static uint8_t cmpBounds(long lo1, long hi1, long lo2, long hi2) {
		uint8_t m = 0;
		if (lo1 < hi2) m |= NEG;
		if (hi1 > lo2) m |= POS;
		if (lo1 <= hi2 && lo2 <= hi1) m |= ZERO;
		return m;
	}
	/* make the comparisons of L with constants agree */
	bool propagateConst(State &s, Val L) {
		long lo, hi;
		bounds(s, L, lo, hi);
		if (lo > hi)
			return false;
		vector<std::pair<int, uint8_t>> todo;
		for (auto &x : s.at) {
			const SymKey &k = syms[x.first].key;
			if (k.kind != 'X' || k.a != '-' || k.b != 0 ||
			    !(k.l == L) || k.r.k != Val::CONST)
				continue;
			uint8_t m = cmpBounds(lo, hi, k.r.v, k.r.v);
			if (x.second.mask & ~m)
				todo.push_back({x.first, m});
		}
		for (auto &t : todo)
			if (!refine(s, t.first, t.second))
				return false;
		return true;
	}
	/* facts about l + 1 (or l - 1) from those about l */
	void stepFacts(State &s, Val l, int nv, bool inc) {
		vector<std::pair<Val, uint8_t>> add;	/* nv - first in second */
		auto step = [&](uint8_t m) {
			uint8_t r = 0;
			if (inc) {
				if (m & NEG) r |= NEG | ZERO;
				if (m & (ZERO | POS)) r |= POS;
			} else {
				if (m & POS) r |= POS | ZERO;
				if (m & (ZERO | NEG)) r |= NEG;
			}
			return r;
		};
		if (l.k == Val::CONST) {
			add.push_back({Val::C(l.v + (inc ? 1 : -1)), ZERO});
		} else if (l.k == Val::SYM && l.v != nv) {
			for (auto &x : s.at) {
				const SymKey &k = syms[x.first].key;
				if (k.kind != 'X' || k.a != '-' || k.b != 0)
					continue;
				uint8_t m = x.second.mask;
				if (k.l == l && !(k.r == Val::S(nv))) {
					uint8_t r = step(m);
					if (r != IANY)
						add.push_back({k.r, r});
				} else if (k.r == l && k.l.k == Val::SYM &&
					   !(k.l == Val::S(nv))) {
					uint8_t n = m & ZERO;
					if (m & NEG) n |= POS;
					if (m & POS) n |= NEG;
					uint8_t r = step(n);
					if (r != IANY)
						add.push_back({k.l, r});
				}
			}
		}
		for (auto &x : add) {
			Val L = Val::S(nv), R = x.first;
			uint8_t m = x.second;
			if (R.k == Val::SYM && R.v < L.v) {
				std::swap(L, R);
				uint8_t n = m & ZERO;
				if (m & NEG) n |= POS;
				if (m & POS) n |= NEG;
				m = n;
			}
			Val d = diff(s, L, R);
			if (d.k == Val::SYM)
				refine(s, d.v, m);
		}
	}
	/* symbol for L - R, of which only the sign matters */
	Val diff(State &s, Val L, Val R) {
		if (L.k == Val::CONST && R.k == Val::CONST)
			return Val::C(L.v < R.v ? -1 : L.v > R.v);
		if (L == R && L.k == Val::SYM)
			return Val::C(0);
		if (L.k == Val::UNK || R.k == Val::UNK || L.k == Val::UNDEF ||
		    R.k == Val::UNDEF)
			return {};
		if (R.k == Val::CONST && R.v == 0 && L.k == Val::SYM)
			return L;
		int id = sym({'X', '-', 0, L, R, 0}, -1, false, "");
		if (!attr(s, id)) {
			uint8_t lm = maskOf(s, L), rm = maskOf(s, R);
			uint8_t m = 0;
			for (uint8_t x = 1; x <= 4; x <<= 1)
				for (uint8_t y = 1; y <= 4; y <<= 1) {
					if (!(lm & x) || !(rm & y))
						continue;
					if (x < y) m |= NEG;
					else if (x > y) m |= POS;
					else if (x == ZERO) m |= ZERO;
					else m |= IANY;
				}
			if (isPtrVal(L) || isPtrVal(R))
				m = IANY;
			else {
				long l1, h1, l2, h2;
				bounds(s, L, l1, h1);
				bounds(s, R, l2, h2);
				uint8_t b = m & cmpBounds(l1, h1, l2, h2);
				if (b)
					m = b;
			}
			mkAttr(s, id).mask = m;
		}
		return Val::S(id);
	}
	uint8_t opMask(const string &op) {
		if (op == "<") return NEG;
		if (op == "<=") return NEG | ZERO;
		if (op == ">") return POS;
		if (op == ">=") return POS | ZERO;
		if (op == "==") return ZERO;
		return NEG | POS;
	}
	static bool isCmp(const string &op) {
		return op == "<" || op == "<=" || op == ">" || op == ">=" ||
			op == "==" || op == "!=";
	}
	/* constrain "L op R" to truth; false if infeasible */
	bool assumeCmp(State &s, const string &op0, Val L, Val R, bool truth) {
		uint8_t m = opMask(op0);
		if (!truth)
			m = ~m & IANY;
		/* pointers */
		if (L.k == Val::NUL || L.k == Val::NN)
			std::swap(L, R);
		if (isPtrVal(L) && (R.k == Val::NUL || (R.k == Val::CONST && R.v == 0))) {
			bool eq = m == ZERO;
			if (m != ZERO && m != (NEG | POS))
				return true;
			if (L.k == Val::NUL) return eq;
			if (L.k == Val::NN) return !eq;
			return refine(s, L.v, eq ? N : NNB);
		}
		if (isPtrVal(L) && R.k == Val::NN)
			return true;
		if (isPtrVal(L) && isPtrVal(R)) {
			if (L.k == Val::SYM && R.k == Val::SYM) {
				if (L.v == R.v)
					return m & ZERO;
				if (R < L)
					std::swap(L, R);
				if (m == ZERO) {
					uint8_t c = maskOf(s, L) & maskOf(s, R);
					if (!c)
						return false;
					if (!refine(s, L.v, c) || !refine(s, R.v, c))
						return false;
				}
				Val d = diff(s, L, R);
				if (d.k == Val::SYM &&
				    (m == ZERO || m == (NEG | POS)))
					return refine(s, d.v, m);
			}
			return true;
		}
		if (L.k == Val::CONST && R.k == Val::SYM) {
			std::swap(L, R);
			uint8_t x = m & ZERO;
			if (m & NEG) x |= POS;
			if (m & POS) x |= NEG;
			m = x;
		}
		if (L.k == Val::SYM && R.k == Val::SYM && R.v < L.v) {
			std::swap(L, R);
			uint8_t x = m & ZERO;
			if (m & NEG) x |= POS;
			if (m & POS) x |= NEG;
			m = x;
		}
		Val d = diff(s, L, R);
		if (d.k == Val::CONST)
			return maskOf(s, d) & m;
		if (d.k == Val::SYM)
			return refine(s, d.v, m);
		return true;
	}
	bool assumeVal(State &s, Val v, bool truth) {
		switch (v.k) {
		case Val::CONST: return (v.v != 0) == truth;
		case Val::NUL: return !truth;
		case Val::NN: return truth;
		case Val::SYM:
			if (syms[v.v].ptr)
				return refine(s, v.v, truth ? NNB : N);
			return refine(s, v.v, truth ? (NEG | POS) : ZERO);
		default: return true;
		}
	}
	bool assume(State &s, const E *e, bool truth) {
		if (e->op == 'u' && e->s == "!")
			return assume(s, e->ch[0], !truth);
		if (e->op == 'b' && isCmp(e->s)) {
			Val L = eval(s, e->ch[0]), R = eval(s, e->ch[1]);
			return assumeCmp(s, e->s, L, R, truth);
		}
		if (e->op == 'c' )
			return assume(s, e->ch[0], truth);
		Val v = eval(s, e);
		return assumeVal(s, v, truth);
	}
	/* boolean value of a comparison, as a symbol tied to its operands */
	Val boolSym(State &s, int op, Val L, Val R, int target, uint8_t mTrue,
		    uint8_t full) {
		int id = sym({'X', op, 0, L, R, 0}, -1, false, "");
		Attr &a = mkAttr(s, id);
		a.mask &= ZERO | POS;
		uint8_t tm = mkAttr(s, target).mask;
		if (!(tm & mTrue))
			mkAttr(s, id).mask = ZERO;
		else if (!(tm & ~mTrue & full))
			mkAttr(s, id).mask = POS;
		addImpl(s, id, POS, target, mTrue);
		addImpl(s, id, ZERO, target, full & ~mTrue);
		return Val::S(id);
	}
	Val cmpVal(State &s, const string &op, Val L, Val R) {
		uint8_t m = opMask(op);
		if (L.k == Val::NUL || L.k == Val::NN)
			std::swap(L, R);
		if (isPtrVal(L) && (R.k == Val::NUL || (R.k == Val::CONST && R.v == 0))) {
			if (L.k == Val::NUL) return Val::C(!!(m & ZERO));
			if (L.k == Val::NN) return Val::C(!(m & ZERO));
			if (m == ZERO)
				return boolSym(s, 'z', L, {}, L.v, N, PANY);
			if (m == (NEG | POS))
				return boolSym(s, 'n', L, {}, L.v, NNB, PANY);
			return {};
		}
		if (L.k == Val::CONST && R.k == Val::SYM) {
			std::swap(L, R);
			uint8_t x = m & ZERO;
			if (m & NEG) x |= POS;
			if (m & POS) x |= NEG;
			m = x;
		}
		if (L.k == Val::SYM && R.k == Val::SYM && R.v < L.v) {
			std::swap(L, R);
			uint8_t x = m & ZERO;
			if (m & NEG) x |= POS;
			if (m & POS) x |= NEG;
			m = x;
		}
		Val d = diff(s, L, R);
		if (d.k == Val::CONST)
			return Val::C(!!(maskOf(s, d) & m));
		if (d.k == Val::SYM)
			return boolSym(s, 'c', Val::C(m), d, d.v, m, IANY);
		return {};
	}
	Val boolOf(State &s, Val v) {
		switch (v.k) {
		case Val::CONST: return Val::C(v.v != 0);
		case Val::NUL: return Val::C(0);
		case Val::NN: return Val::C(1);
		case Val::SYM:
			if (syms[v.v].ptr)
				return boolSym(s, 'n', v, {}, v.v, NNB, PANY);
			if (!(maskOf(s, v) & NEG) && syms[v.v].key.kind == 'X')
				return v;
			return boolSym(s, 't', v, {}, v.v, NEG | POS, IANY);
		default: return {};
		}
	}

	/* ---- reporting ---- */
	void report(const string &cat, int line, const string &what) {
		if (!reporting || quiet)
			return;
		string key = cat + "|" + F.name + "|" + F.file + "|" +
			std::to_string(line) + "|" + what;
		std::lock_guard<std::mutex> g(repMutex);
		if (!reportKeys.insert(key).second)
			return;
		Report r{cat, F.name, F.file, what, line, {}};
		int n = curNode;
		int lim = 200;
		while (n >= 0 && lim--) {
			const Block &b = F.bl[F.bidx[nodes[n].block]];
			int l = b.tline;
			if (!b.is.empty())
				l = b.is[0].line ? b.is[0].line : l;
			if (l && (r.trace.empty() || r.trace.back() != l))
				r.trace.push_back(l);
			n = nodes[n].parent;
		}
		std::reverse(r.trace.begin(), r.trace.end());
		REPORTS.push_back(r);
	}
	string describe(int id) {
		const SymInfo &i = syms[id];
		switch (i.key.kind) {
		case 'P': return "parameter '" + i.desc + "'";
		case 'T': return "result of " + i.desc;
		case 'F': return (i.base >= 0 ? shortd(i.base) + "->" : string()) +
			paths[i.path];
		case 'A': case 'O': return i.desc;
		}
		return i.desc.empty() ? "value" : i.desc;
	}
	string shortd(int id) {
		const SymInfo &i = syms[id];
		if (i.key.kind == 'P' || i.key.kind == 'A')
			return i.desc;
		if (i.key.kind == 'T')
			return i.desc;
		if (i.key.kind == 'F')
			return shortd(i.base) + "->" + paths[i.path];
		return "?";
	}

	/* ---- locations ---- */
	struct Loc {
		enum { NONE, VAR, MEM } k = NONE;
		int var = -1;
		int base = -1;
		string path;
		bool unknownIdx = false;
		string rec, field;	/* outermost named field */
	};
	string idxKey(State &s, Val i) {
		if (i.k == Val::CONST)
			return "[" + std::to_string(i.v) + "]";
		if (i.k == Val::SYM)
			return "[s" + std::to_string(i.v) + "]";
		return "[?]";
	}
	/* Is "e" a structure embedded at the start of another structure? */
	bool embeddedFirst(const E *e) {
		if (e->type < 0 || T(e->type).k != 'r')
			return false;
		return P.firstStruct.count({e->s2, e->s});
	}
	Loc loc(State &s, const E *e) {
		Loc r;
		switch (e->op) {
		case 'v': {
			const Type &t = T(F.vtypes[e->a]);
			if ((t.k == 'r' || t.k == 'a') && !isParam(e->a)) {
				r.k = Loc::MEM;
				r.base = symAddrVar(e->a);
				return r;
			}
			if (t.k == 'r') {
				r.k = Loc::MEM;
				r.base = symAddrVar(e->a);
				return r;
			}
			r.k = Loc::VAR;
			r.var = e->a;
			return r;
		}
		case 'm': {
			if (e->arrow) {
				Val b = eval(s, e->ch[0]);
				deref(s, b, e->line);
				if (b.k != Val::SYM)
					return r;
				r = atPtr(b.v);
			} else {
				const E *b = e->ch[0];
				if (b->op == 't') {
					/* member of a structure result */
					Val v = getTemp(s, b->a);
					if (v.k != Val::SYM)
						return r;
					r.k = Loc::MEM;
					r.base = v.v;
				} else
					r = loc(s, b);
				if (r.k != Loc::MEM)
					return {};
			}
			if (!r.path.empty())
				r.path += ".";
			if (embeddedFirst(e)) {
				/* same address as the enclosing object */
				if (!r.path.empty())
					r.path.pop_back();
				return r;
			}
			r.path += e->s;
			r.rec = e->s2;
			r.field = e->s;
			return r;
		}
		case 'x': {
			const E *b = e->ch[0];
			bool arr = isArrayLv(b);
			Val i = eval(s, e->ch[1]);
			if (arr) {
				r = loc(s, b);
				if (r.k != Loc::MEM)
					return {};
			} else {
				Val p = eval(s, b);
				deref(s, p, e->line);
				if (p.k != Val::SYM)
					return r;
				r = atPtr(p.v);
			}
			string k = idxKey(s, i);
			if (k == "[?]")
				r.unknownIdx = true;
			r.path += k;
			return r;
		}
		case '*': {
			Val p = eval(s, e->ch[0]);
			deref(s, p, e->line);
			if (p.k != Val::SYM)
				return r;
			r = atPtr(p.v);
			if (r.k == Loc::MEM && syms[p.v].key.kind != 'M' &&
			    syms[p.v].key.kind != 'A')
				r.path += "[0]";
			return r;
		}
		case 'c':
			return loc(s, e->ch[0]);
		case 't': {
			/* structure value of a call */
			Val v = getTemp(s, e->a);
			if (v.k == Val::SYM) {
				r.k = Loc::MEM;
				r.base = v.v;
			}
			return r;
		}
		default:
			return r;
		}
	}
	/* the location a pointer symbol points to */
	Loc atPtr(int id) {
		Loc r;
		const SymInfo &i = syms[id];
		if (i.key.kind == 'M') {
			r.k = Loc::MEM;
			r.base = i.base;
			r.path = paths[i.path];
			return r;
		}
		if (i.key.kind == 'A') {
			const Type &t = T(F.vtypes[i.key.a]);
			if (t.k == 'r' || t.k == 'a') {
				r.k = Loc::MEM;
				r.base = id;
			} else {
				r.k = Loc::VAR;
				r.var = i.key.a;
			}
			return r;
		}
		r.k = Loc::MEM;
		r.base = id;
		return r;
	}
	bool isParam(int v) const { return v < (int) F.ps.size(); }
	bool isArrayLv(const E *e) {
		if (e->op == 'm' || e->op == 'x' || e->op == '*')
			return T(e->type).k == 'a';
		if (e->op == 'v')
			return T(F.vtypes[e->a]).k == 'a' && !isParam(e->a);
		return false;
	}
	int lvType(const E *e) {
		switch (e->op) {
		case 'm': case 'x': case '*': case 'g': case 'c':
			return e->type;
		case 'v':
			return F.vtypes[e->a];
		}
		return -1;
	}

	/* ---- dereference ---- */
	void deref(State &s, Val v, int line) {
		if (quiet)
			return;
		if (v.k == Val::NUL) {
			report("null-deref", line, "NULL");
			return;
		}
		if (v.k != Val::SYM)
			return;
		int id = v.v;
		Attr &a = mkAttr(s, id);
		if (a.own == OR && (a.mask & NNB)) {
			report("use-after-release", line, describe(id));
			a.own = OU;
		}
		needNN(s, id, line, "");
	}
	/* the sizes of arrays allocated by the temporaries */
	map<int, vector<Val>> sizes;
	static vector<Val> allocSize(const string &f, const vector<Val> &av) {
		vector<Val> r;
		size_t first = f.compare(0, 4, "isl_") == 0 ? 1 : 0;
		for (size_t i = first; i < av.size(); ++i)
			r.push_back(av[i]);
		return r;
	}
	bool knownZero(State &s, Val v) {
		if (v.k == Val::CONST)
			return v.v == 0;
		if (v.k != Val::SYM || syms[v.v].ptr)
			return false;
		const SymKey k = syms[v.v].key;
		if (k.kind == 'X' && k.a == '*')
			return knownZero(s, k.l) || knownZero(s, k.r);
		if (k.kind == 'X' && k.a == '+')
			return knownZero(s, k.l) && knownZero(s, k.r);
		return attr(s, v.v) && maskOf(s, v) == ZERO;
	}
	/* Is "id" known to be an array of size zero? */
	bool zeroSize(State &s, int id) {
		const vector<Val> *z = sizesOf(id);
		if (z)
			for (auto &v : *z)
				if (knownZero(s, v))
					return true;
		return false;
	}
	const vector<Val> *sizesOf(int id) {
		const SymKey &k = syms[id].key;
		if (k.kind != 'T')
			return nullptr;
		int t0 = id;
		if (k.gen) {
			SymKey k0 = k;
			k0.gen = 0;
			auto it = symIdx.find(k0);
			if (it == symIdx.end())
				return nullptr;
			t0 = it->second;
		}
		auto it = sizes.find(t0);
		return it == sizes.end() ? nullptr : &it->second;
	}
	/* Is "id" an array of size zero if it is NULL? */
	bool emptyArray(State &s, int id) {
		Attr *a = attr(s, id);
		if (a && (a->fl & F_EMPTY))
			return true;
		if (!sizesOf(id))
			return false;
		if (zeroSize(s, id))
			return true;
		State c = s;
		bool q = quiet;
		quiet = true;
		bool feas = refine(c, id, N);
		quiet = q;
		return !feas || zeroSize(c, id);
	}
	/* the object must not be NULL here */
	void needNN(State &s, int id, int line, const string &callee) {
		Attr &a = mkAttr(s, id);
		if (!(a.mask & N) || !(a.fl & F_PTR))
			return;
		bool param = syms[id].key.kind == 'P';
		if (param) {
			int i = syms[id].key.a;
			if (!quiet) {
				if (!sum.req[i])
					sum.reqLine[i] = line;
				sum.req[i] = 1;
			}
		} else if ((a.fl & F_RAW) && emptyArray(s, id)) {
			/* no element will be accessed */
		} else if (a.mask == N) {
			report("null-deref", line, describe(id) +
				(callee.empty() ? "" : " passed to " + callee));
		} else if (a.fl & F_EV) {
			/* only NULL if one of our own parameters is? */
			State c = s;
			bool q = quiet;
			quiet = true;
			bool feas = refine(c, id, N);
			quiet = q;
			if (feas) {
				bool blamed = false;
				for (size_t i = 0; i < F.ps.size(); ++i) {
					if (!isPtr(F.ps[i].type))
						continue;
					int ps = symParam(i);
					if (maskOf(c, Val::S(ps)) == N) {
						if (maskOf(s, Val::S(ps)) != N) {
							if (!quiet) {
								if (!sum.req[i])
									sum.reqLine[i] = line;
								sum.req[i] = 1;
							}
						}
						blamed = true;
					}
				}
				if (!blamed)
					report("null-deref", line, describe(id) +
						(callee.empty() ? "" :
						 " passed to " + callee));
			}
		}
		if (!refine(s, id, NNB))
			mkAttr(s, id).mask = NNB;
	}

	/* ---- rvalues ---- */
	Val readMem(State &s, const Loc &L, int type) {
		if (L.k == Loc::VAR) {
			return readVar(s, L.var);
		}
		if (L.k != Loc::MEM)
			return {};
		const Type &t = T(type);
		int p = path(L.path);
		if (t.k == 'a') {
			/* array decays to its address */
			if (L.path.empty())
				return Val::S(L.base);
			return Val::S(sym({'M', L.base, p, {}, {}, 0}, type, true,
				"", L.base, p));
		}
		if (t.k == 'r') {
			if (L.path.empty())
				return Val::S(L.base);
			return Val::S(sym({'M', L.base, p, {}, {}, 0}, type, true,
				"", L.base, p));
		}
		if (L.unknownIdx)
			return {};
		if (t.k == 'i' && L.path.find('[') != string::npos &&
		    !localBase(L.base))
			return {};
		if (syms[L.base].depth > 5 && !findMem(s, L.base, p))
			return {};
		if (MemE *m = findMem(s, L.base, p)) {
			if (m->fl & 1) {
				/* content was released: the value itself
				 * is still what it was */
			}
			return m->v;
		}
		bool ptr = t.k == 'p' || t.k == 'F';
		int gen = 0, id;
		for (;; ++gen) {
			id = sym({'F', L.base, p, {}, {}, gen}, type, ptr, "",
				L.base, p);
			if (!attr(s, id) || gen >= 3)
				break;
		}
		Attr &a = mkAttr(s, id);
		a = Attr();
		a.mask = fullMask(type);
		if (ptr) {
			a.fl = F_PTR;
			a.mask = PANY;
		} else if (isCount(L.field, L.rec))
			a.mask &= ZERO | POS;
		a.own = OB;
		a.line = curLine;
		if (ptr && wellFormed(s, L, type))
			a.mask = NNB;
		if (syms[L.base].key.kind == 'T' && syms[L.base].type >= 0 &&
		    T(syms[L.base].type).k == 'r')
			a.own = OU;
		if (syms[L.base].key.kind == 'A') {
			/* field of a local structure that was not tracked */
			a.own = OU;
		}
		setMem(s, L.base, p, Val::S(id), 0);
		return Val::S(id);
	}
	/* the mandatory parts of a complete object are there */
	bool wellFormed(State &s, const Loc &L, int type) {
		static const set<string> mand = { "dim", "space", "ls", "v",
			"div", "vec", "poly", "list", "dom", "ran", "map", "inv",
			"mupa", "root", "leaf", "schedule", "ancestors", "tree",
			"p", "set", "aff", "maff", "qp", "fold", "ctx", "el", "row",
			"bset", "key", "val", "node", "guard", "enforced",
		};
		if (syms[L.base].type < 0)
			return false;
		string rec = pointee(syms[L.base].type);
		if (!P.refcounted.count(rec))
			return false;
		Attr *b = attr(s, L.base);
		if (b && (b->fl & F_RAW))
			return false;
		if (!mand.count(L.field))
			return false;
		return isObj(type) || isCtx(type);
	}
	/* fields that hold a number of elements are never negative */
	static bool isCount(const string &f, const string &rec) {
		if (rec.compare(0, 4, "isl_"))
			return false;
		return f == "n" || f == "size" || f == "ref" || f == "depth" ||
			f == "nparam" || f == "len" || f.compare(0, 2, "n_") == 0 ||
			f == "max_con" || f == "max_var" || f == "dim";
	}
	Val readVar(State &s, int v) {
		const Type &t = T(F.vtypes[v]);
		if ((t.k == 'r') || (t.k == 'a' && !isParam(v)))
			return Val::S(symAddrVar(v));
		Val x = s.env[v];
		if (x.k == Val::UNDEF) {
			report("uninit", curLine, F.vnames[v]);
			x = {};
			s.env[v] = x;
		}
		return x;
	}
	Val exprSym(State &s, int op, Val L, Val R, uint8_t m) {
		if (L.k == Val::UNK || R.k == Val::UNK || L.k == Val::UNDEF ||
		    R.k == Val::UNDEF)
			return {};
		auto deep = [&](Val v) {
			return v.k == Val::SYM && syms[v.v].key.kind == 'X' &&
				syms[v.v].depth > 2;
		};
		if (deep(L) || deep(R))
			return {};
		int id = sym({'X', op, 1, L, R, 0}, -1, false, "");
		bool fresh = !attr(s, id);
		Attr &a = mkAttr(s, id);
		if (fresh)
			a.mask = m;
		return Val::S(id);
	}
	Val eval(State &s, const E *e) {
		if (!e)
			return {};
		switch (e->op) {
		case 'v': return readVar(s, e->a);
		case 'i': return Val::C(e->i);
		case 'n': return Val::Null();
		case 's': return {Val::NN, nameId("\"" + e->s)};
		case 'f': return {Val::NN, nameId(e->s)};
		case 'g': return {};
		case 't': return getTemp(s, e->a);
		case 'c': {
			Val v = eval(s, e->ch[0]);
			if (v.k == Val::CONST && v.v == 0 && T(e->type).k == 'p')
				return Val::Null();
			return v;
		}
		case 'm': case 'x': case '*': {
			Loc L = loc(s, e);
			return readMem(s, L, e->type);
		}
		case '&': {
			const E *x = e->ch[0];
			if (x->op == 'f')
				return eval(s, x);
			Loc L = loc(s, x);
			if (L.k == Loc::VAR)
				return Val::S(symAddrVar(L.var));
			if (L.k == Loc::MEM) {
				if (L.path.empty())
					return Val::S(L.base);
				int p = path(L.path);
				return Val::S(sym({'M', L.base, p, {}, {}, 0}, -1,
					true, "", L.base, p));
			}
			return {};
		}
		case 'u': {
			Val v = eval(s, e->ch[0]);
			if (e->s == "!") {
				Val b = boolOf(s, v);
				if (b.k == Val::CONST)
					return Val::C(!b.v);
				if (b.k == Val::SYM)
					return boolSym(s, '!', b, {}, b.v, ZERO, IANY);
				return {};
			}
			if (v.k == Val::CONST) {
				if (e->s == "-") return Val::C(-v.v);
				if (e->s == "~") return Val::C(~v.v);
			}
			if (v.k == Val::SYM && e->s == "-" && !syms[v.v].ptr) {
				uint8_t m = maskOf(s, v), x = m & ZERO;
				if (m & NEG) x |= POS;
				if (m & POS) x |= NEG;
				return exprSym(s, 'u', v, {Val::CONST, 0}, x);
			}
			return {};
		}
		case 'b': {
			Val L = eval(s, e->ch[0]), R = eval(s, e->ch[1]);
			const string &o = e->s;
			if (isCmp(o))
				return cmpVal(s, o, L, R);
			if (o == ",")
				return R;
			if (isPtrVal(L) || isPtrVal(R)) {
				/* pointer arithmetic */
				if (L.k == Val::SYM && syms[L.v].ptr &&
				    (o == "+" || o == "-") && !isPtrVal(R)) {
					int id;
					if (o == "-")
						return {};
					int base = L.v;
					string pre;
					if (syms[L.v].key.kind == 'M') {
						base = syms[L.v].base;
						pre = paths[syms[L.v].path];
					}
					if (R.k == Val::UNK || R.k == Val::UNDEF)
						return {};
					{
						int p = path(pre + idxKey(s, R));
						deref0(s, L);
						id = sym({'M', base, p, {}, {}, 0},
							-1, true, "", base, p);
						return Val::S(id);
					}
				}
				return {};
			}
			if (L.k == Val::CONST && R.k == Val::CONST) {
				long a = L.v, b = R.v;
				if (o == "+") return Val::C(a + b);
				if (o == "-") return Val::C(a - b);
				if (o == "*") return Val::C(a * b);
				if (o == "|") return Val::C(a | b);
				if (o == "&") return Val::C(a & b);
				if (o == "^") return Val::C(a ^ b);
				if (o == "<<" && b >= 0 && b < 62) return Val::C(a << b);
				if (o == ">>" && b >= 0 && b < 62) return Val::C(a >> b);
				if (o == "/" && b) return Val::C(a / b);
				if (o == "%" && b) return Val::C(a % b);
				return {};
			}
			uint8_t lm = maskOf(s, L), rm = maskOf(s, R), m = IANY;
			if (o == "+") {
				if (R.k == Val::CONST && R.v == 0) return L;
				if (L.k == Val::CONST && L.v == 0) return R;
				if (!(lm & NEG) && !(rm & NEG)) {
					m = POS;
					if ((lm & ZERO) && (rm & ZERO))
						m |= ZERO;
				}
				if (R < L)
					std::swap(L, R);
			} else if (o == "*") {
				if (!(lm & NEG) && !(rm & NEG)) {
					m = 0;
					if ((lm & ZERO) || (rm & ZERO))
						m |= ZERO;
					if ((lm & POS) && (rm & POS))
						m |= POS;
				}
				if (R < L)
					std::swap(L, R);
			} else if (o == "-") {
				if (R.k == Val::CONST && R.v == 0) return L;
				return diff(s, L, R);
			} else if (o == "&" || o == ">>" || o == "/" || o == "%") {
				if (!(lm & NEG) && !(rm & NEG))
					m = ZERO | POS;
			}
			return exprSym(s, o[0] == '<' ? 'l' : o[0] == '>' ? 'r' : o[0],
				L, R, m);
		}
		default: {
			for (auto *c : e->ch)
				eval(s, c);
			return {};
		}
		}
	}
	void deref0(State &, Val) {}

	/* ---- ownership ---- */
	int holder(State &s, int id) {
		/* index of the heap memory entry that holds this symbol */
		for (size_t i = 0; i < s.mem.size(); ++i)
			if (s.mem[i].v.k == Val::SYM && s.mem[i].v.v == id)
				return i;
		return -1;
	}
	bool localBase(int b) { return syms[b].key.kind == 'A'; }
	void clearMem(State &s, int base) {
		size_t j = 0;
		for (size_t i = 0; i < s.mem.size(); ++i)
			if (s.mem[i].base != base)
				s.mem[j++] = s.mem[i];
		s.mem.resize(j);
	}
	bool descends(int id, int anc) {
		int n = 20;
		while (id >= 0 && n--) {
			if (id == anc)
				return true;
			id = syms[id].base;
		}
		return false;
	}
	void noteOwnedField(int id) {
		const SymInfo &i = syms[id];
		if (i.key.kind != 'F' || quiet)
			return;
		const SymInfo &b = syms[i.base];
		const string &p = paths[i.path];
		string rec;
		if (b.type >= 0)
			rec = pointee(b.type);
		std::lock_guard<std::mutex> g(repMutex);
		ownedFields.insert({rec, p});
	}
	/* release the reference held by "v" (a take argument, a free, or
	 * a return of an owned reference)
	 */
	void release(State &s, Val v, int line, const string &callee, bool raw) {
		if (v.k != Val::SYM)
			return;
		int id = v.v;
		Attr &a = mkAttr(s, id);
		if (!(a.fl & F_PTR) || !(a.mask & NNB))
			return;
		char kind = syms[id].key.kind;
		switch (a.own) {
		case OO: case OU: case OD:
			a.own = OR;
			break;
		case OR:
			report("double-release", line, describe(id) + " to " + callee);
			a.own = OU;
			return;
		case OT: {
			int h = holder(s, id);
			if (h < 0) {
				a.own = OR;
				break;
			}
			s.mem[h].fl |= 1;
			s.mem[h].line = line;
			a.own = OR;
			break;
		}
		case OB: {
			if (kind == 'P') {
				int i = syms[id].key.a;
				int ann = F.ps[i].ann;
				if (ann & A_KEEP) {
					report("release-kept", line, describe(id) +
						" to " + callee);
					a.own = OU;
					return;
				}
				if (!quiet)
					sum.eff[i] |= 1;
				a.own = OR;
				break;
			}
			int h = holder(s, id);
			if (h >= 0) {
				s.mem[h].fl |= 1;
				s.mem[h].line = line;
				a.own = OR;
				noteOwnedField(id);
				int hb = s.mem[h].base;
				if (syms[hb].key.kind == 'P' && !quiet)
					sum.wpaths[syms[hb].key.a].insert("-" +
						topPath(paths[s.mem[h].path]));
				break;
			}
			if (kind == 'T' && (a.fl & F_ANNRET)) {
				report("release-borrowed", line, describe(id) +
					" to " + callee);
				a.own = OU;
				return;
			}
			a.own = OR;
			break;
		}
		}
		Attr &b = mkAttr(s, id);
		b.line = line;
		if (raw) {
			clearMem(s, id);
			return;
		}
		/* a container that goes with dangling content */
		for (size_t i = 0; i < s.mem.size(); ++i)
			if (s.mem[i].base == id && (s.mem[i].fl & 1)) {
				Val c = s.mem[i].v;
				if (c.k == Val::SYM && !(maskOf(s, c) & NNB))
					continue;
				report("dangling-field", line, shortd(id) + "->" +
					paths[s.mem[i].path] + " released, then " +
					callee);
			}
		clearMem(s, id);
	}
	void useKeep(State &s, Val v, int line, const string &callee) {
		if (v.k != Val::SYM)
			return;
		Attr &a = mkAttr(s, v.v);
		if (a.own == OR && (a.mask & NNB) && (a.fl & F_PTR)) {
			report("use-after-release", line, describe(v.v) + " in " + callee);
			a.own = OU;
		}
	}
	bool exclusive(State &s, int id) {
		Attr &a = mkAttr(s, id);
		if (a.fl & F_EXCL)
			return true;
		if (MemE *m = findMem(s, id, path("ref"))) {
			Val L = m->v, R = Val::C(1);
			if (L.k == Val::CONST)
				return L.v <= 1;
			if (L.k != Val::SYM)
				return false;
			auto it = symIdx.find({'X', '-', 0, L, R, 0});
			if (it == symIdx.end())
				return false;
			Attr *d = attr(s, it->second);
			return d && !(d->mask & POS);
		}
		return false;
	}
	/* Can a reference taken to argument "i" inside the callee
	 * still exist when it returns?  Not if there is no place for it.
	 */
	bool mayKeepCopy(const Instr &I, const Summary &cs, int i) {
		const Type &rt = T(I.type);
		if (rt.k == 'p' || rt.k == 'F' || rt.k == 'r')
			return true;
		for (int j = 0; j < (int) cs.mut.size(); ++j)
			if (j != i && (cs.mut[j] || cs.outw[j]))
				return true;
		return false;
	}
	/* Is "b" an argument without ownership annotation
	 * of a function with internal linkage?
	 * If so, the state it leaves behind is judged at the callers.
	 */
	bool helperParam(int b) {
		return F.isStatic && syms[b].key.kind == 'P' &&
			!F.ps[syms[b].key.a].ann;
	}
	/* Is "b" a pointer to a reference counted object? */
	bool objBase(int b) {
		return syms[b].type >= 0 && P.refcounted.count(pointee(syms[b].type));
	}
	static string topPath(const string &p) {
		size_t e = p.find_first_of(".[", 1);
		return e == string::npos ? p : p.substr(0, e);
	}
	/* a write to memory rooted at symbol b; what is the field */
	void wrote(State &s, int b, const string &what, int line) {
		if (quiet)
			return;
		if (syms[b].key.kind == 'P')
			sum.wpaths[syms[b].key.a].insert(topPath(what));
		int n = 20;
		while (b >= 0 && n--) {
			SymInfo &i = syms[b];
			char k = i.key.kind;
			if (k == 'A')
				return;
			string rec = i.type >= 0 ? pointee(i.type) : "";
			if (rec == "isl_ctx" || rec == "isl_options")
				return;
			if (P.refcounted.count(rec) && rec != "isl_ctx") {
				if (exclusive(s, b))
					return;
				if (k == 'P') {
					int pi = i.key.a;
					if (!sum.mut[pi]) {
						sum.mutLine[pi] = line;
						sum.mutWhat[pi] = what;
					}
					sum.mut[pi] |= 1;
					return;
				}
				if (k == 'T' || k == 'O')
					report("cow-result", line, describe(b) + ": " + what);
				else
					report("cow-field", line, describe(b) + ": " + what);
				return;
			}
			if (k == 'P') {
				int pi = i.key.a;
				if (!sum.mut[pi]) {
					sum.mutLine[pi] = line;
					sum.mutWhat[pi] = what;
				}
				sum.mut[pi] |= 1;
				return;
			}
			if (k == 'T')
				return;
			b = i.base;
		}
	}

	/* ---- stores ---- */
	void store(State &s, const E *lhs, Val v, int line) {
		Loc L = loc(s, lhs);
		storeLoc(s, L, v, line, lvType(lhs));
	}
	void killVarSym(State &, int) {}
	void storeLoc(State &s, const Loc &L, Val v, int line, int type) {
		if (L.k == Loc::VAR) {
			const Type &t = T(F.vtypes[L.var]);
			if (t.k == 'p' && v.k == Val::CONST && v.v == 0)
				v = Val::Null();
			s.env[L.var] = v;
			return;
		}
		if (L.k != Loc::MEM) {
			/* somewhere unknown: the reference escapes */
			escape(s, v);
			return;
		}
		const Type &t = T(type);
		if (t.k == 'p' && v.k == Val::CONST && v.v == 0)
			v = Val::Null();
		if (v.k == Val::SYM)
			useStored(s, v, line);
		bool local = localBase(L.base);
		if (!local)
			wrote(s, L.base, L.path, line);
		if (t.k == 'r') {
			/* structure copy: forget what was there */
			structCopy(s, L, v);
			return;
		}
		int p = path(L.path);
		if (L.unknownIdx) {
			dropArray(s, L);
			escape(s, v);
			return;
		}
		if (MemE *m = findMem(s, L.base, p)) {
			Val old = m->v;
			if (!(m->fl & 1) && old.k == Val::SYM && !(old == v)) {
				Attr &oa = mkAttr(s, old.v);
				if ((oa.fl & F_PTR) && !local) {
					if (oa.own == OT && holders(s, old.v) == 1)
						oa.own = OO;
					else if (oa.own == OB &&
						 syms[old.v].key.kind == 'F' &&
						 ownsField(L, old.v) &&
						 holders(s, old.v) == 1)
						oa.own = OO;
				}
			}
		} else if (!local && reporting && ownsField(L, -1) &&
			   L.path.find('[') == string::npos &&
			   !freshObj(s, L.base) && L.field != "ctx" &&
			   !helperParam(L.base)) {
			report(objBase(L.base) ? "overwrite-owned" : "overwrite-data",
				line, shortd(L.base) + "->" + L.path);
		}
		dropBelow(s, L, p);
		if (t.k == 'i' && L.path.find('[') != string::npos && !local)
			return;
		setMem(s, L.base, p, v, 2);
		if (v.k == Val::SYM) {
			Attr &a = mkAttr(s, v.v);
			if ((a.fl & F_PTR) && !local) {
				if (a.own == OO)
					a.own = OT;
				else if (a.own == OB && syms[v.v].key.kind == 'P' &&
					 !quiet)
					sum.eff[syms[v.v].key.a] |= 4;
			}
			if (syms[v.v].key.kind == 'A')
				mkAttr(s, v.v);
		}
	}
	int holders(State &s, int id) {
		int n = 0;
		for (auto &m : s.mem)
			if (m.v.k == Val::SYM && m.v.v == id)
				++n;
		return n;
	}
	bool freshObj(State &s, int b) {
		int n = 20;
		while (b >= 0 && n--) {
			Attr *a = attr(s, b);
			char k = syms[b].key.kind;
			if (k == 'A')
				return true;
			if (k == 'T')
				return a && ((a->fl & (F_RAW | F_EXCL)));
			b = syms[b].base;
		}
		return false;
	}
	bool ownsField(const Loc &L, int) {
		string rec;
		if (syms[L.base].type >= 0)
			rec = pointee(syms[L.base].type);
		return !rec.empty() && ownedFields.count({rec, L.path});
	}
	void useStored(State &s, Val v, int line) {
		Attr &a = mkAttr(s, v.v);
		if (a.own == OR && (a.mask & NNB) && (a.fl & F_PTR)) {
			report("use-after-release", line, describe(v.v) + " stored");
			a.own = OU;
		}
	}
	void escape(State &s, Val v) {
		if (v.k != Val::SYM)
			return;
		Attr &a = mkAttr(s, v.v);
		if ((a.fl & F_PTR) && a.own == OO)
			a.own = OT;
		else if (a.own == OB && syms[v.v].key.kind == 'P' && !quiet)
			sum.eff[syms[v.v].key.a] |= 4;
	}
	void dropArray(State &s, const Loc &L) {
		string pre = L.path.substr(0, L.path.rfind("[?]"));
		size_t j = 0;
		for (size_t i = 0; i < s.mem.size(); ++i) {
			MemE m = s.mem[i];
			if (m.base == L.base &&
			    paths[m.path].compare(0, pre.size(), pre) == 0 &&
			    paths[m.path].size() > pre.size() &&
			    paths[m.path][pre.size()] == '[')
				continue;
			s.mem[j++] = m;
		}
		s.mem.resize(j);
	}
	/* writing to an array element invalidates elements at other indices
	 * only when these may be the same index; writing a scalar
	 * invalidates nothing else
	 */
	void dropBelow(State &s, const Loc &L, int p) {
		size_t br = L.path.rfind('[');
		if (br == string::npos || L.path.back() != ']')
			return;
		string pre = L.path.substr(0, br);
		string mine = L.path.substr(br);
		bool meConst = mine[1] != 's';
		size_t j = 0;
		for (size_t i = 0; i < s.mem.size(); ++i) {
			MemE m = s.mem[i];
			const string &q = paths[m.path];
			if (m.base == L.base && m.path != p &&
			    q.compare(0, br, pre) == 0 && q.size() > br &&
			    q[br] == '[') {
				size_t e = q.find(']', br);
				string other = q.substr(br, e - br + 1);
				bool otherConst = other[1] != 's';
				if (other != mine && !(meConst && otherConst)) {
					/* keep entries that carry ownership facts */
					if (!(m.fl & 1))
						continue;
				}
			}
			s.mem[j++] = m;
		}
		s.mem.resize(j);
	}
	void structCopy(State &s, const Loc &L, Val v) {
		/* drop entries below the destination */
		string pre = L.path.empty() ? "" : L.path + ".";
		size_t j = 0;
		vector<MemE> add;
		for (size_t i = 0; i < s.mem.size(); ++i) {
			MemE m = s.mem[i];
			const string &q = paths[m.path];
			if (m.base == L.base && q.compare(0, pre.size(), pre) == 0)
				continue;
			if (v.k == Val::SYM) {
				int sb = v.v;
				string sp;
				if (syms[v.v].key.kind == 'M') {
					sb = syms[v.v].base;
					sp = paths[syms[v.v].path] + ".";
				}
				if (m.base == sb && q.compare(0, sp.size(), sp) == 0) {
					MemE c = m;
					c.base = L.base;
					c.path = path(pre + q.substr(sp.size()));
					add.push_back(c);
				}
			}
			s.mem[j++] = m;
		}
		s.mem.resize(j);
		for (auto &m : add)
			setMem(s, m.base, m.path, m.v, m.fl);
	}

	/* ---- calls ---- */
	const FnSig *sigFor(const Instr &I, Fn *callee) {
		if (I.fe)
			return I.sig.get();
		auto it = P.sdecls.find({F.tu, I.name});
		if (it != P.sdecls.end()) {
			/* prefer the declaration with the annotations */
			return best(it->second);
		}
		auto jt = P.decls.find(I.name);
		if (jt != P.decls.end())
			return best(jt->second);
		return nullptr;
	}
	const FnSig *best(const vector<DeclInfo> &v) {
		const FnSig *b = nullptr;
		int bs = -1;
		for (auto &d : v) {
			int sc = !!d.sig.ann;
			for (auto &p : d.sig.ps)
				sc += !!p.ann;
			if (sc > bs) {
				bs = sc;
				b = &d.sig;
			}
		}
		return b;
	}
	static uint8_t classMask(bool ptr, int c) { return 1 << c; }

	/* fresh symbol for a call result or an out value */
	/* symbols renamed by the last call to freshTemp */
	int movedFrom[2] = { -1, -1 }, movedTo[2] = { -1, -1 };
	int moved(int id) {
		if (id >= 0 && id == movedFrom[1])
			return movedTo[1];
		if (id >= 0 && id == movedFrom[0])
			return movedTo[0];
		return id;
	}
	int freshTemp(State &s, int t, int slot, int type, bool ptr,
		      const string &desc) {
		SymKey k0{'T', t, slot, {}, {}, 0};
		int id = sym(k0, type, ptr, desc);
		movedFrom[0] = movedFrom[1] = -1;
		if (attr(s, id)) {
			/* still live: it becomes an older instance */
			SymKey k1 = k0;
			k1.gen = 1;
			int old = sym(k1, type, ptr, desc);
			if (attr(s, old)) {
				SymKey k2 = k0;
				k2.gen = 2;
				int older = sym(k2, type, ptr, desc);
				if (attr(s, older))
					drop(s, older);
				rename(s, old, older);
				movedFrom[1] = old;
				movedTo[1] = older;
			}
			rename(s, id, old);
			movedFrom[0] = id;
			movedTo[0] = old;
		}
		Attr &a = mkAttr(s, id);
		a = Attr();
		a.mask = ptr ? PANY : (type >= 0 ? fullMask(type) : IANY);
		if (ptr)
			a.fl |= F_PTR;
		a.line = curLine;
		return id;
	}
	void drop(State &s, int id) {
		auto repl = [&](Val &v) {
			if (v.k == Val::SYM && v.v == id)
				v = {};
		};
		for (auto &v : s.env) repl(v);
		for (auto &t : s.temps) repl(t.second);
		for (auto &m : s.mem) repl(m.v);
		clearMem(s, id);
		eraseSyms(s, [&](int x) { return x == id || dependsOn(x, id); });
	}
	bool dependsOn(int x, int id) {
		const SymInfo &i = syms[x];
		if (i.key.kind == 'X')
			return (i.key.l.k == Val::SYM &&
				(i.key.l.v == id || dependsOn(i.key.l.v, id))) ||
			       (i.key.r.k == Val::SYM &&
				(i.key.r.v == id || dependsOn(i.key.r.v, id)));
		if (i.base >= 0)
			return i.base == id || dependsOn(i.base, id);
		return false;
	}
	void markEmpty(State &s) {
		for (size_t i = 0; i < s.at.size(); ++i) {
			Attr &a = s.at[i].second;
			if ((a.fl & F_RAW) && !(a.fl & F_EMPTY) && (a.mask & N) &&
			    zeroSize(s, s.at[i].first))
				a.fl |= F_EMPTY;
		}
	}
	template <class Pr> void eraseSyms(State &s, Pr pr) {
		markEmpty(s);
		size_t j = 0;
		for (size_t i = 0; i < s.at.size(); ++i)
			if (!pr(s.at[i].first))
				s.at[j++] = s.at[i];
		s.at.resize(j);
		j = 0;
		for (size_t i = 0; i < s.impl.size(); ++i)
			if (!pr(s.impl[i].a) && !pr(s.impl[i].b))
				s.impl[j++] = s.impl[i];
		s.impl.resize(j);
	}
	std::set<int> flipped;	/* differences whose operands were swapped */
	int renamed(State &s, int x, int from, int to, map<int, int> &memo) {
		if (x == from)
			return to;
		auto it = memo.find(x);
		if (it != memo.end())
			return it->second;
		int r = x;
		const SymInfo i = syms[x];
		if (i.base >= 0 && (i.key.kind == 'F' || i.key.kind == 'M')) {
			int nb = renamed(s, i.base, from, to, memo);
			if (nb != i.base) {
				SymKey k = i.key;
				k.a = nb;
				r = sym(k, i.type, i.ptr, i.desc, nb, i.path);
			}
		} else if (i.key.kind == 'X' && dependsOn(x, from)) {
			SymKey k = i.key;
			bool ok = true;
			for (Val *v : {&k.l, &k.r})
				if (v->k == Val::SYM) {
					int n = renamed(s, v->v, from, to, memo);
					if (n < 0 || flipped.count(v->v))
						ok = false;
					else
						v->v = n;
				}
			if (!ok)
				r = -1;
			else {
				if (k.a == '-' && k.b == 0 && k.l.k == Val::SYM &&
				    k.r.k == Val::SYM && k.r.v < k.l.v) {
					std::swap(k.l, k.r);
					flipped.insert(x);
				}
				r = sym(k, i.type, i.ptr, i.desc);
			}
		}
		return memo[x] = r;
	}
	void rename(State &s, int from, int to) {
		map<int, int> memo;
		flipped.clear();
		auto flip = [](uint8_t m) {
			uint8_t n = m & ~(NEG | POS);
			if (m & NEG) n |= POS;
			if (m & POS) n |= NEG;
			return n;
		};
		auto rv = [&](Val &v) {
			if (v.k == Val::SYM) {
				int r = renamed(s, v.v, from, to, memo);
				if (r < 0 || flipped.count(v.v))
					v = {};
				else
					v.v = r;
			}
		};
		for (auto &v : s.env) rv(v);
		for (auto &t : s.temps) rv(t.second);
		vector<MemE> mem;
		for (auto m : s.mem) {
			int b = renamed(s, m.base, from, to, memo);
			if (b < 0)
				continue;
			m.base = b;
			rv(m.v);
			/* index keyed by the renamed symbol */
			const string &q = paths[m.path];
			string k = "[s" + std::to_string(from) + "]";
			size_t pos = q.find(k);
			if (pos != string::npos) {
				string n = q;
				n.replace(pos, k.size(), "[s" + std::to_string(to) + "]");
				m.path = path(n);
			}
			mem.push_back(m);
		}
		std::sort(mem.begin(), mem.end(), [](const MemE &a, const MemE &b) {
			return std::tie(a.base, a.path) < std::tie(b.base, b.path);
		});
		s.mem = mem;
		vector<std::pair<int, Attr>> at;
		for (auto a : s.at) {
			int r = renamed(s, a.first, from, to, memo);
			if (r < 0)
				continue;
			if (flipped.count(a.first))
				a.second.mask = flip(a.second.mask);
			a.first = r;
			at.push_back(a);
		}
		std::sort(at.begin(), at.end(), [](const std::pair<int, Attr> &a,
			const std::pair<int, Attr> &b) { return a.first < b.first; });
		at.erase(std::unique(at.begin(), at.end(),
			[](const std::pair<int, Attr> &a, const std::pair<int, Attr> &b) {
				return a.first == b.first; }), at.end());
		s.at = at;
		vector<Impl> im;
		for (auto i : s.impl) {
			int na = renamed(s, i.a, from, to, memo);
			if (flipped.count(i.a)) i.ma = flip(i.ma);
			int nb = renamed(s, i.b, from, to, memo);
			if (flipped.count(i.b)) i.mb = flip(i.mb);
			i.a = na;
			i.b = nb;
			if (i.a >= 0 && i.b >= 0)
				im.push_back(i);
		}
		std::sort(im.begin(), im.end());
		s.impl = im;
	}
	/* the callee may have changed what is reachable from "id" */
	void clobber(State &s, int id, int t, int slot, bool callback,
		     const FnSig *sig, int ann, const Summary *cs = nullptr,
		     const set<string> *wp = nullptr) {
		const SymInfo si = syms[id];
		if (si.key.kind == 'A') {
			int v = si.key.a;
			const Type &ty = T(F.vtypes[v]);
			if (ty.k != 'r' && ty.k != 'a') {
				/* scalar local: gets a fresh value */
				Val old = s.env[v];
				bool ptr = ty.k == 'p';
				bool oldOwned = false;
				if (old.k == Val::SYM)
					if (Attr *oa = attr(s, old.v))
						oldOwned = oa->own == OO;
				if (old.k == Val::NUL || old.k == Val::UNDEF)
					oldOwned = true;
				int n = freshTemp(s, t, 100 + slot, F.vtypes[v], ptr,
					F.vnames[v]);
				Attr &a = mkAttr(s, n);
				if (ptr)
					a.fl |= F_EV;
				if (ptr) {
					if (ann & A_GIVE) {
						a.own = OO;
						a.fl |= F_ANNRET;
					} else if (cs && cs->outOwn[slot] == 1 &&
						   (!cs->outSame[slot] || oldOwned)) {
						a.own = OO;
						if (oldOwned && old.k == Val::SYM)
							if (Attr *oa = attr(s, old.v))
								oa->own = OU;
					} else if (old.k == Val::SYM) {
						Attr *oa = attr(s, old.v);
						a.own = oa ? oa->own : (uint8_t) OU;
						int refs = holders(s, old.v);
						for (auto &e : s.env)
							refs += e == old;
						if (a.own == OO && refs > 1)
							a.own = OU;
						else if (a.own == OO)
							oa->own = OU;
						if (a.own == OR || a.own == OT)
							a.own = OU;
					} else
						a.own = OU;
					/* initialised to NULL and possibly set */
					if (callback && old.k == Val::SYM &&
					    attr(s, old.v) &&
					    (attr(s, old.v)->fl & F_EV))
						addImpl(s, old.v, N, n, N);
				}
				s.env[v] = Val::S(n);
				return;
			}
			/* local structure or array: refresh its entries */
			vector<MemE> es;
			size_t j = 0;
			for (size_t i = 0; i < s.mem.size(); ++i) {
				if (s.mem[i].base == id)
					es.push_back(s.mem[i]);
				else
					s.mem[j++] = s.mem[i];
			}
			s.mem.resize(j);
			int k = 0;
			for (auto &m : es) {
				bool relOnly = wp && !wp->count(topPath(paths[m.path])) &&
					wp->count("-" + topPath(paths[m.path]));
				if (wp && !wp->count(topPath(paths[m.path])) && !relOnly) {
					setMem(s, m.base, m.path, m.v, m.fl);
					if (m.v.k == Val::SYM &&
					    syms[m.v.v].key.kind == 'A' &&
					    descendsLocal(m.v.v) && callback)
						clobber(s, m.v.v, t,
							slot * 10 + 1000 + k++,
							callback, sig, 0);
					continue;
				}
				if (m.v.k == Val::SYM && syms[m.v.v].key.kind == 'A') {
					/* address of a local kept in the structure */
					setMem(s, m.base, m.path, m.v, m.fl);
					if (descendsLocal(m.v.v))
						clobber(s, m.v.v, t, slot * 10 + 1000 + k++,
							callback, sig, 0);
					continue;
				}
				if (m.v.k == Val::SYM && (syms[m.v.v].ptr)) {
					Attr *oa = attr(s, m.v.v);
					uint8_t own = oa ? oa->own : (uint8_t) OU;
					if (own == OO && oa && !oa->callee)
						own = OO;
					if (own == OO) {
						int n = freshTemp(s, t, slot * 100 + 2000 + k++,
							syms[m.v.v].type, true,
							si.desc.substr(1) + "." + paths[m.path]);
						Attr *oa2 = attr(s, m.v.v);
						if (oa2) {
							/* the old reference is gone */
							oa2->own = OU;
						}
						Attr &a = mkAttr(s, n);
						a.own = relOnly ? OU : OO;
						a.fl |= F_EV;
						/* accumulators stay failed */
						if (callback && !relOnly)
							addImpl(s, m.v.v, N, n, N);
						setMem(s, m.base, m.path, Val::S(n), 2);
						continue;
					}
				}
				/* everything else: unknown from now on */
			}
			return;
		}
		if (si.key.kind == 'M') {
			/* address of a field */
			Loc L;
			int b = si.base;
			string pre = paths[si.path];
			size_t j = 0;
			for (size_t i = 0; i < s.mem.size(); ++i) {
				MemE m = s.mem[i];
				const string &q = paths[m.path];
				if (m.base == b && q.compare(0, pre.size(), pre) == 0)
					continue;
				s.mem[j++] = m;
			}
			s.mem.resize(j);
			return;
		}
		/* heap object: drop everything reachable from it,
		 * except for facts about released content
		 */
		bool isOut = (ann & A_GIVE) || (cs && slot < (int) cs->outSame.size() &&
			!cs->outSame[slot] && T(si.type).k == 'p' &&
			T(T(si.type).el).k == 'p');
		size_t j = 0;
		for (size_t i = 0; i < s.mem.size(); ++i) {
			MemE m = s.mem[i];
			if (descends(m.base, id) && (!(m.fl & 1) ||
			    (isOut && m.base == id && paths[m.path] == "[0]"))) {
				if (m.v.k == Val::SYM) {
					Attr *a = attr(s, m.v.v);
					(void) a;
				}
				continue;
			}
			s.mem[j++] = m;
		}
		s.mem.resize(j);
	}
	bool descendsLocal(int id) { return syms[id].key.kind == 'A'; }

	/* the fields that a call may write through argument "i";
	 * true if they are not known
	 */
	bool writePaths(const Instr &I, const vector<Val> &av, const Summary *cs,
			bool cb, int i, set<string> &wp) {
		(void) I;
		if (cb || !cs)
			return true;
		if (i < (int) cs->wpaths.size())
			for (auto &p : cs->wpaths[i]) {
				if (p == "*" && !callsBack(i, cs))
					return true;
				if (p != "*")
					wp.insert(p);
			}
		bool any = false;
		for (auto &a : av) {
			if (a.k == Val::SYM && syms[a.v].type >= 0 &&
			    isFnPtr(syms[a.v].type))
				return true;
			if (a.k != Val::NN || names[a.v][0] == '"')
				continue;
			Fn *f = P.resolve(F.tu, names[a.v]);
			auto it = f ? SUM.find(f) : SUM.end();
			if (it == SUM.end())
				return true;
			any = true;
			const Summary &fs = it->second;
			for (size_t k = 0; k < f->ps.size(); ++k) {
				const Type &t = f->tu->types[f->ps[k].type];
				if (t.k != 'p' || f->tu->types[t.el].k != 'v')
					continue;
				for (auto &p : fs.wpaths[k]) {
					if (p == "*")
						return true;
					wp.insert(p);
				}
			}
		}
		if (!any && i < (int) cs->wpaths.size() && cs->wpaths[i].count("*"))
			return true;
		return false;
	}
	bool callsBack(int, const Summary *) { return true; }
	bool isFnPtr(int t) const {
		return T(t).k == 'F' || (T(t).k == 'p' && T(T(t).el).k == 'f');
	}
	void noteWrites(int id, bool all, const set<string> &wp) {
		const SymInfo &i = syms[id];
		if (i.key.kind == 'P') {
			if (all)
				sum.wpaths[i.key.a].insert("*");
			else
				sum.wpaths[i.key.a].insert(wp.begin(), wp.end());
		} else if (i.key.kind == 'M' && syms[i.base].key.kind == 'P')
			sum.wpaths[syms[i.base].key.a].insert(topPath(paths[i.path]));
	}
	bool call(vector<State> &out, State s, const Instr &I) {
		curLine = I.line;
		vector<Val> av;
		string cname = I.name;
		if (I.fe) {
			Val fv = eval(s, I.fe);
			if (fv.k == Val::NN)
				cname = names[fv.v];
			else
				cname = "(callback)";
		}
		for (auto *a : I.args)
			av.push_back(eval(s, a));
		Fn *callee = I.fe && cname == "(callback)" ? nullptr :
			P.resolve(F.tu, cname);
		const Summary *cs = nullptr;
		if (callee) {
			auto it = SUM.find(callee);
			if (it != SUM.end())
				cs = &it->second;
		}
		const FnSig *sig = sigFor(I, callee);
		FnSig tmp;
		if (callee && (!sig || INFERRED.count(callee))) {
			tmp.ann = callee->ra;
			tmp.ps = callee->ps;
			sig = &tmp;
		}
		bool cb = cname == "(callback)";

		if (cname == "isl_handle_error") {
			s.fl |= S_ERR | S_REAL;
			if (!quiet)
				sum.raisesErr = true;
			out.push_back(std::move(s));
			return true;
		}
		if (cname == "abort" || cname == "exit" || cname == "_exit" ||
		    cname == "__assert_fail" || (sig && sig->noret))
			return true;
		if (cname == "__builtin_expect" && av.size() == 2) {
			setTemp(s, I.t, av[0]);
			out.push_back(std::move(s));
			return true;
		}
		if (cname == "isl_realloc_or_die" || cname == "realloc") {
			int pi = cname == "realloc" ? 0 : 1;
			/* failure: the old block stays */
			State f = s;
			setTemp(f, I.t, Val::Null());
			f.fl |= S_FAIL | S_REAL;
			out.push_back(std::move(f));
			Val old = av[pi];
			vector<MemE> moved;
			bool wasExcl = false;
			if (old.k == Val::SYM) {
				wasExcl = exclusive(s, old.v);
				for (auto &m : s.mem)
					if (m.base == old.v)
						moved.push_back(m);
				release(s, old, I.line, cname, true);
			}
			int id = freshTemp(s, I.t, 0, I.type, true, cname);
			syms[id].type = old.k == Val::SYM ? syms[old.v].type : -1;
			Attr &a = mkAttr(s, id);
			a.mask = NNB;
			a.own = OO;
			a.fl |= F_RAW;
			if (wasExcl)
				a.fl |= F_EXCL;
			for (auto &m : moved)
				setMem(s, id, m.path, m.v, m.fl);
			setTemp(s, I.t, Val::S(id));
			out.push_back(std::move(s));
			return true;
		}
		/* big integers */
		if (mpz(s, I, cname, av)) {
			out.push_back(std::move(s));
			return true;
		}
		/* uses and dereferences */
		for (size_t i = 0; i < av.size(); ++i) {
			Val v = av[i];
			if (!isPtrVal(v))
				continue;
			bool need = cs && i < cs->req.size() && cs->req[i];
			if (!need) {
				auto l = libcReads.find(cname);
				need = l != libcReads.end() && (l->second >> i & 1);
			}
			if (need) {
				if (v.k == Val::NUL)
					report("null-deref", I.line, "NULL passed to " + cname);
				else if (v.k == Val::SYM)
					needNN(s, v.v, I.line, cname);
			}
		}
		/* statuses of the arguments, before they change */
		struct AM { int id; bool ptr; uint8_t mask; };
		vector<AM> am;
		for (auto &v : av) {
			if (v.k == Val::SYM)
				am.push_back({(int) v.v, syms[v.v].ptr, maskOf(s, v)});
			else
				am.push_back({-1, isPtrVal(v), maskOf(s, v)});
		}
		vector<char> argExcl;
		for (auto &v : av)
			argExcl.push_back(v.k == Val::SYM && syms[v.v].ptr &&
				exclusive(s, v.v));
		/* values behind the arguments */
		struct IM { int arg; int id; uint8_t mask; bool ptr, undef; };
		vector<IM> ins;
		if (cs)
			for (size_t i = 0; i < av.size() && i < cs->inIf.size(); ++i) {
				Val v = av[i];
				if (v.k != Val::SYM || syms[v.v].key.kind != 'A')
					continue;
				int var = syms[v.v].key.a;
				char k = T(F.vtypes[var]).k;
				if (k != 'p' && k != 'i')
					continue;
				Val x = s.env[var];
				bool undef = x.k == Val::UNDEF;
				ins.push_back({(int) i, x.k == Val::SYM ? (int) x.v : -1,
					undef && k == 'p' ? (uint8_t) N : maskOf(s, x),
					k == 'p', undef});
			}
		int ident = cs && cs->done && cs->ident >= 0 &&
			cs->ident < (int) av.size() ? cs->ident : -1;
		if (ident >= 0 && !isPtrVal(av[ident]))
			ident = -1;
		/* ownership of the arguments */
		bool hasCallback = cb;
		for (size_t i = 0; i < av.size(); ++i)
			if (av[i].k == Val::NN && names[av[i].v][0] != '"')
				hasCallback = true;
		for (size_t i = 0; i < av.size(); ++i) {
			if (isPtr(sig && i < sig->ps.size() ? sig->ps[i].type : -1) &&
			    av[i].k == Val::SYM && syms[av[i].v].key.kind == 'P' && 0)
				hasCallback = true;
		}
		vector<int> clob;
		for (size_t i = 0; i < av.size(); ++i) {
			Val v = av[i];
			if (v.k != Val::SYM || !syms[v.v].ptr)
				continue;
			int ann = sig && i < sig->ps.size() ? sig->ps[i].ann : 0;
			if ((ann & A_TAKE) && borrows(cs, i))
				ann = A_KEEP;
			if (cname == "free") {
				useKeepFree(s, v, I.line);
				release(s, v, I.line, cname, true);
				continue;
			}
			bool addr = syms[v.v].key.kind == 'A' || syms[v.v].key.kind == 'M';
			if (addr) {
				clob.push_back(i);
				continue;
			}
			if ((int) i == ident) {
				useKeep(s, v, I.line, cname);
				if (cs && i < cs->mut.size() && cs->mut[i])
					clob.push_back(i);
				continue;
			}
			if (ann & A_TAKE) {
				release(s, v, I.line, cname, false);
				continue;
			}
			useKeep(s, v, I.line, cname);
			if (!ann && cs && i < cs->eff.size()) {
				uint8_t e = cs->eff[i];
				if (e == 1) {
					release(s, v, I.line, cname, false);
					continue;
				}
				if (e & 5) {
					Attr &a = mkAttr(s, v.v);
					if (a.own == OO)
						a.own = OU;
					else if (a.own == OB &&
						 syms[v.v].key.kind == 'P' && !quiet)
						sum.eff[syms[v.v].key.a] |= 4;
				}
			} else if (!ann && !cs && !sig && 0)
				escape(s, v);
			if (cs && i < cs->incref.size() && cs->incref[i] &&
			    mayKeepCopy(I, *cs, i)) {
				Attr &a = mkAttr(s, v.v);
				a.fl &= ~F_EXCL;
				if (syms[v.v].key.kind == 'P' && !quiet)
					sum.incref[syms[v.v].key.a] = 1;
				/* reference count no longer known */
				size_t j = 0;
				int rp = path("ref");
				for (size_t k = 0; k < s.mem.size(); ++k)
					if (!(s.mem[k].base == v.v && s.mem[k].path == rp))
						s.mem[j++] = s.mem[k];
				s.mem.resize(j);
			}
			if (cs ? (i < cs->mut.size() && cs->mut[i]) :
			    (!sig || cb || !callee))
				clob.push_back(i);
		}
		for (int i : clob) {
			Val v = av[i];
			int ann = sig && i < (int) sig->ps.size() ? sig->ps[i].ann : 0;
			bool cst = false;
			if (sig && i < (int) sig->ps.size()) {
				/* pointer to const */
				const Type &pt = T(sig->ps[i].type);
				(void) pt;
			}
			(void) cst;
			bool addr = syms[v.v].key.kind == 'A' || syms[v.v].key.kind == 'M';
			bool mutd = cs ? (i < (int) cs->mut.size() && cs->mut[i]) : true;
			if (addr && !mutd && !hasCallback)
				continue;
			set<string> wp;
			bool wpAll = writePaths(I, av, cs, cb, i, wp);
			if (mutd && cs) {
				set<string> keepW;
				int pi = syms[v.v].key.kind == 'P' ? (int) syms[v.v].key.a : -1;
				if (pi >= 0)
					keepW = sum.wpaths[pi];
				wrote(s, v.v, "via " + cname, I.line);
				if (pi >= 0 && !quiet)
					sum.wpaths[pi] = keepW;
			}
			if (argExcl[i] && cs && !(i < (int) cs->incref.size() &&
						  cs->incref[i]))
				mkAttr(s, v.v).fl |= F_EXCL;
			if (!quiet)
				noteWrites(v.v, wpAll, wp);
			else if (!cs && !callee && syms[v.v].key.kind == 'M')
				wroteExternal(s, v.v, cname, I.line, i);
			clobber(s, v.v, I.t, i, cb || hasCallback, sig, ann,
				cs && i < (int) cs->outOwn.size() && !hasCallback ? cs : nullptr,
				wpAll ? nullptr : &wp);
		}
		if (cs)
			for (size_t i = 0; i < av.size(); ++i)
				if (av[i].k == Val::SYM && syms[av[i].v].ptr)
					callInts(s, av[i].v, *cs, i, I.line);
		/* result */
		const Type &rt = T(I.type);
		if (rt.k == 'v') {
			if (cs && !cs->returns && cs->done)
				return true;
			out.push_back(std::move(s));
			return true;
		}
		int rann = sig ? sig->ann : (callee ? callee->ra : 0);
		if (ident >= 0) {
			setTemp(s, I.t, av[ident]);
			out.push_back(std::move(s));
			return true;
		}
		if (rann & A_NULL) {
			setTemp(s, I.t, Val::Null());
			out.push_back(std::move(s));
			return true;
		}
		bool rptr = rt.k == 'p' || rt.k == 'F';
		if (rt.k == 'r') {
			int id = freshTemp(s, I.t, 0, I.type, true, cname);
			Attr &a = mkAttr(s, id);
			a.mask = NNB;
			a.own = OB;
			setTemp(s, I.t, Val::S(id));
			out.push_back(std::move(s));
			return true;
		}
		int id = freshTemp(s, I.t, 0, I.type, rptr, cname);
		for (auto &x : am)
			x.id = moved(x.id);
		for (auto &x : ins)
			x.id = moved(x.id);
		uint8_t full = fullMask(I.type);
		if (rt.sp == "isl_bool" || rt.sp == "isl_size")
			full = IANY;
		if (rt.sp == "isl_stat")
			full = NEG | ZERO;
		uint8_t m = full;
		if (cs) {
			m &= cs->retMask;
			vector<Impl> im;
			for (size_t i = 0; i < am.size() && i < cs->retIf.size(); ++i) {
				uint8_t u = 0;
				for (int c = 0; c < 3; ++c)
					if (am[i].mask & (1 << c))
						u |= cs->retIf[i][c];
				m &= u;
				if (am[i].id < 0)
					continue;
				for (int c = 0; c < 3; ++c) {
					if (!(am[i].mask & (1 << c)))
						continue;
					if ((cs->retIf[i][c] & cs->retMask) != cs->retMask)
						im.push_back({am[i].id, (uint8_t) (1 << c),
							id, cs->retIf[i][c]});
				}
			}
			for (auto &x : ins) {
				if (x.undef)
					continue;
				uint8_t u = 0;
				uint8_t xm = x.mask;
				auto &tb = cs->inIf[x.arg];
				if ((tb[0] | tb[1] | tb[2]) == 0)
					continue;
				for (int c = 0; c < 3; ++c)
					if (xm & (1 << c))
						u |= tb[c];
				m &= u;
				if (x.id < 0)
					continue;
				for (int c = 0; c < 3; ++c)
					if ((xm & (1 << c)) &&
					    (tb[c] & cs->retMask) != cs->retMask)
						im.push_back({x.id, (uint8_t) (1 << c),
							id, tb[c]});
			}
			if (!m)
				return true;	/* does not return in this state */
			for (auto &i : im)
				if (attr(s, i.a) && (i.mb & m) != m)
					addImpl(s, i.a, i.ma, i.b, i.mb);
		}
		if (!cs && cb && sig && ((rann & A_GIVE) || isStatusType(rt))) {
			/* unknown function: by contract, an error for a NULL
			 * object
			 */
			uint8_t em = rptr ? N : NEG;
			for (size_t i = 0; i < am.size() && i < sig->ps.size(); ++i) {
				if (!isObj(sig->ps[i].type) || !am[i].ptr)
					continue;
				if (am[i].mask == N)
					m &= em;
				else if (am[i].id >= 0 && (am[i].mask & N))
					addImpl(s, am[i].id, N, id, em);
			}
		}
		Attr &a = mkAttr(s, id);
		a.mask = m;
		a.callee = nameId(cname);
		if (rptr) {
			a.own = OB;
			if (rann & A_GIVE) {
				a.own = OO;
				a.fl |= F_ANNRET;
			} else if (rann & A_KEEP)
				a.fl |= F_ANNRET | F_PEEK;
			else if (rawAlloc.count(cname)) {
				sizes[id] = allocSize(cname, av);
				a.own = OO;
				a.fl |= F_RAW | F_EXCL;
			} else if (cs) {
				if (cs->retOwn == 1)
					a.own = OO;
				else if (cs->retOwn == 3)
					a.own = OU;
			} else
				a.own = OU;
			if (m & N)
				a.fl |= F_EV;
			if ((rann & A_GIVE) || (cs && cs->done && !(cs->okMask & N)))
				a.em = N;
			if (cs && cs->retExcl && !(rann & A_KEEP)) {
				bool ex = true;
				for (size_t i = 0; i < cs->exclReq.size() &&
				     i < argExcl.size(); ++i)
					if (cs->exclReq[i] && !argExcl[i])
						ex = false;
				if (ex)
					a.fl |= F_EXCL;
			}
			if (rawAlloc.count(cname))
				a.em = N;
		} else if (isStatusType(rt)) {
			a.em = NEG;
		} else if (isNum(rt) && cs && cs->done) {
			a.em = cs->retMask & ~cs->okMask & full;
		}
		a.em &= m;
		if (a.em && cs && cs->done && !cs->failNN) {
			bool nn = true;
			for (size_t i = 0; i < am.size() && i < callee->ps.size(); ++i) {
				if (!isPtr(callee->ps[i].type) ||
				    !(am[i].mask & N))
					continue;
				if (!isObj(callee->ps[i].type) && !callee->ps[i].ann)
					continue;
				Attr *b = am[i].id >= 0 ? attr(s, am[i].id) : nullptr;
				if (am[i].mask == N || !b || (b->fl & F_EV))
					nn = false;
			}
			if (nn)
				a.fl |= F_NOFAIL;
		}
		if (a.em && !(a.mask & ~a.em))
			s.fl |= a.fl & F_NOFAIL ? S_FAIL : S_FAIL | S_REAL;
		/* what the result says about the values stored */
		if (cs && cs->done)
			for (auto &x : ins) {
				Val v = av[x.arg];
				Val nv = s.env[syms[v.v].key.a];
				if (nv.k != Val::SYM)
					continue;
				if (nv.v == x.id)
					continue;
				auto om = cs->outMask[x.arg];
				for (int c = 0; c < 3; ++c)
					if (cs->outSame[x.arg] & (1 << c))
						om[c] |= x.mask;
				uint8_t all = 0;
				for (int c = 0; c < 3; ++c)
					if (m & (1 << c))
						all |= om[c];
				if (!all)
					continue;
				if (!attr(s, nv.v))
					continue;
				uint8_t full = x.ptr ? PANY : IANY;
				for (int c = 0; c < 3; ++c)
					if ((m & (1 << c)) && (om[c] & full) != full)
						addImpl(s, id, 1 << c, nv.v, om[c]);
				if (!refine(s, nv.v, all))
					return true;
			}
		if (cs && cs->done)
			for (auto &op : cs->outPair) {
				int i = op.first.first, j = op.first.second;
				if (i >= (int) av.size() || j >= (int) av.size())
					continue;
				if (cs->outSame[i] || cs->outSame[j])
					continue;
				auto nv = [&](int k) {
					Val v = av[k];
					if (v.k != Val::SYM || syms[v.v].key.kind != 'A' ||
					    T(F.vtypes[syms[v.v].key.a]).k != 'p')
						return -1;
					Val x = s.env[syms[v.v].key.a];
					return x.k == Val::SYM ? (int) x.v : -1;
				};
				int a = nv(i), b = nv(j);
				if (a < 0 || b < 0 || !attr(s, a) || !attr(s, b))
					continue;
				for (int c = 0; c < 2; ++c)
					if (op.second[c] && op.second[c] != PANY)
						addImpl(s, a, 1 << c, b, op.second[c]);
			}
		setTemp(s, I.t, Val::S(id));
		/* arguments that were consistent with this result */
		for (auto &x : am)
			if (x.id >= 0 && attr(s, x.id)) {
				/* propagate the restriction of the mask */
				State &st = s;
				vector<Impl> copy = st.impl;
				for (auto &i : copy)
					if (i.b == id && i.a == x.id && !(i.mb & m))
						if (!refine(st, i.a, ~i.ma))
							return true;
			}
		out.push_back(std::move(s));
		return true;
	}
	void useKeepFree(State &, Val, int) {}
	void wroteExternal(State &s, int id, const string &c, int line, int arg) {
		/* memcpy and the like write through their first argument */
		if (arg == 0 && (c == "memcpy" || c == "memset" || c == "memmove"))
			wrote(s, id, "via " + c, line);
	}
	/* Record that the integer "key" is initialised or cleared
	 * if it is reachable from a parameter.
	 */
	static string stripIdx(string p) {
		while (p.size() >= 3 && p.compare(p.size() - 3, 3, "[0]") == 0)
			p.resize(p.size() - 3);
		return p;
	}
	void noteInt(int key, bool init) {
		if (quiet)
			return;
		int par = -1;
		string p;
		if (syms[key].key.kind == 'P')
			par = syms[key].key.a;
		else if (syms[key].key.kind == 'M' &&
			 syms[syms[key].base].key.kind == 'P') {
			par = syms[syms[key].base].key.a;
			p = stripIdx(paths[syms[key].path]);
			if (p.find('[') != string::npos)
				return;
		}
		if (par < 0)
			return;
		(init ? sum.intInit : sum.intClr)[par].insert(p);
	}
	/* Apply the effects of a call on the integers reachable from "v". */
	void callInts(State &s, int v, const Summary &cs, int i, int line) {
		if (i >= (int) cs.intInit.size())
			return;
		for (int k = 0; k < 2; ++k)
			for (auto &p : (k ? cs.intInit : cs.intClr)[i]) {
				int key = v;
				if (!p.empty()) {
					if (syms[v].key.kind == 'M')
						key = sym({'M', syms[v].base,
							path(paths[syms[v].path] + "." + p), {}, {}, 0},
							-1, true, "", syms[v].base,
							path(paths[syms[v].path] + "." + p));
					else
						key = sym({'M', v, path(p), {}, {}, 0},
							-1, true, "", v, path(p));
				}
				noteInt(key, k);
				bool tracked = syms[key].key.kind == 'A' ||
					(syms[key].key.kind == 'M' &&
					 localBase(syms[key].base) &&
					 paths[syms[key].path].find('[') == string::npos);
				if (!tracked)
					continue;
				Attr &a = mkAttr(s, key);
				bool both = cs.intInit[i].count(p) && cs.intClr[i].count(p);
				if (both)
					a.own = OU;
				else if (k) {
					a.own = OO;
					a.line = line;
				} else
					a.own = OR;
			}
	}
	/* GMP calls: initialisation state of local integers; writes */
	bool mpz(State &s, const Instr &I, const string &c, vector<Val> &av) {
		if (c.compare(0, 7, "__gmpz_") && c.compare(0, 7, "__gmpq_"))
			return false;
		static const set<string> rd = {
			"__gmpz_cmp", "__gmpz_cmp_si", "__gmpz_cmp_ui", "__gmpz_cmpabs",
			"__gmpz_get_si", "__gmpz_get_ui", "__gmpz_get_d",
			"__gmpz_fits_slong_p", "__gmpz_fits_ulong_p",
			"__gmpz_divisible_p", "__gmpz_size", "__gmpz_out_str",
			"__gmpz_sizeinbase", "__gmpz_export", "__gmpz_get_str",
			"__gmpz_fits_sint_p", "__gmpz_cmpabs_ui", "__gmpz_perfect_square_p",
			"__gmpz_cmp_d", "__gmpz_cmpabs_d", "__gmpz_getlimbn",
			"__gmpz_fits_uint_p", "__gmpz_popcount", "__gmpz_tstbit",
		};
		bool init = c.compare(0, 11, "__gmpz_init") == 0;
		bool clear = c == "__gmpz_clear";
		for (size_t i = 0; i < av.size(); ++i) {
			Val v = av[i];
			if (v.k != Val::SYM || !syms[v.v].ptr)
				continue;
			Loc L = atPtr(v.v);
			int key = v.v;
			bool tracked = syms[v.v].key.kind == 'A' ||
				(syms[v.v].key.kind == 'M' &&
				 localBase(syms[v.v].base) &&
				 paths[syms[v.v].path].find('[') == string::npos);
			/* v[0] of an integer array of one element */
			if (syms[v.v].key.kind == 'A' &&
			    T(F.vtypes[syms[v.v].key.a]).bits != 1 &&
			    T(F.vtypes[syms[v.v].key.a]).k == 'a' &&
			    T(T(F.vtypes[syms[v.v].key.a]).el).k == 'a')
				tracked = false;
			if (i == 0 && !rd.count(c) && L.k == Loc::MEM && !localBase(L.base))
				wrote(s, L.base, L.path, I.line);
			if (i == 0 && (init || clear))
				noteInt(key, init);
			if (!tracked)
				continue;
			Attr &a = mkAttr(s, key);
			/* own: OB not initialised, OO initialised, OR cleared, OU unknown */
			if (i == 0 && init) {
				if (a.own == OO)
					report("int-reinit", I.line, shortd(key));
				a.own = OO;
				a.line = I.line;
			} else if (i == 0 && clear) {
				if (a.own == OB && isLocalInt(key))
					report("int-clear-uninit", I.line, shortd(key));
				else if (a.own == OR)
					report("int-double-clear", I.line, shortd(key));
				a.own = OR;
			} else {
				if (a.own == OB && isLocalInt(key)) {
					report("int-use-uninit", I.line, shortd(key));
					a.own = OU;
				} else if (a.own == OR) {
					report("int-use-cleared", I.line, shortd(key));
					a.own = OU;
				}
			}
		}
		const Type &rt = T(I.type);
		if (rt.k != 'v') {
			int id = freshTemp(s, I.t, 0, I.type, rt.k == 'p', c);
			if (c == "__gmpz_get_str") {
				Attr &a = mkAttr(s, id);
				a.own = OU;
			}
			setTemp(s, I.t, Val::S(id));
		}
		return true;
	}
	bool isLocalInt(int key) {
		return syms[key].key.kind == 'A' && !isParam(syms[key].key.a);
	}
	bool isMpzVar(int v) {
		const Type &t = T(F.vtypes[v]);
		if (t.k != 'a')
			return false;
		const Type &e = T(t.el);
		return e.k == 'r' && e.arg == "__mpz_struct" && !isParam(v);
	}

	/* ---- returns ---- */
	void atReturn(State s, Val v, const Instr *I, bool isVoid) {
		int line = I ? I->line : F.eline;
		curLine = line;
		sum.returns = true;
		bool rptr = isPtr(F.ret);
		if (v.k == Val::CONST && v.v == 0 && rptr)
			v = Val::Null();
		int rid = -1;
		if (v.k == Val::SYM)
			rid = v.v;
		/* always one of the parameters? */
		if (sum.ident != -1) {
			int id = -1;
			if (rptr && rid >= 0 && syms[rid].key.kind == 'P')
				id = syms[rid].key.a;
			else if (rptr && v.k == Val::NUL && sum.ident >= 0)
				id = sum.ident;
			else if (rptr && v.k == Val::NUL)
				for (size_t i = 0; i < F.ps.size() && id < 0; ++i)
					if (isPtr(F.ps[i].type) &&
					    maskOf(s, Val::S(symParam(i))) == N)
						id = i;
			if (id >= 0) {
				Attr &a = mkAttr(s, symParam(id));
				uint8_t own = F.ps[id].ann & A_TAKE ? OO : OB;
				if (v.k == Val::NUL ? a.mask != N :
				    a.own != own || sum.incref[id])
					id = -1;
			}
			if (sum.ident >= 0 && id != sum.ident)
				id = -1;
			sum.ident = id;
		}
		if (!isVoid) {
			uint8_t rm = rptr || !isPtrVal(v) ? maskOf(s, v) : IANY;
			if (!rptr && v.k == Val::SYM && syms[rid].ptr)
				rm = IANY;
			if (T(F.ret).k == 'r')
				rm = IANY;
			sum.retMask |= rm;
			/* effect of parameter classes on the result */
			for (size_t i = 0; i < F.ps.size(); ++i) {
				int ps = symParam(i);
				if (!attr(s, ps))
					mkAttr(s, ps);
				uint8_t pm = maskOf(s, Val::S(ps));
				int nc = syms[ps].ptr ? 2 : 3;
				for (int c = 0; c < nc; ++c) {
					if (!(pm & (1 << c)))
						continue;
					if (pm == (1 << c)) {
						sum.retIf[i][c] |= rm;
						continue;
					}
					State t = s;
					bool q = quiet;
					quiet = true;
					if (refine(t, ps, 1 << c))
						sum.retIf[i][c] |= v.k == Val::SYM ?
							(rm == IANY ? IANY & rm & maskFix(t, v, rptr) : maskFix(t, v, rptr)) : rm;
					quiet = q;
				}
			}
		}
		/* values behind parameters */
		for (size_t i = 0; i < F.ps.size(); ++i) {
			const Type &pt = T(F.ps[i].type);
			if (pt.k != 'p')
				continue;
			char ek = T(pt.el).k;
			if (ek != 'p' && ek != 'i')
				continue;
			if (maskOf(s, Val::S(symParam(i))) == N)
				continue;
			uint8_t rm = isVoid ? IANY : maskFix(s, v, rptr);
			int is = symIn(i);
			MemE *m = findMem(s, symParam(i), path("[0]"));
			if (!m || (is >= 0 && m->v == Val::S(is)))
				sum.outSame[i] |= rm;
			else {
				uint8_t om = maskOf(s, m->v);
				if (m->v.k == Val::SYM && ek == 'p') {
					Attr *a = attr(s, m->v.v);
					uint8_t ow = a ? a->own : (uint8_t) OB;
					if (ow == OR)
						/* dangling: of no use to the caller */
						om = N;
					else if (a && (a->mask & NNB))
						sum.outOwn[i] |= ow == OT ? 1 : ow == OB ? 2 : 3;
				} else if (m->v.k == Val::NN)
					sum.outOwn[i] |= 2;
				else if (m->v.k != Val::NUL)
					sum.outOwn[i] |= 3;
				for (int c = 0; c < 3; ++c)
					if (rm & (1 << c)) {
						if (rid >= 0 && m->v.k == Val::SYM) {
							State t = s;
							bool q = quiet;
							quiet = true;
							if (refine(t, rid, 1 << c))
								sum.outMask[i][c] |= maskOf(t, m->v);
							quiet = q;
						} else
							sum.outMask[i][c] |= om;
					}
			}
			/* effect of the initial value on the result */
			if (isVoid)
				continue;
			for (int c = 0; c < (ek == 'p' ? 2 : 3); ++c) {
				if (is < 0 || !attr(s, is)) {
					sum.inIf[i][c] |= rm;
					continue;
				}
				State t = s;
				bool q = quiet;
				quiet = true;
				if (refine(t, is, 1 << c))
					sum.inIf[i][c] |= maskFix(t, v, rptr);
				quiet = q;
			}
		}
		for (size_t i = 0; i < F.ps.size(); ++i)
			for (size_t j = 0; j < F.ps.size(); ++j) {
				if (i == j || T(F.ps[i].type).k != 'p' ||
				    T(F.ps[j].type).k != 'p' ||
				    T(T(F.ps[i].type).el).k != 'p' ||
				    T(T(F.ps[j].type).el).k != 'p')
					continue;
				if (maskOf(s, Val::S(symParam(i))) == N ||
				    maskOf(s, Val::S(symParam(j))) == N)
					continue;
				auto &op = sum.outPair[{i, j}];
				MemE *mi = findMem(s, symParam(i), path("[0]"));
				MemE *mj = findMem(s, symParam(j), path("[0]"));
				for (int c = 0; c < 2; ++c) {
					if (!mi || !mj) {
						op[c] |= PANY;
						continue;
					}
					if (!(maskOf(s, mi->v) & (1 << c)))
						continue;
					State t = s;
					Val vj = mj->v;
					bool q = quiet;
					quiet = true;
					if (mi->v.k != Val::SYM ||
					    refine(t, mi->v.v, 1 << c))
						op[c] |= maskOf(t, vj) & PANY;
					quiet = q;
				}
			}
		bool statusRet = (rptr && (F.ra & A_GIVE)) ||
			isStatusType(T(F.ret)) || isNumStatus();
		/* results that are possible without anything having failed */
		if (!isVoid && (rptr || isNum(T(F.ret)))) {
			uint8_t rm = maskFix(s, v, rptr);
			for (int c = 0; c < (rptr ? 2 : 3); ++c) {
				uint8_t cm = 1 << c;
				if (!(rm & cm) || (sum.okMask & cm))
					continue;
				State t = s;
				bool q = quiet;
				quiet = true;
				bool feas = rid < 0 || syms[rid].ptr != rptr ||
					refine(t, rid, cm);
				quiet = q;
				if (!feas || (t.fl & (S_ERR | S_FAIL)))
					continue;
				if (rid >= 0 && rptr && cm == N &&
				    syms[rid].key.kind == 'F')
					continue;
				sum.okMask |= cm;
				if (cm == (rptr ? N : NEG) && !sum.benignLine)
					sum.benignLine = line;
			}
		}
		/* can it fail on proper arguments? */
		if (!isVoid && (rptr || isNum(T(F.ret)) ||
		    isStatusType(T(F.ret))) && !sum.failNN) {
			uint8_t fm = rptr ? N : isStatusType(T(F.ret)) ? NEG : NEG | ZERO;
			if (maskFix(s, v, rptr) & fm) {
				State t = s;
				bool q = quiet;
				quiet = true;
				bool feas = rid < 0 || syms[rid].ptr != rptr ||
					refine(t, rid, fm);
				for (size_t i = 0; i < F.ps.size() && feas; ++i)
					if (isPtr(F.ps[i].type) &&
					    (isObj(F.ps[i].type) || F.ps[i].ann))
						feas = refine(t, symParam(i), NNB);
				quiet = q;
				if (feas && (t.fl & S_REAL))
					sum.failNN = true;
			}
		}
		/* error discipline */
		if (!isVoid && statusRet && reporting) {
			uint8_t okm = rptr ? NNB : ZERO | POS;
			State t = s;
			bool q = quiet;
			quiet = true;
			uint8_t rm = maskFix(t, v, rptr);
			bool feas = rm & okm;
			if (feas && rid >= 0)
				feas = refine(t, rid, okm);
			if (feas) {
				if (t.fl & S_ERR) {
					quiet = q;
					report("err-success", line, "success after error report");
					quiet = true;
				}
				/* everything but the result goes */
				vector<char> lv(F.vnames.size(), 0);
				State g = t;
				g.temps.clear();
				for (auto &x : g.env)
					x = {};
				for (auto &x : g.at) {
					bool live = x.first == rid ||
						syms[x.first].key.kind == 'P';
					if (live)
						continue;
					pendRule(g, x.first, x.second, [&](int b) {
						return b == rid || syms[b].key.kind == 'P';
					});
				}
				quiet = q;
				for (auto &p : g.pend)
					report("err-swallowed", p.line,
						p.callee < 0 ? "?" : names[p.callee]);
				/* NULL in, success out */
				for (size_t i = 0; i < F.ps.size(); ++i) {
					if (!isObj(F.ps[i].type) && !F.ps[i].ann)
						continue;
					if (!isPtr(F.ps[i].type))
						continue;
					int ps = symParam(i);
					State u = t;
					bool q2 = quiet;
					quiet = true;
					bool f2 = refine(u, ps, N);
					quiet = q2;
					if (f2)
						report("null-arg-success", line, F.ps[i].name);
				}
			}
			quiet = q;
		}
		/* what a structure result holds goes with it */
		if (T(F.ret).k == 'r' && v.k == Val::SYM) {
			int b = syms[rid].key.kind == 'M' ? syms[rid].base : rid;
			for (auto &m : s.mem)
				if (m.base == b && m.v.k == Val::SYM) {
					Attr &a = mkAttr(s, m.v.v);
					if ((a.fl & F_PTR) && a.own == OO)
						a.own = OR;
				}
		}
		/* ownership of the result */
		if (rptr && v.k == Val::SYM) {
			Attr &a = mkAttr(s, rid);
			if (a.mask & NNB) {
				if (!exclusive(s, rid)) {
					if (syms[rid].key.kind == 'P')
						sum.exclReq[syms[rid].key.a] = 1;
					else
						sum.retExcl = false;
				}
				if (a.own == OR)
					report("use-after-release", line,
						describe(rid) + " returned");
				if (F.ra & A_GIVE) {
					if (a.own == OO || a.own == OU || a.own == OD)
						a.own = OR;
					else if (a.own == OB) {
						if (syms[rid].key.kind == 'P' &&
						    !(F.ps[syms[rid].key.a].ann & A_KEEP))
							sum.eff[syms[rid].key.a] |= 1;
						else {
							report("return-borrowed", line,
								describe(rid));
						}
						a.own = OR;
					} else if (a.own == OT) {
						int h = holder(s, rid);
						if (h >= 0 && !localBase(s.mem[h].base))
							report("return-borrowed", line,
								describe(rid) + " also stored");
						a.own = OR;
					}
				} else {
					if (a.own == OO) {
						sum.retOwn |= 1;
						if ((F.ra & A_KEEP))
							report("leak", line, describe(rid) +
								" returned as kept");
						a.own = OR;
					} else if (a.own == OU || a.own == OD) {
						sum.retOwn |= 3;
					} else {
						sum.retOwn |= 2;
					}
				}
			}
		} else if (rptr && v.k == Val::NN) {
			sum.retOwn |= 2;
			sum.retExcl = false;
		} else if (rptr && v.k == Val::UNK) {
			sum.retOwn |= 3;
			sum.retExcl = false;
		}
		/* unannotated parameters */
		for (size_t i = 0; i < F.ps.size(); ++i) {
			if (F.ps[i].ann || !isPtr(F.ps[i].type))
				continue;
			int ps = symParam(i);
			Attr &a = mkAttr(s, ps);
			if (!(a.mask & NNB))
				continue;
			if (a.own == OB)
				sum.eff[i] |= 2;
		}
		for (size_t i = 0; i < F.ps.size(); ++i) {
			if (!(F.ps[i].ann & A_TAKE))
				continue;
			Attr &a = mkAttr(s, symParam(i));
			if (!(a.mask & NNB))
				continue;
			if (a.own == OO)
				sum.survives[i] = 1;
			else
				sum.consumed[i] = 1;
		}
		/* leaks */
		for (auto &x : s.at)
			leakRule(s, x.first, x.second, line);
		/* integers */
		/* fields released but not reset */
		for (auto &m : s.mem)
			if ((m.fl & 1) && !localBase(m.base)) {
				if (m.v.k == Val::SYM && !(maskOf(s, m.v) & NNB))
					continue;
				Attr *b = attr(s, m.base);
				if (b && (b->own == OD))
					continue;
				if (paths[m.path].find('[') != string::npos)
					continue;
				if (helperParam(m.base))
					continue;
				report(objBase(m.base) ? "dangling-field" : "dangling-data",
					m.line, shortd(m.base) + "->" +
					paths[m.path]);
			}
	}
	uint8_t maskFix(State &s, Val v, bool rptr) {
		if (v.k == Val::SYM && syms[v.v].ptr != rptr)
			return IANY;
		return maskOf(s, v);
	}
	const Summary *final = nullptr;		/* of this function, if known */
	/* a static function that never consumes a parameter does not
	 * take it, whatever the annotation says
	 */
	static bool borrows(const Summary *s, int i) {
		return s && s->done && s->isStatic && i < (int) s->consumed.size() &&
			!s->consumed[i] && s->survives[i] && s->ident != i;
	}
	template <class L> void pendRule(State &s, int id, const Attr &a, L live) {
		uint8_t em = (a.fl & F_PTR) ? N : a.em & NEG ? (uint8_t) NEG : a.em;
		if (!(a.em & em) || !(a.mask & em))
			return;
		if (a.fl & (F_RAW | F_NOFAIL))
			return;
		/* carried by something that is still there, possibly through
		 * other dead values
		 */
		vector<std::pair<int, uint8_t>> work = {{id, (uint8_t) (em & a.mask)}};
		for (size_t w = 0; w < work.size() && w < 40; ++w) {
			int x = work[w].first;
			uint8_t xm = work[w].second;
			auto push = [&](int y, uint8_t ym) {
				Attr *b = attr(s, y);
				if (!b)
					return false;
				ym &= b->mask;
				uint8_t bem = (b->fl & F_PTR) ? N : NEG;
				if (live(y) && !(ym & ~bem))
					return true;
				for (auto &v : work)
					if (v.first == y && !(ym & ~v.second))
						return false;
				if (y != id)
					work.push_back({y, ym});
				return false;
			};
			for (auto &i : s.impl) {
				if (i.a == x && !(xm & ~i.ma))
					if (push(i.b, i.mb))
						return;
				/* can only fail if a parameter is NULL */
				if (i.b == x && !(i.mb & xm)) {
					if (live(i.a))
						return;
					if (push(i.a, (uint8_t) ~i.ma))
						return;
				}
			}
		}
		Pend p{a.line, a.callee};
		auto it = std::lower_bound(s.pend.begin(), s.pend.end(), p);
		if (it == s.pend.end() || !(*it == p))
			s.pend.insert(it, p);
	}
	void leakRule(State &s, int id, const Attr &a, int line) {
		char k = syms[id].key.kind;
		if (k == 'A' || k == 'M') {
			if (a.own == OO)
				report("int-leak", line, shortd(id));
			return;
		}
		if (a.own == OO && (a.mask & NNB) && (a.fl & F_PTR)) {
			if (k == 'P' && borrows(final, syms[id].key.a))
				return;
			report("leak", line, describe(id));
		}
	}

	/* ---- liveness ---- */
	void exprUses(const E *e, vector<char> &uv, vector<char> &ut) {
		if (!e)
			return;
		if (e->op == 'v')
			uv[e->a] = 1;
		if (e->op == 't')
			ut[e->a] = 1;
		for (auto *c : e->ch)
			exprUses(c, uv, ut);
	}
	void findAddr(const E *e) {
		if (!e)
			return;
		if (e->op == '&') {
			const E *x = e->ch[0];
			while (x && (x->op == 'm' || x->op == 'x' || x->op == 'c') &&
			       !(x->op == 'm' && x->arrow))
				x = x->ch[0];
			if (x && x->op == 'v')
				addrTaken[x->a] = 1;
		}
		for (auto *c : e->ch)
			findAddr(c);
	}
	void liveness() {
		size_t nv = F.vnames.size(), nb = F.bl.size();
		addrTaken.assign(nv, 0);
		for (auto &b : F.bl) {
			for (auto &i : b.is) {
				findAddr(i.l);
				findAddr(i.r);
				findAddr(i.fe);
				for (auto *a : i.args)
					findAddr(a);
			}
			findAddr(b.cond);
		}
		for (size_t v = 0; v < nv; ++v) {
			char k = T(F.vtypes[v]).k;
			if (k == 'r' || k == 'a')
				addrTaken[v] = 1;
		}
		liveV.assign(nb, vector<char>(nv, 0));
		liveT.assign(nb, vector<char>(F.nt + 1, 0));
		/* live at entry of block */
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t bi = nb; bi-- > 0;) {
				const Block &b = F.bl[bi];
				vector<char> lv(nv, 0), lt(F.nt + 1, 0);
				for (int sid : b.succ) {
					if (sid < 0)
						continue;
					int si = F.bidx[sid];
					for (size_t v = 0; v < nv; ++v)
						lv[v] |= liveV[si][v];
					for (int t = 0; t < F.nt; ++t)
						lt[t] |= liveT[si][t];
				}
				exprUses(b.cond, lv, lt);
				for (size_t k = b.is.size(); k-- > 0;) {
					const Instr &i = b.is[k];
					switch (i.k) {
					case Instr::ASG:
						lt[i.t] = 0;
						if (i.l->op == 'v') {
							lv[i.l->a] = 0;
						} else
							exprUses(i.l, lv, lt);
						exprUses(i.r, lv, lt);
						break;
					case Instr::DECL:
						lv[i.t] = 0;
						exprUses(i.r, lv, lt);
						break;
					case Instr::CALL:
						lt[i.t] = 0;
						exprUses(i.fe, lv, lt);
						for (auto *a : i.args)
							exprUses(a, lv, lt);
						break;
					case Instr::PHI:
						if (!i.logical || 1)
							lt[i.t] = 0;
						exprUses(i.r, lv, lt);
						break;
					default:
						if (i.t >= 0 && i.k != Instr::RET &&
						    i.k != Instr::USE)
							lt[i.t] = 0;
						exprUses(i.l, lv, lt);
						exprUses(i.r, lv, lt);
					}
				}
				if (lv != liveV[bi] || lt != liveT[bi]) {
					liveV[bi] = lv;
					liveT[bi] = lt;
					ch = true;
				}
			}
		}
	}

	/* ---- garbage ---- */
	void gc(State &s, int bi, int line) {
		markEmpty(s);
		const vector<char> &lv = liveV[bi], &lt = liveT[bi];
		for (size_t v = 0; v < s.env.size(); ++v)
			if (!lv[v] && !addrTaken[v])
				s.env[v] = {};
		{
			size_t j = 0;
			for (size_t i = 0; i < s.temps.size(); ++i)
				if (lt[s.temps[i].first])
					s.temps[j++] = s.temps[i];
			s.temps.resize(j);
		}
		std::set<int> live;
		vector<int> work;
		auto mark = [&](int id) {
			if (live.insert(id).second)
				work.push_back(id);
		};
		auto markV = [&](Val v) {
			if (v.k == Val::SYM)
				mark(v.v);
		};
		for (auto &v : s.env) markV(v);
		for (auto &t : s.temps) markV(t.second);
		for (size_t i = 0; i < F.ps.size(); ++i) {
			mark(symParam(i));
			int is = symIn(i);
			if (is >= 0 && attr(s, is))
				mark(is);
		}
		for (auto &m : s.mem)
			if (localBase(m.base))
				mark(m.base);
		for (auto &a : s.at)
			if (syms[a.first].key.kind == 'A' ||
			    (syms[a.first].key.kind == 'M' && a.second.own != OB))
				mark(a.first);
		std::set<int> structural;	/* only kept as bases */
		while (!work.empty()) {
			int id = work.back();
			work.pop_back();
			const SymInfo &i = syms[id];
			if (i.key.kind == 'X') {
				markV(i.key.l);
				markV(i.key.r);
			}
			if (i.key.kind == 'M' && i.base >= 0)
				mark(i.base);
			for (auto &m : s.mem)
				if (m.base == id)
					markV(m.v);
		}
		/* expressions over live symbols keep their facts */
		auto liveExpr = [&](int x) {
			const SymKey &k = syms[x].key;
			if (k.kind != 'X')
				return false;
			bool l = k.l.k != Val::SYM || live.count(k.l.v);
			bool r = k.r.k != Val::SYM || live.count(k.r.v);
			return l && r;
		};
		for (int round = 0; round < 3; ++round)
			for (auto &a : s.at)
				if (!live.count(a.first) && liveExpr(a.first))
					live.insert(a.first);
		/* memory below dead bases: keep when it carries a violation */
		{
			size_t j = 0;
			for (size_t i = 0; i < s.mem.size(); ++i) {
				MemE &m = s.mem[i];
				bool keep = live.count(m.base);
				for (int x : pathSyms[m.path])
					if (!live.count(x))
						keep = false;
				if (!keep && !pathSyms[m.path].empty())
					continue;
				if (!keep && (m.fl & 1)) {
					/* released content of an object that is
					 * itself still held by something
					 */
					Attr *b = attr(s, m.base);
					if (b && (b->own == OT || b->own == OB) &&
					    syms[m.base].base >= 0 &&
					    live.count(syms[m.base].base)) {
						keep = true;
						live.insert(m.base);
					}
				}
				if (keep)
					s.mem[j++] = m;
			}
			s.mem.resize(j);
		}
		for (auto &m : s.mem)
			if (m.v.k == Val::SYM)
				live.insert(m.v.v);
		vector<int> dead;
		for (auto &a : s.at)
			if (!live.count(a.first))
				dead.push_back(a.first);
		if (dead.empty())
			return;
		for (int d : dead) {
			Attr *a = attr(s, d);
			leakRule(s, d, *a, line);
			Attr c = *a;
			pendRule(s, d, c, [&](int b) { return live.count(b) > 0; });
		}
		/* compose implications through dead symbols */
		std::set<int> deadSet(dead.begin(), dead.end());
		for (int d : dead) {
			vector<Impl> in, outv;
			for (auto &i : s.impl) {
				if (i.b == d) in.push_back(i);
				if (i.a == d) outv.push_back(i);
			}
			if (in.size() * outv.size() <= 64) {
				Attr *da = attr(s, d);
				uint8_t dm = da ? da->mask : 7;
				for (auto &x : in)
					for (auto &y : outv)
						if ((x.mb & dm & ~y.ma) == 0 && x.a != y.b)
							addImpl(s, x.a, x.ma, y.b, y.mb);
				/* two implications into d that contradict */
				for (auto &x : in)
					for (auto &y : in)
						if (x.a != y.a && (x.mb & y.mb & dm) == 0)
							addImpl(s, x.a, x.ma, y.a, ~y.ma & 7);
				/* contrapositives out of d */
				for (auto &x : outv)
					for (auto &y : outv)
						if (x.b != y.b && ((x.ma | y.ma) & dm) == dm)
							addImpl(s, x.b, (uint8_t) (~x.mb & 7),
								y.b, y.mb);
			}
			size_t j = 0;
			for (size_t i = 0; i < s.impl.size(); ++i)
				if (s.impl[i].a != d && s.impl[i].b != d)
					s.impl[j++] = s.impl[i];
			s.impl.resize(j);
		}
		size_t j = 0;
		for (size_t i = 0; i < s.at.size(); ++i)
			if (!deadSet.count(s.at[i].first))
				s.at[j++] = s.at[i];
		s.at.resize(j);
		/* implications that no longer say anything */
		j = 0;
		for (size_t i = 0; i < s.impl.size(); ++i) {
			Impl im = s.impl[i];
			Attr *a = attr(s, im.a), *b = attr(s, im.b);
			if (!a || !b)
				continue;
			if (!(a->mask & im.ma))
				continue;
			if ((b->mask & ~im.mb) == 0)
				continue;
			s.impl[j++] = im;
		}
		s.impl.resize(j);
		if (s.impl.size() > 60)
			s.impl.resize(60);
	}

	string vs(Val v) {
		switch (v.k) {
		case Val::UNK: return "?";
		case Val::UNDEF: return "undef";
		case Val::CONST: return std::to_string(v.v);
		case Val::NUL: return "NULL";
		case Val::NN: return "NN(" + names[v.v] + ")";
		case Val::SYM: return ss(v.v);
		}
		return "";
	}
	string ss(int id) {
		const SymInfo &i = syms[id];
		string r;
		if (i.key.kind == 'F' || i.key.kind == 'M')
			r = string(1, i.key.kind) + "(" + ss(i.base) + "->" +
				paths[i.path] + ")";
		else if (i.key.kind == 'X')
			r = "(" + vs(i.key.l) + " " + string(1, (char) i.key.a) + " " +
				vs(i.key.r) + ")";
		else
			r = string(1, i.key.kind) + ":" + i.desc + "#" +
				std::to_string(i.key.a);
		if (i.key.gen) r += "'" + std::to_string(i.key.gen);
		return r;
	}
	void dump(const State &s, FILE *f) {
		fprintf(f, "STATE fl=%d\n  env", s.fl);
		for (size_t v = 0; v < s.env.size(); ++v)
			if (s.env[v].k != Val::UNK)
				fprintf(f, " %s=%s", F.vnames[v].c_str(), vs(s.env[v]).c_str());
		fprintf(f, "\n  temps");
		for (auto &t : s.temps)
			fprintf(f, " t%d=%s", t.first, vs(t.second).c_str());
		fprintf(f, "\n  mem");
		for (auto &m : s.mem)
			fprintf(f, " %s->%s=%s%s", ss(m.base).c_str(), paths[m.path].c_str(),
				vs(m.v).c_str(), m.fl & 1 ? "!" : "");
		fprintf(f, "\n  at");
		for (auto &a : s.at)
			fprintf(f, " %s:m%d,o%d,f%d", ss(a.first).c_str(), a.second.mask,
				a.second.own, a.second.fl);
		fprintf(f, "\n  impl");
		for (auto &i : s.impl)
			fprintf(f, " %s:%d=>%s:%d", ss(i.a).c_str(), i.ma, ss(i.b).c_str(), i.mb);
		fprintf(f, "\n  pend");
		for (auto &p : s.pend)
			fprintf(f, " %d:%s", p.line, p.callee < 0 ? "?" : names[p.callee].c_str());
		fprintf(f, "\n");
	}
	/* ---- instructions ---- */
	void exec(const Instr &I, State s, vector<State> &out) {
		++steps;
		curLine = I.line ? I.line : curLine;
		switch (I.k) {
		case Instr::CALL:
			call(out, std::move(s), I);
			return;
		case Instr::ASG: {
			Val v = eval(s, I.r);
			const Type &t = T(I.type);
			if (t.k == 'p' && v.k == Val::CONST && v.v == 0)
				v = Val::Null();
			if (t.k == 'r') {
				Loc L = loc(s, I.l);
				if (L.k == Loc::MEM) {
					if (!localBase(L.base))
						wrote(s, L.base, L.path, I.line);
					structCopy(s, L, v);
				}
			} else
				store(s, I.l, v, I.line);
			setTemp(s, I.t, v);
			break;
		}
		case Instr::CASG: {
			Val l = eval(s, I.l), r = eval(s, I.r);
			if (l.k == Val::SYM && syms[l.v].ptr) {
				/* pointer arithmetic: stays a pointer into the same */
				store(s, I.l, {}, I.line);
				setTemp(s, I.t, {});
				break;
			}
			int ty = lvType(I.l);
			string op = I.name.substr(0, I.name.size() - 1);
			E tmp;
			Val v;
			if (l.k == Val::CONST && r.k == Val::CONST &&
			    (op == "|" || op == "&")) {
				v = Val::C(op == "|" ? (l.v | r.v) : (l.v & r.v));
			} else {
				uint8_t lm = maskOf(s, l), rm = maskOf(s, r);
				bool negs = ((lm | rm) & NEG);
				int id = freshTemp(s, I.t, 0, ty, false, "");
				Attr &a = mkAttr(s, id);
				if (isUnsigned(ty))
					a.mask = ZERO | POS;
				else if (op == "+" && !negs)
					a.mask = (lm & ZERO) && (rm & ZERO) ?
						ZERO | POS : POS;
				else if (op == "*" && !negs)
					a.mask = ZERO | POS;
				else
					a.mask = IANY;
				v = Val::S(id);
			}
			store(s, I.l, v, I.line);
			setTemp(s, I.t, v);
			break;
		}
		case Instr::INC: {
			Val l = eval(s, I.l);
			int ty = lvType(I.l);
			bool post = I.name[0] == 'p';
			bool inc = I.name.find("++") != string::npos;
			if (l.k == Val::SYM && syms[l.v].ptr) {
				Val nv;
				if (I.l->op == 'v') {
					int id = freshTemp(s, I.t, 0, ty, true, "");
					Attr &a = mkAttr(s, id);
					a.mask = NNB;
					nv = Val::S(id);
				}
				store(s, I.l, nv, I.line);
				setTemp(s, I.t, post ? l : nv);
				break;
			}
			/* reference counts */
			if (I.l->op == 'm' && I.l->s == "ref" &&
			    P.refcounted.count(I.l->s2)) {
				refChange(s, I, inc);
				break;
			}
			Val nv;
			uint8_t lm = maskOf(s, l);
			{
				int id = freshTemp(s, I.t, 0, ty, false, "");
				/* l may have been renamed */
				Attr &a = mkAttr(s, id);
				if (inc)
					a.mask = !(lm & NEG) ? POS :
						(lm & POS) || (lm & ZERO) ? IANY : NEG | ZERO;
				else
					a.mask = isUnsigned(ty) ? ZERO | POS :
						lm == POS ? ZERO | POS :
						!(lm & POS) ? NEG : IANY;
				nv = Val::S(id);
				if (!isUnsigned(ty) || inc)
					stepFacts(s, eval(s, I.l), id, inc);
			}
			if (post) {
				/* old value: re-read, as it may have been renamed */
				Val old = eval(s, I.l);
				store(s, I.l, nv, I.line);
				setTemp(s, I.t, old);
			} else {
				store(s, I.l, nv, I.line);
				setTemp(s, I.t, nv);
			}
			break;
		}
		case Instr::DECL: {
			const Type &t = T(F.vtypes[I.t]);
			if (t.k == 'r' || t.k == 'a') {
				int b = symAddrVar(I.t);
				clearMem(s, b);
				if (Attr *a = attr(s, b))
					if (isMpzVar(I.t) && a->own == OO)
						report("int-leak", I.line, shortd(b));
				Attr &a = mkAttr(s, b);
				a.own = OB;
				if (I.r && I.r->op == 'L')
					initList(s, b, "", I.r, F.vtypes[I.t]);
				else if (I.r) {
					Loc L;
					L.k = Loc::MEM;
					L.base = b;
					structCopy(s, L, eval(s, I.r));
				}
				break;
			}
			if (!I.r) {
				s.env[I.t] = {Val::UNDEF, 0};
				break;
			}
			Val v = eval(s, I.r);
			if (t.k == 'p' && v.k == Val::CONST && v.v == 0)
				v = Val::Null();
			s.env[I.t] = v;
			break;
		}
		case Instr::RET: {
			Val v = I.r ? eval(s, I.r) : Val();
			atReturn(std::move(s), v, &I, !I.r);
			return;
		}
		case Instr::USE:
			eval(s, I.r);
			break;
		case Instr::PHI: {
			Val v = eval(s, I.r);
			if (I.logical && v.k != Val::CONST &&
			    v.k != Val::NUL && v.k != Val::NN) {
				/* one state for each outcome */
				State c = s;
				if (assume(c, I.r, true)) {
					setTemp(c, I.t, Val::C(1));
					out.push_back(std::move(c));
				}
				if (!assume(s, I.r, false))
					return;
				setTemp(s, I.t, Val::C(0));
				break;
			}
			if (I.logical)
				v = boolOf(s, v);
			setTemp(s, I.t, v);
			break;
		}
		}
		out.push_back(std::move(s));
	}
	void initList(State &s, int b, const string &pre, const E *e, int type) {
		const Type &t = T(type);
		if (t.k == 'r') {
			auto it = F.tu->recs.find(t.arg);
			if (it == F.tu->recs.end() || it->second.isUnion)
				return;
			for (size_t i = 0; i < e->ch.size() && i < it->second.fs.size(); ++i) {
				const Field &f = it->second.fs[i];
				const E *x = e->ch[i];
				string p = pre.empty() ? f.name : pre + "." + f.name;
				if (x && x->op == 'L') {
					initList(s, b, p, x, f.type);
					continue;
				}
				Loc L;
				L.k = Loc::MEM;
				L.base = b;
				L.path = p;
				Val v;
				if (!x)
					v = Val::C(0);
				else
					v = eval(s, x);
				if (x && x->op == '?')
					v = isPtr(f.type) ? Val::Null() : Val::C(0);
				storeLoc(s, L, v, e->line, f.type);
			}
		} else {
			for (size_t i = 0; i < e->ch.size(); ++i) {
				const E *x = e->ch[i];
				string p = pre + "[" + std::to_string(i) + "]";
				if (!x || x->op == 'L' || x->op == '?')
					continue;
				Loc L;
				L.k = Loc::MEM;
				L.base = b;
				L.path = p;
				storeLoc(s, L, eval(s, x), e->line, t.el);
			}
		}
	}
	void refChange(State &s, const Instr &I, bool inc) {
		Val b = eval(s, I.l->ch[0]);
		Val old = eval(s, I.l);
		int id = freshTemp(s, I.t, 0, lvType(I.l), false, "ref");
		mkAttr(s, id).mask = inc ? POS : IANY;
		if (b.k == Val::SYM) {
			deref(s, b, I.line);
			Attr &a = mkAttr(s, b.v);
			a.fl &= ~F_EXCL;
			setMem(s, b.v, path("ref"), Val::S(id), 2);
			if (inc) {
				if (a.own == OB || a.own == OT)
					a.own = OO;
				else
					a.own = OU;
				if (syms[b.v].key.kind == 'P' && !quiet)
					sum.incref[syms[b.v].key.a] = 1;
				/* known to be shared */
				Val d = diff(s, Val::S(id), Val::C(1));
				if (d.k == Val::SYM)
					refine(s, d.v, POS);
			} else {
				if (a.own == OB && syms[b.v].key.kind == 'P' && !quiet)
					sum.eff[syms[b.v].key.a] |= 1;
				if (a.own == OR)
					report("double-release", I.line, describe(b.v));
				a.own = OD;
			}
		}
		bool post = I.name[0] == 'p';
		setTemp(s, I.t, post ? old : Val::S(id));
	}

	/* ---- state sets ---- */
	struct BlockStates {
		std::deque<State> st;
		std::unordered_map<size_t, vector<int>> idx;
		std::unordered_map<size_t, vector<int>> kidx;
		bool merging = false;
	};
	static bool addPend(State &to, const State &from) {
		bool ch = false;
		for (auto &p : from.pend) {
			auto it = std::lower_bound(to.pend.begin(), to.pend.end(), p);
			if (it == to.pend.end() || !(*it == p)) {
				to.pend.insert(it, p);
				ch = true;
			}
		}
		return ch;
	}
	/* what states must agree on to be merged */
	size_t mergeKey(const State &s, vector<long> &k) {
		k.clear();
		k.push_back(s.fl);
		for (size_t v = 0; v < s.env.size(); ++v) {
			char c = T(F.vtypes[v]).k;
			if (c == 'p' || c == 'F') {
				k.push_back(s.env[v].k);
				k.push_back(s.env[v].v);
			}
		}
		for (auto &t : s.temps)
			if (t.second.k == Val::SYM && syms[t.second.v].ptr) {
				k.push_back(t.first);
				k.push_back(t.second.v);
			} else if (t.second.k == Val::NUL || t.second.k == Val::NN) {
				k.push_back(t.first);
				k.push_back(-t.second.k);
			}
		for (auto &a : s.at)
			if ((a.second.fl & F_PTR) && a.second.own != OB) {
				k.push_back(a.first);
				k.push_back(a.second.own | a.second.mask << 8);
			} else if (!(a.second.fl & F_PTR) &&
				   (syms[a.first].key.kind == 'A' || syms[a.first].key.kind == 'M')) {
				k.push_back(a.first);
				k.push_back(a.second.own);
			} else if (syms[a.first].key.kind == 'P' && (a.second.fl & F_PTR)) {
				k.push_back(a.first);
				k.push_back(a.second.own | a.second.mask << 8);
			}
		for (auto &m : s.mem)
			if ((m.fl & 1) || localBase(m.base)) {
				k.push_back(m.base);
				k.push_back(m.path);
				k.push_back(m.v.k);
				k.push_back(m.v.v);
			}
		size_t h = 7;
		for (long x : k)
			h ^= x + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2);
		return h;
	}
	/* least upper bound of two states with the same key */
	State join(State &a, State &b) {
		State r;
		r.fl = a.fl;
		r.env = a.env;
		for (size_t i = 0; i < r.env.size(); ++i)
			if (!(a.env[i] == b.env[i]))
				r.env[i] = a.env[i].k == Val::UNDEF ||
					b.env[i].k == Val::UNDEF ?
					Val{Val::UNDEF, 0} : Val{};
		for (auto &t : a.temps)
			for (auto &u : b.temps)
				if (t.first == u.first && t.second == u.second)
					r.temps.push_back(t);
		for (auto &m : a.mem) {
			MemE *o = findMem(b, m.base, m.path);
			if (o && o->v == m.v && (o->fl & 1) == (m.fl & 1)) {
				r.mem.push_back(m);
				r.mem.back().fl |= o->fl;
			} else if (m.v.k == Val::SYM) {
				Attr *x = attr(a, m.v.v);
				if (x && x->own == OT) {
					/* keep what holds a transferred reference */
				}
			}
		}
		for (auto &x : a.at) {
			Attr *o = attr(b, x.first);
			if (!o)
				continue;
			Attr n = x.second;
			n.mask |= o->mask;
			n.em |= o->em;
			n.fl = x.second.fl | o->fl;
			if (!(x.second.fl & F_EXCL) || !(o->fl & F_EXCL))
				n.fl &= ~F_EXCL;
			r.at.push_back({x.first, n});
		}
		/* attributes only one side knows about */
		for (auto *p : {&a, &b})
			for (auto &x : p->at) {
				if (attr(r, x.first))
					continue;
				if (syms[x.first].key.kind == 'X')
					continue;
				Attr n = x.second;
				n.mask = defMask(x.first);
				if (n.own == OB || true) {
					mkAttr(r, x.first) = n;
				}
			}
		auto holds = [&](State &s, const Impl &i) {
			Attr *x = attr(s, i.a), *y = attr(s, i.b);
			if (x && !(x->mask & i.ma))
				return true;
			if (y && (y->mask & ~i.mb) == 0)
				return true;
			return std::binary_search(s.impl.begin(), s.impl.end(), i);
		};
		for (auto *p : {&a, &b})
			for (auto &i : p->impl)
				if (holds(a, i) && holds(b, i) && attr(r, i.a) &&
				    attr(r, i.b))
					addImpl(r, i.a, i.ma, i.b, i.mb);
		r.pend = a.pend;
		addPend(r, b);
		return r;
	}
	enum { MERGE_AT = 24 };
	/* add "s"; on merging, "s" becomes the state to continue with */
	bool addState(BlockStates &B, State &s) {
		size_t h = s.hash();
		for (int i : B.idx[h])
			if (B.st[i] == s) {
				if (!addPend(B.st[i], s))
					return false;
				s = B.st[i];
				return true;
			}
		vector<long> k, k2;
		if (!B.merging && B.st.size() >= MERGE_AT) {
			B.merging = true;
			for (size_t i = 0; i < B.st.size(); ++i)
				B.kidx[mergeKey(B.st[i], k)].push_back(i);
		}
		if (B.merging) {
			size_t kh = mergeKey(s, k);
			int last = -1;
			for (int i : B.kidx[kh]) {
				mergeKey(B.st[i], k2);
				if (k == k2)
					last = i;
			}
			if (last >= 0) {
				State j = join(B.st[last], s);
				if (j == B.st[last]) {
					if (!addPend(B.st[last], s))
						return false;
					s = B.st[last];
					return true;
				}
				B.st[last] = j;
				B.idx[j.hash()].push_back(last);
				s = j;
				return true;
			}
			B.kidx[kh].push_back(B.st.size());
		}
		B.idx[h].push_back(B.st.size());
		B.st.push_back(s);
		return true;
	}

	/* ---- driver ---- */
	struct Item { int block; int node; };
	bool run() {
		if (F.bl.empty())
			return true;
		liveness();
		size_t nb = F.bl.size();
		vector<BlockStates> seen(nb);
		State init;
		init.env.assign(F.vnames.size(), Val());
		for (size_t i = 0; i < F.ps.size(); ++i) {
			int id = symParam(i);
			init.env[i] = Val::S(id);
			Attr &a = mkAttr(init, id);
			if (a.fl & F_PTR) {
				if (F.ps[i].ann & A_TAKE)
					a.own = OO;
				else
					a.own = OB;
				if (T(F.ps[i].type).k == 'a')
					a.mask = NNB;
			}
		}
		std::deque<std::pair<Item, State>> work;
		long total = 0;
		auto push = [&](int bid, int parent, State &&s) {
			int bi = F.bidx[bid];
			curNode = parent;
			gc(s, bi, curLine);
			if (!addState(seen[bi], s))
				return;
			if (reporting && traceFn == F.name) {
				fprintf(stderr, "-> block %d (line %d) from line %d\n",
					bid, F.bl[bi].is.empty() ? 0 : F.bl[bi].is[0].line, curLine);
				dump(s, stderr);
			}
			++total;
			nodes.push_back({parent, bid});
			work.emplace_back(Item{bid, (int) nodes.size() - 1}, std::move(s));
		};
		push(F.entry, -1, std::move(init));
		while (!work.empty()) {
			if (total > capStates) {
				if (dumpCap) {
					size_t best = 0;
					for (size_t i = 0; i < nb; ++i)
						if (seen[i].st.size() > seen[best].st.size())
							best = i;
					fprintf(stderr, "%s block %d: %zu\n", F.name.c_str(),
						F.bl[best].id, seen[best].st.size());
					int n = 6;
					for (auto &x : seen[best].st)
						if (n-- > 0)
							dump(x, stderr);
				}
				return false;
			}
			Item it = work.back().first;
			State st = std::move(work.back().second);
			work.pop_back();
			curNode = it.node;
			const Block &b = F.bl[F.bidx[it.block]];
			vector<State> cur, nxt;
			cur.push_back(std::move(st));
			bool returned = false;
			for (auto &I : b.is) {
				nxt.clear();
				for (auto &s : cur)
					exec(I, std::move(s), nxt);
				cur.swap(nxt);
				if (I.k == Instr::RET)
					returned = true;
				if (cur.empty())
					break;
			}
			if (returned || cur.empty())
				continue;
			if (b.noret)
				continue;
			if (b.id == F.exit) {
				continue;
			}
			for (auto &s : cur) {
				if (b.succ.empty())
					continue;
				if (b.succ.size() == 1 || !b.cond) {
					for (int sid : b.succ) {
						if (sid < 0)
							continue;
						State c = s;
						if (sid == F.exit && !returned) {
							/* falling off the end */
							atReturn(std::move(c), {}, nullptr, true);
							continue;
						}
						curLine = b.tline ? b.tline : curLine;
						push(sid, it.node, std::move(c));
					}
					continue;
				}
				curLine = b.tline;
				if (b.term == "switch") {
					doSwitch(s, b, it.node, push);
					continue;
				}
				for (int k = 0; k < 2; ++k) {
					int sid = b.succ[k];
					if (sid < 0)
						continue;
					State c = s;
					if (!assume(c, b.cond, k == 0))
						continue;
					const Block &sb = F.bl[F.bidx[sid]];
					if (sb.logjoin >= 0)
						setTemp(c, sb.logjoin, Val::C(k == 0));
					if (sid == F.exit) {
						atReturn(std::move(c), {}, nullptr, true);
						continue;
					}
					push(sid, it.node, std::move(c));
				}
			}
		}
		STATS["states"] += total;
		STATS["steps"] += steps;
		sum.done = true;
		return true;
	}
	template <class Pu> void doSwitch(State &s, const Block &b, int node, Pu push) {
		Val v = eval(s, b.cond);
		vector<long> cases;
		for (int sid : b.succ) {
			if (sid < 0)
				continue;
			const Block &sb = F.bl[F.bidx[sid]];
			if (sb.lab == Block::CASE)
				for (long c = sb.lo; c <= sb.hi && c < sb.lo + 64; ++c)
					cases.push_back(c);
		}
		for (int sid : b.succ) {
			if (sid < 0)
				continue;
			const Block &sb = F.bl[F.bidx[sid]];
			State c = s;
			bool ok = true;
			if (sb.lab == Block::CASE && sb.lo == sb.hi)
				ok = assumeCmp(c, "==", v, Val::C(sb.lo), true);
			else if (sb.lab != Block::CASE)
				for (long x : cases)
					if (ok)
						ok = assumeCmp(c, "==", v, Val::C(x), false);
			if (!ok)
				continue;
			if (sid == F.exit) {
				atReturn(std::move(c), {}, nullptr, true);
				continue;
			}
			push(sid, node, std::move(c));
		}
	}
};

/* ---- call graph and driver ---- */
static void callees(const Fn &f, vector<Fn *> &out)
{
	std::function<void(const E *)> walk = [&](const E *e) {
		if (!e)
			return;
		if (e->op == 'f')
			if (Fn *c = P.resolve(f.tu, e->s))
				out.push_back(c);
		for (auto *x : e->ch)
			walk(x);
	};
	for (auto &b : f.bl)
		for (auto &i : b.is) {
			if (i.k == Instr::CALL) {
				if (!i.fe)
					if (Fn *c = P.resolve(f.tu, i.name))
						out.push_back(c);
				for (auto *a : i.args)
					walk(a);
			}
			walk(i.r);
		}
}

static string jesc(const string &s)
{
	string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char) c < 0x20) r += ' ';
		else r += c;
	}
	return r + "\"";
}

int main(int argc, char **argv)
{
	vector<string> files;
	string outFile, only;
	bool dumpSum = false;
	for (int i = 1; i < argc; ++i) {
		string a = argv[i];
		if (a == "-o") outFile = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--cap") capStates = atoi(argv[++i]);
		else if (a == "--trace") traceFn = argv[++i];
		else if (a == "--dumpcap") dumpCap = true;
		else if (a == "--sum") dumpSum = true;
		else files.push_back(a);
	}
	std::sort(files.begin(), files.end());
	auto t0 = std::chrono::steady_clock::now();
	auto el = [&]() {
		return std::chrono::duration<double>(
			std::chrono::steady_clock::now() - t0).count();
	};
	loadProgram(P, files);
	P.refcounted.erase("isl_ctx");
	auto contract = [&](const Contract &c, FnSig &sig) {
		sig.ann |= c.ret;
		for (auto &a : c.args)
			if (a.first < (int) sig.ps.size())
				sig.ps[a.first].ann |= a.second;
	};
	for (auto &d : P.decls) {
		auto c = CONTRACTS.find(d.first);
		if (c != CONTRACTS.end())
			for (auto &i : d.second)
				contract(c->second, i.sig);
	}
	for (auto &f : P.fns) {
		auto c = CONTRACTS.find(f->name);
		if (c == CONTRACTS.end())
			continue;
		f->ra |= c->second.ret;
		for (auto &a : c->second.args)
			if (a.first < (int) f->ps.size())
				f->ps[a.first].ann |= a.second;
	}
	fprintf(stderr, "loaded %zu functions in %.1fs\n", P.fns.size(), el());

	/* SCCs of the call graph, callees first */
	map<Fn *, vector<Fn *>> cg;
	vector<Fn *> all;
	for (auto &f : P.fns) {
		all.push_back(f.get());
		callees(*f, cg[f.get()]);
	}
	map<Fn *, int> idx, low;
	map<Fn *, bool> on;
	vector<Fn *> stk;
	vector<vector<Fn *>> sccs;
	int counter = 0;
	std::function<void(Fn *)> dfs = [&](Fn *f) {
		idx[f] = low[f] = ++counter;
		stk.push_back(f);
		on[f] = true;
		for (Fn *c : cg[f]) {
			if (!idx.count(c)) {
				dfs(c);
				low[f] = std::min(low[f], low[c]);
			} else if (on[c])
				low[f] = std::min(low[f], idx[c]);
		}
		if (low[f] == idx[f]) {
			vector<Fn *> s;
			Fn *x;
			do {
				x = stk.back();
				stk.pop_back();
				on[x] = false;
				s.push_back(x);
			} while (x != f);
			sccs.push_back(s);
		}
	};
	for (Fn *f : all)
		if (!idx.count(f))
			dfs(f);
	size_t big = 0;
	for (auto &s : sccs)
		big = std::max(big, s.size());
	fprintf(stderr, "%zu sccs, largest %zu\n", sccs.size(), big);

	auto analyse = [&](Fn *f, Summary &res) {
		Analyzer A(*f);
		A.sum.isStatic = f->isStatic;
		if (SUM.count(f))
			A.final = &SUM[f];
		bool ok = A.run();
		res = A.sum;
		if (!ok) {
			/* give up on this function: assume the conventions */
			res.retMask = res.okMask = IANY;
			for (auto &r : res.retIf)
				r = {IANY, IANY, IANY};
			for (auto &r : res.inIf)
				r = {IANY, IANY, IANY};
			for (auto &r : res.outMask)
				r = {IANY, IANY, IANY};
			res.outSame.assign(f->ps.size(), IANY);
			res.outOwn.assign(f->ps.size(), 3);
			res.returns = true;
			res.done = true;
			INCOMPLETE.insert(f->key);
		}
		return ok;
	};
	/* An unannotated function that returns its argument on success and
	 * releases it on failure takes and gives that argument.
	 * The functions for which this is known to hold are listed as well.
	 */
	auto inferAnnotations = [&](const vector<Fn *> &scc) {
		bool ch = false;
		for (Fn *f : scc) {
			const Summary &n = SUM[f];
			if (INFERRED.count(f) || f->ra || f->ret < 0 ||
			    f->tu->types[f->ret].k != 'p' || !n.done)
				continue;
			int pos = -1, cnt = 0, rec = 0;
			for (size_t i = 0; i < f->ps.size(); ++i) {
				if (f->ps[i].ann || f->ps[i].type < 0)
					continue;
				if (f->tu->types[f->ps[i].type].sp !=
				    f->tu->types[f->ret].sp)
					continue;
				cnt++;
				if (n.retOwn == 2 && (n.eff[i] & 3) == 3) {
					pos = i;
					rec++;
				}
				if (TAKEGIVE.count(f->name)) {
					pos = i;
					rec = 1;
				}
			}
			if (cnt != 1 || rec != 1 || pos < 0)
				continue;
			f->ps[pos].ann |= A_TAKE;
			f->ra |= A_GIVE;
			INFERRED.insert(f);
			ch = true;
		}
		return ch;
	};
	for (int phase = 0; phase < 2; ++phase) {
		reporting = phase == 1;
		double ts = el();
		for (auto &s : sccs) {
			if (phase == 0) {
				/* bottom */
				for (Fn *f : s) {
					Summary b;
					b.init(f->ps.size());
					b.isStatic = f->isStatic;
					SUM[f] = b;
				}
				for (int it = 0; it < 16; ++it) {
					bool ch = false;
					for (Fn *f : s) {
						Summary n;
						double a0 = el();
						analyse(f, n);
						double d = el() - a0;
						if (d > 1)
							fprintf(stderr, "slow %s %.1fs\n",
								f->name.c_str(), d);
						if (!(n == SUM[f]) || !SUM[f].done) {
							ch = true;
							SUM[f] = n;
						}
					}
					bool stop = !ch;
					if (s.size() == 1) {
						bool self = false;
						for (Fn *c : cg[s[0]])
							if (c == s[0])
								self = true;
						if (!self)
							stop = true;
					}
					if (stop) {
						if (!inferAnnotations(s))
							break;
						it = 0;
					}
				}
			} else {
				for (Fn *f : s) {
					if (!only.empty() && f->name != only)
						continue;
					Summary n;
					analyse(f, n);
				}
			}
		}
		fprintf(stderr, "phase %d: %.1fs\n", phase, el() - ts);
	}
	/* output */
	FILE *o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
	fprintf(o, "{\"functions\":%zu,\"states\":%ld,\"steps\":%ld,\n",
		P.fns.size(), STATS["states"], STATS["steps"]);
	fprintf(o, "\"incomplete\":[");
	bool first = true;
	for (auto &s : INCOMPLETE) {
		fprintf(o, "%s%s", first ? "" : ",", jesc(s).c_str());
		first = false;
	}
	fprintf(o, "],\n\"reports\":[");
	first = true;
	for (auto &r : REPORTS) {
		fprintf(o, "%s\n[%s,%s,%s,%d,%s,[", first ? "" : ",",
			jesc(r.cat).c_str(), jesc(r.fn).c_str(),
			jesc(r.file).c_str(), r.line, jesc(r.what).c_str());
		for (size_t i = 0; i < r.trace.size(); ++i)
			fprintf(o, "%s%d", i ? "," : "", r.trace[i]);
		fprintf(o, "]]");
		first = false;
	}
	fprintf(o, "],\n\"summaries\":[");
	first = true;
	for (auto &f : P.fns) {
		const Summary &s = SUM[f.get()];
		fprintf(o, "%s\n{\"fn\":%s,\"file\":%s,\"line\":%d,\"static\":%d,\"public\":%d,\"ret\":%s,\"ra\":%d,\"rm\":%d,\"own\":%d,\"excl\":%d,\"fnn\":%d,\"benign\":%d,\"bl\":%d,\"ps\":[",
			first ? "" : ",", jesc(f->name).c_str(), jesc(f->file).c_str(),
			f->line, f->isStatic, (int) P.publicFns.count(f->name),
			jesc(f->ret >= 0 ? f->tu->types[f->ret].sp : "").c_str(),
			f->ra, s.retMask, s.retOwn, s.retExcl, (int) s.failNN, !!(s.okMask & ((f->ret >= 0 && (f->tu->types[f->ret].k == 'p' || f->tu->types[f->ret].k == 'F')) ? N : NEG)), s.benignLine);
		for (size_t i = 0; i < f->ps.size(); ++i)
			fprintf(o, "%s[%s,%s,%d,[%d,%d,%d],%d,%d,%d,%d,%s,%d,%d,%d]", i ? "," : "",
				jesc(f->ps[i].name).c_str(),
				jesc(f->tu->types[f->ps[i].type].sp).c_str(),
				f->ps[i].ann,
				s.retIf[i][0], s.retIf[i][1], s.retIf[i][2],
				s.req[i], s.req[i] ? s.reqLine[i] : 0, s.mut[i],
				s.mut[i] ? s.mutLine[i] : 0,
				jesc(s.mut[i] && i < s.mutWhat.size() ? s.mutWhat[i] : "").c_str(),
				s.eff[i], s.exclReq[i], s.incref[i]);
		fprintf(o, "]}");
		first = false;
	}
	fprintf(o, "]}\n");
	if (o != stdout)
		fclose(o);
	fprintf(stderr, "%zu reports, %zu incomplete, %.1fs\n", REPORTS.size(),
		INCOMPLETE.size(), el());
	return 0;
}
