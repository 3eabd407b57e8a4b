/* In-memory form of the extracted program. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>
using std::string;
using std::vector;
using std::map;
using std::set;

/* ---- JSON ---- */
struct JV {
	enum K { NUL, NUM, STR, ARR, OBJ } k = NUL;
	long n = 0;
	string s;
	vector<JV> a;
	vector<std::pair<string, JV>> o;
	const JV &operator[](const char *key) const {
		for (auto &p : o)
			if (p.first == key)
				return p.second;
		static JV none;
		return none;
	}
	const JV &operator[](size_t i) const { return a[i]; }
	const JV &operator[](int i) const { return a[i]; }
	size_t size() const { return a.size(); }
	bool isNull() const { return k == NUL; }
};
struct JP {
	const char *p;
	void ws() { while (*p == ' ' || *p == '\n') ++p; }
	JV parse() {
		JV v;
		ws();
		if (*p == '{') {
			v.k = JV::OBJ;
			++p;
			ws();
			if (*p == '}') { ++p; return v; }
			for (;;) {
				ws();
				string key = str();
				ws(); ++p; /* : */
				v.o.emplace_back(std::move(key), parse());
				ws();
				if (*p++ == '}')
					break;
			}
		} else if (*p == '[') {
			v.k = JV::ARR;
			++p;
			ws();
			if (*p == ']') { ++p; return v; }
			for (;;) {
				v.a.push_back(parse());
				ws();
				if (*p++ == ']')
					break;
			}
		} else if (*p == '"') {
			v.k = JV::STR;
			v.s = str();
		} else if (!strncmp(p, "null", 4)) {
			p += 4;
		} else {
			char *e;
			v.k = JV::NUM;
			v.n = strtol(p, &e, 10);
			if (e == p) {
				fprintf(stderr, "json error at: %.40s\n", p);
				exit(3);
			}
			p = e;
		}
		return v;
	}
	string str() {
		string r;
		++p;
		while (*p != '"') {
			if (*p == '\\') {
				++p;
				switch (*p) {
				case 'n': r += '\n'; break;
				case 't': r += '\t'; break;
				case 'r': r += '\r'; break;
				case 'u': {
					char b[5] = { p[1], p[2], p[3], p[4], 0 };
					r += (char) strtol(b, nullptr, 16);
					p += 4;
					break;
				}
				default: r += *p;
				}
				++p;
			} else
				r += *p++;
		}
		++p;
		return r;
	}
};

/* ---- program ---- */
struct Type {
	string sp;	/* as spelled */
	char k;
	string arg;
	int el;
	bool cnst;
	long bits = 0;	/* negative: unsigned */
};
struct FnSig;
struct Field { string name; int type; std::shared_ptr<FnSig> sig; };
struct Record { string name, file; int line; bool isUnion; vector<Field> fs; };
enum { A_GIVE = 1, A_TAKE = 2, A_KEEP = 4, A_NULL = 8, A_EXPORT = 16 };
struct ParamSig { string name; int type; int ann; std::shared_ptr<FnSig> fp; };
struct FnSig { int ret = -1; int ann = 0; vector<ParamSig> ps; bool noret = false; };

struct E {
	/* v g f i s n m x * & u b c z L t ? */
	char op;
	int a = -1;		/* var / temp / type */
	long i = 0;
	string s, s2;		/* name, field / record */
	bool arrow = false;
	int type = -1;
	int line = 0;
	vector<E *> ch;
};
struct Instr {
	enum K { CALL, ASG, CASG, INC, DECL, RET, USE, PHI } k;
	int t = -1;
	string name;		/* callee or operator */
	E *fe = nullptr;	/* indirect callee */
	std::shared_ptr<FnSig> sig;
	vector<E *> args;
	E *l = nullptr, *r = nullptr;
	int line = 0;
	int type = -1;
	bool logical = false;
};
struct Block {
	int id;
	vector<Instr> is;
	bool hasTerm = false;
	string term;
	E *cond = nullptr;
	int tline = 0;
	vector<int> succ;
	/* label */
	enum { NONE, CASE, DEFAULT, LABEL } lab = NONE;
	long lo = 0, hi = 0;
	int logjoin = -1;
	bool noret = false;
};
struct TU {
	string name;
	vector<Type> types;
	map<string, Record> recs;
	bool refcounted(const string &r) const;
};
struct Fn {
	string name, key, file;
	TU *tu;
	int line, eline;
	bool isStatic;
	int ret;
	int ra;
	vector<ParamSig> ps;
	vector<string> vnames;
	vector<int> vtypes;
	int nt;
	int entry, exit;
	vector<Block> bl;
	vector<int> bidx;	/* block id -> index */
};
struct DeclInfo {
	string file;
	int line;
	bool def, isStatic;
	int ra;
	FnSig sig;
	bool va;
	TU *tu;
};
struct Program {
	vector<std::unique_ptr<TU>> tus;
	vector<std::unique_ptr<Fn>> fns;
	map<string, Fn *> global;		/* external functions */
	map<std::pair<TU *, string>, Fn *> local;
	map<string, vector<DeclInfo>> decls;
	map<std::pair<TU *, string>, vector<DeclInfo>> sdecls;
	set<string> refcounted;
	/* structures embedded at the start of another structure */
	set<std::pair<string,string>> firstStruct;
	set<string> publicFns;
	set<string> addrTaken;
	Fn *resolve(TU *tu, const string &n) const {
		auto it = local.find({tu, n});
		if (it != local.end())
			return it->second;
		auto g = global.find(n);
		return g == global.end() ? nullptr : g->second;
	}
};
void loadProgram(Program &P, const vector<string> &files);
