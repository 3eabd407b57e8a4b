#include "ir.h"
#include <fstream>
#include <sstream>
#include <thread>
#include <mutex>
#include <atomic>

static int annBits(const JV &v)
{
	int r = 0;
	for (auto &x : v.a) {
		if (x.s == "give") r |= A_GIVE;
		else if (x.s == "take") r |= A_TAKE;
		else if (x.s == "keep") r |= A_KEEP;
		else if (x.s == "null") r |= A_NULL;
		else if (x.s == "export") r |= A_EXPORT;
	}
	return r;
}

static std::shared_ptr<FnSig> sigOf(const JV &v)
{
	if (v.k != JV::ARR)
		return nullptr;
	auto s = std::make_shared<FnSig>();
	s->ret = v[0].n;
	s->ann = annBits(v[1]);
	for (auto &p : v[2].a)
		s->ps.push_back({p[2].s, (int) p[0].n, annBits(p[1]), nullptr});
	return s;
}

static E *tree(const JV &v)
{
	if (v.k != JV::ARR)
		return nullptr;
	E *e = new E;
	const string &op = v[0].s;
	e->op = '?';
	if (op == "v") { e->op = 'v'; e->a = v[1].n; }
	else if (op == "g") { e->op = 'g'; e->s = v[1].s; e->type = v[2].n; }
	else if (op == "f") { e->op = 'f'; e->s = v[1].s; }
	else if (op == "i") { e->op = 'i'; e->i = v[1].k == JV::NUM ? v[1].n : 0x7fffffffffffffffL;
		if (v.size() > 2) e->s = v[2].s; }
	else if (op == "s") { e->op = 's'; e->s = v[1].s; }
	else if (op == "n") e->op = 'n';
	else if (op == "m") {
		e->op = 'm';
		e->ch.push_back(tree(v[1]));
		e->s = v[2].s;
		e->s2 = v[3].s;
		e->arrow = v[4].n;
		e->type = v[5].n;
		e->line = v[6].n;
	} else if (op == "x") {
		e->op = 'x';
		e->ch.push_back(tree(v[1]));
		e->ch.push_back(tree(v[2]));
		e->type = v[3].n;
		e->line = v[4].n;
	} else if (op == "*") {
		e->op = '*';
		e->ch.push_back(tree(v[1]));
		e->type = v[2].n;
		e->line = v[3].n;
	} else if (op == "&") { e->op = '&'; e->ch.push_back(tree(v[1])); }
	else if (op == "u") { e->op = 'u'; e->s = v[1].s; e->ch.push_back(tree(v[2])); }
	else if (op == "b") {
		e->op = 'b'; e->s = v[1].s;
		e->ch.push_back(tree(v[2])); e->ch.push_back(tree(v[3]));
		e->type = v[4].n;
	} else if (op == "c") { e->op = 'c'; e->type = v[1].n; e->ch.push_back(tree(v[2])); }
	else if (op == "sz") { e->op = 'i'; e->i = v[1].k == JV::NUM ? v[1].n : 0; e->s = "sizeof"; }
	else if (op == "il") {
		e->op = 'L'; e->type = v[1].n;
		for (auto &x : v[2].a)
			e->ch.push_back(tree(x));
	} else if (op == "t") { e->op = 't'; e->a = v[1].n; }
	return e;
}

static void parseFn(const JV &j, TU *tu, Fn *f)
{
	f->tu = tu;
	f->name = j["name"].s;
	f->file = j["file"].s;
	f->line = j["line"].n;
	f->eline = j["eline"].n;
	f->isStatic = j["static"].n;
	f->ret = j["ret"].n;
	f->ra = annBits(j["ra"]);
	for (auto &p : j["ps"].a)
		f->ps.push_back({p[0].s, (int) p[1].n, annBits(p[2]), sigOf(p[3])});
	for (auto &p : f->ps) {
		f->vnames.push_back(p.name);
		f->vtypes.push_back(p.type);
	}
	for (auto &l : j["ls"].a) {
		size_t id = l[0].n;
		if (f->vnames.size() <= id) {
			f->vnames.resize(id + 1);
			f->vtypes.resize(id + 1, -1);
		}
		f->vnames[id] = l[1].s;
		f->vtypes[id] = l[2].n;
	}
	f->nt = j["nt"].n;
	f->entry = j["entry"].n;
	f->exit = j["exit"].n;
	for (auto &b : j["bl"].a) {
		Block B;
		B.id = b[0].n;
		for (auto &i : b[1].a) {
			Instr I;
			const string &k = i[0].s;
			if (k == "call") {
				I.k = Instr::CALL;
				I.t = i[1].n;
				if (i[2].k == JV::STR)
					I.name = i[2].s;
				else {
					I.fe = tree(i[2][0]);
					I.sig = sigOf(i[2][1]);
				}
				for (auto &a : i[3].a)
					I.args.push_back(tree(a));
				I.line = i[4].n;
				I.type = i[5].n;
			} else if (k == "asg") {
				I.k = Instr::ASG;
				I.t = i[1].n;
				I.l = tree(i[2]);
				I.r = tree(i[3]);
				I.line = i[4].n;
				I.type = i[5].n;
			} else if (k == "casg") {
				I.k = Instr::CASG;
				I.t = i[1].n;
				I.name = i[2].s;
				I.l = tree(i[3]);
				I.r = tree(i[4]);
				I.line = i[5].n;
			} else if (k == "inc") {
				I.k = Instr::INC;
				I.t = i[1].n;
				I.name = i[2].s;
				I.l = tree(i[3]);
				I.line = i[4].n;
			} else if (k == "decl") {
				I.k = Instr::DECL;
				I.t = i[1].n;
				I.r = tree(i[2]);
				I.line = i[3].n;
			} else if (k == "ret") {
				I.k = Instr::RET;
				I.r = tree(i[1]);
				I.line = i[2].n;
			} else if (k == "use") {
				I.k = Instr::USE;
				I.r = tree(i[1]);
				I.line = i[2].n;
			} else if (k == "phi") {
				I.k = Instr::PHI;
				I.t = i[1].n;
				I.r = tree(i[2]);
				I.logical = i[3].n;
			}
			B.is.push_back(std::move(I));
		}
		if (b[2].k == JV::ARR) {
			B.hasTerm = true;
			B.term = b[2][0].s;
			B.cond = tree(b[2][1]);
			B.tline = b[2][2].n;
		}
		for (auto &s : b[3].a)
			B.succ.push_back(s.n);
		if (b[4].k == JV::ARR) {
			const string &l = b[4][0].s;
			if (l == "case") {
				B.lab = Block::CASE;
				if (b[4].size() > 1)
					B.lo = B.hi = b[4][1].n;
				if (b[4].size() > 2)
					B.hi = b[4][2].n;
			} else if (l == "default")
				B.lab = Block::DEFAULT;
			else
				B.lab = Block::LABEL;
		}
		if (b[5].k == JV::NUM)
			B.logjoin = b[5].n;
		B.noret = b[6].n;
		f->bl.push_back(std::move(B));
	}
	int mx = 0;
	for (auto &b : f->bl)
		mx = std::max(mx, b.id);
	f->bidx.assign(mx + 1, -1);
	for (size_t i = 0; i < f->bl.size(); ++i)
		f->bidx[f->bl[i].id] = i;
}

static void collectAddr(const E *e, Program &P)
{
	if (!e)
		return;
	if (e->op == 'f')
		P.addrTaken.insert(e->s);
	for (auto *c : e->ch)
		collectAddr(c, P);
}

void loadProgram(Program &P, const vector<string> &files)
{
	struct Part {
		std::unique_ptr<TU> tu;
		vector<std::unique_ptr<Fn>> fns;
		vector<std::pair<string, DeclInfo>> decls;
		vector<E *> ginit;
	};
	vector<Part> parts(files.size());
	std::atomic<size_t> next(0);
	auto work = [&]() {
		for (;;) {
			size_t i = next++;
			if (i >= files.size())
				return;
			Part &pt = parts[i];
			pt.tu.reset(new TU);
			std::ifstream in(files[i]);
			std::stringstream ss;
			ss << in.rdbuf();
			string text = ss.str();
			size_t slash = files[i].rfind('/');
			pt.tu->name = files[i].substr(slash + 1);
			JP jp{text.c_str()};
			for (;;) {
				jp.ws();
				if (!*jp.p)
					break;
				JV j = jp.parse();
				const string &k = j["k"].s;
				if (k == "fn") {
					Fn *f = new Fn;
					parseFn(j, pt.tu.get(), f);
					pt.fns.emplace_back(f);
				} else if (k == "fd") {
					DeclInfo d;
					d.file = j["file"].s;
					d.line = j["line"].n;
					d.def = j["def"].n;
					d.isStatic = j["static"].n;
					d.ra = annBits(j["ra"]);
					d.va = j["va"].n;
					d.sig.ret = j["ret"].n;
					d.sig.ann = annBits(j["raa"]);
					d.sig.noret = j["noret"].n;
					d.tu = pt.tu.get();
					for (auto &p : j["ps"].a)
						d.sig.ps.push_back({p[0].s,
							(int) p[1].n, annBits(p[3]),
							sigOf(p[4])});
					pt.decls.emplace_back(j["name"].s, d);
				} else if (k == "rec") {
					Record r;
					r.name = j["name"].s;
					r.file = j["file"].s;
					r.line = j["line"].n;
					r.isUnion = j["union"].n;
					for (auto &f : j["fs"].a)
						r.fs.push_back({f[0].s, (int) f[1].n,
							sigOf(f[2])});
					pt.tu->recs[r.name] = r;
				} else if (k == "gv") {
					if (j["init"].k == JV::ARR)
						pt.ginit.push_back(tree(j["init"]));
				} else if (k == "types") {
					for (auto &t : j["t"].a) {
						Type T;
						T.sp = t[0].s;
						T.k = t[1].s[0];
						if (t[2].k == JV::STR)
							T.arg = t[2].s;
						else if (t[2].k == JV::NUM)
							T.bits = t[2].n;
						T.el = t[3].n;
						T.cnst = t[4].n;
						pt.tu->types.push_back(T);
					}
				}
			}
		}
	};
	vector<std::thread> th;
	for (int i = 0; i < 8; ++i)
		th.emplace_back(work);
	for (auto &t : th)
		t.join();
	set<std::pair<string, int>> seenInline;
	for (auto &pt : parts) {
		TU *tu = pt.tu.get();
		for (auto &r : tu->recs)
			if (!r.second.isUnion && !r.second.fs.empty()) {
				auto &f = r.second.fs[0];
				if (f.type >= 0 && tu->types[f.type].k == 'r')
					P.firstStruct.insert({r.first, f.name});
			}
		for (auto &r : tu->recs)
			for (auto &f : r.second.fs)
				if (f.name == "ref" && f.type >= 0 &&
				    tu->types[f.type].k == 'i')
					P.refcounted.insert(r.first);
		for (auto &f : pt.fns) {
			if (f->isStatic) {
				P.local[{tu, f->name}] = f.get();
				f->key = f->name + "@" + tu->name;
			} else {
				P.global[f->name] = f.get();
				f->key = f->name;
			}
			P.fns.push_back(std::move(f));
		}
		for (auto &d : pt.decls) {
			if (d.second.isStatic)
				P.sdecls[{tu, d.first}].push_back(d.second);
			else
				P.decls[d.first].push_back(d.second);
			if (d.second.file.compare(0, 12, "include/isl/") == 0)
				P.publicFns.insert(d.first);
		}
		for (auto *e : pt.ginit)
			collectAddr(e, P);
		P.tus.push_back(std::move(pt.tu));
	}
	for (auto &f : P.fns)
		for (auto &b : f->bl)
			for (auto &i : b.is) {
				collectAddr(i.l, P);
				collectAddr(i.r, P);
				for (auto *a : i.args)
					collectAddr(a, P);
			}
}
