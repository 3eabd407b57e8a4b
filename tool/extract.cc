/* IR extractor: parses translation units with clang (the project's own
 * compile flags) and writes, per translation unit, the resolved program:
 * function CFGs in a linearised form, declarations with their ownership
 * annotations, records, enums and global variables, as JSON lines.
 *
 * usage: extract OUTDIR SRCROOT -- FILE... -- CLANGARGS...
 */
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>

using namespace clang;
using std::string;

static string Root;
static string OutDir;

static string esc(llvm::StringRef s)
{
	string r = "\"";
	for (unsigned char c : s) {
		switch (c) {
		case '"': r += "\\\""; break;
		case '\\': r += "\\\\"; break;
		case '\n': r += "\\n"; break;
		case '\t': r += "\\t"; break;
		case '\r': r += "\\r"; break;
		default:
			if (c < 0x20 || c >= 0x7f) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", c);
				r += b;
			} else
				r += c;
		}
	}
	return r + "\"";
}

struct Emitter {
	ASTContext &Ctx;
	SourceManager &SM;
	llvm::raw_ostream &OS;
	std::map<const void *, int> typeIdx;
	std::vector<string> typeRows;
	std::set<const RecordDecl *> recs;
	std::vector<const RecordDecl *> recQueue;
	std::map<const Stmt *, int> temps;
	std::map<const ValueDecl *, int> vars;
	std::vector<const VarDecl *> localVars;
	std::set<const Stmt *> valueLogical;
	int nTemp = 0;

	Emitter(ASTContext &C, llvm::raw_ostream &O)
		: Ctx(C), SM(C.getSourceManager()), OS(O) {}

	string relFile(SourceLocation L) {
		PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
		if (P.isInvalid())
			return "?";
		llvm::SmallString<256> f(P.getFilename());
		llvm::SmallString<256> real;
		if (!llvm::sys::fs::real_path(f, real))
			f = real;
		llvm::StringRef s(f);
		if (s.starts_with(Root + "/"))
			s = s.drop_front(Root.size() + 1);
		return s.str();
	}
	int line(SourceLocation L) {
		PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
		return P.isInvalid() ? 0 : P.getLine();
	}
	string recName(const RecordDecl *R) {
		if (R->getIdentifier())
			return R->getName().str();
		if (auto *T = R->getTypedefNameForAnonDecl())
			return T->getName().str();
		return "anon@" + relFile(R->getLocation()) + ":" +
			std::to_string(line(R->getLocation()));
	}
	/* [spelled, kind, arg, elem] where kind is one of
	 * p(ointer), a(rray), r(ecord), e(num), i(nt), b(ool), f(loat),
	 * F(unction), v(oid), o(ther).
	 */
	int type(QualType T) {
		const void *key = T.getAsOpaquePtr();
		auto it = typeIdx.find(key);
		if (it != typeIdx.end())
			return it->second;
		int id = typeRows.size();
		typeIdx[key] = id;
		typeRows.push_back("");
		QualType C = T.getCanonicalType();
		string k = "o", arg = "null";
		int el = -1;
		if (C->isPointerType()) {
			k = "p";
			/* keep typedef sugar of the pointee when there is any */
			if (auto *P = T->getAs<PointerType>())
				el = type(P->getPointeeType());
		} else if (auto *A = Ctx.getAsArrayType(T)) {
			k = "a";
			el = type(A->getElementType());
			if (auto *CA = dyn_cast<ConstantArrayType>(A))
				arg = std::to_string(CA->getSize().getZExtValue());
		} else if (auto *R = C->getAs<RecordType>()) {
			k = "r";
			const RecordDecl *D = R->getDecl();
			arg = esc(recName(D));
			if (D->isCompleteDefinition() || D->getDefinition()) {
				D = D->getDefinition();
				if (recs.insert(D).second)
					recQueue.push_back(D);
			}
		} else if (auto *E = C->getAs<EnumType>()) {
			k = "e";
			const EnumDecl *D = E->getDecl();
			if (D->getIdentifier())
				arg = esc(D->getName());
			else if (auto *TD = D->getTypedefNameForAnonDecl())
				arg = esc(TD->getName());
		} else if (C->isFunctionType()) {
			k = "F";
			if (auto *F = C->getAs<FunctionType>())
				el = type(F->getReturnType());
		} else if (C->isVoidType()) {
			k = "v";
		} else if (C->isBooleanType()) {
			k = "b";
		} else if (C->isIntegerType()) {
			k = "i";
			arg = std::to_string(Ctx.getTypeSize(C));
			if (C->isUnsignedIntegerType())
				arg = "-" + arg;
		} else if (C->isFloatingType())
			k = "f";
		string row = "[" + esc(T.getAsString()) + ",\"" + k + "\"," +
			arg + "," + std::to_string(el) + "," +
			(T.isConstQualified() ? "1" : "0") + "]";
		typeRows[id] = row;
		return id;
	}
	string anns(const Decl *D) {
		string r = "[";
		bool first = true;
		for (auto *A : D->specific_attrs<AnnotateAttr>()) {
			if (!first)
				r += ",";
			first = false;
			r += esc(A->getAnnotation());
		}
		return r + "]";
	}
	/* annotations that are spelled on this very declaration */
	string ownAnns(const Decl *D) {
		string r = "[";
		bool first = true;
		for (auto *A : D->specific_attrs<AnnotateAttr>()) {
			if (A->isInherited())
				continue;
			if (!first)
				r += ",";
			first = false;
			r += esc(A->getAnnotation());
		}
		return r + "]";
	}
	/* Signature of a function pointer typed declaration:
	 * [ret type, ret annotations, [[type, annotations]...]]
	 */
	string fnptr(TypeSourceInfo *TSI, const Decl *D) {
		if (!TSI)
			return "null";
		TypeLoc TL = TSI->getTypeLoc();
		while (true) {
			TL = TL.getUnqualifiedLoc();
			if (auto P = TL.getAs<PointerTypeLoc>()) {
				TL = P.getPointeeLoc();
				continue;
			}
			if (auto P = TL.getAs<ParenTypeLoc>()) {
				TL = P.getInnerLoc();
				continue;
			}
			if (auto P = TL.getAs<ArrayTypeLoc>()) {
				TL = P.getElementLoc();
				continue;
			}
			if (auto P = TL.getAs<ElaboratedTypeLoc>()) {
				TL = P.getNamedTypeLoc();
				continue;
			}
			if (auto P = TL.getAs<AttributedTypeLoc>()) {
				TL = P.getModifiedLoc();
				continue;
			}
			if (auto P = TL.getAs<TypedefTypeLoc>()) {
				TL = P.getTypedefNameDecl()->getTypeSourceInfo()
					->getTypeLoc();
				continue;
			}
			break;
		}
		auto F = TL.getAs<FunctionProtoTypeLoc>();
		if (!F)
			return "null";
		string r = "[" + std::to_string(type(F.getReturnLoc().getType()))
			+ "," + anns(D) + ",[";
		for (unsigned i = 0; i < F.getNumParams(); ++i) {
			ParmVarDecl *P = F.getParam(i);
			if (i)
				r += ",";
			if (P)
				r += "[" + std::to_string(type(P->getType())) +
					"," + anns(P) + "," +
					esc(P->getName()) + "]";
			else
				r += "[-1,[],\"\"]";
		}
		return r + "]]";
	}
	int var(const ValueDecl *D) {
		auto it = vars.find(D);
		if (it != vars.end())
			return it->second;
		int id = vars.size();
		vars[D] = id;
		if (auto *V = dyn_cast<VarDecl>(D))
			localVars.push_back(V);
		return id;
	}
	int temp(const Stmt *S) {
		auto it = temps.find(S);
		if (it != temps.end())
			return it->second;
		return temps[S] = nTemp++;
	}
	static const Expr *strip(const Expr *E) {
		while (true) {
			const Expr *O = E;
			E = E->IgnoreParenImpCasts();
			if (auto *C = dyn_cast<ConstantExpr>(E))
				E = C->getSubExpr();
			if (auto *P = dyn_cast<OpaqueValueExpr>(E))
				if (P->getSourceExpr())
					E = P->getSourceExpr();
			if (E == O)
				return E;
		}
	}
	static bool isTempStmt(const Stmt *S) {
		if (isa<CallExpr>(S) || isa<AbstractConditionalOperator>(S))
			return true;
		if (auto *B = dyn_cast<BinaryOperator>(S))
			return B->isAssignmentOp() || B->isLogicalOp();
		if (auto *U = dyn_cast<UnaryOperator>(S))
			return U->isIncrementDecrementOp();
		return false;
	}
	string sint(const llvm::APSInt &V) {
		llvm::SmallString<32> s;
		V.toString(s, 10);
		if (s.size() > 18)
			return "\"" + s.str().str() + "\"";
		return s.str().str();
	}
	/* Render an expression tree. */
	string expr(const Expr *E) {
		if (!E)
			return "[\"?\"]";
		if (E->isNullPointerConstant(Ctx, Expr::NPC_ValueDependentIsNull)
		    && E->getType()->isPointerType() &&
		    !isa<DeclRefExpr>(E))
			return "[\"n\"]";
		E = strip(E);
		if (isTempStmt(E))
			return "[\"t\"," + std::to_string(temp(E)) + "]";
		if (auto *D = dyn_cast<DeclRefExpr>(E)) {
			const ValueDecl *V = D->getDecl();
			if (auto *EC = dyn_cast<EnumConstantDecl>(V))
				return "[\"i\"," + sint(EC->getInitVal()) + "," +
					esc(EC->getName()) + "]";
			if (isa<FunctionDecl>(V))
				return "[\"f\"," + esc(V->getName()) + "]";
			if (auto *VD = dyn_cast<VarDecl>(V)) {
				if (VD->hasGlobalStorage())
					return "[\"g\"," + esc(VD->getName()) +
						"," + std::to_string(
							type(VD->getType())) + "]";
			}
			return "[\"v\"," + std::to_string(var(V)) + "]";
		}
		if (auto *I = dyn_cast<IntegerLiteral>(E)) {
			llvm::APSInt V(I->getValue(),
				I->getType()->isUnsignedIntegerType());
			return "[\"i\"," + sint(V) + "]";
		}
		if (auto *I = dyn_cast<CharacterLiteral>(E))
			return "[\"i\"," + std::to_string(I->getValue()) + "]";
		if (isa<FloatingLiteral>(E))
			return "[\"fl\"]";
		if (auto *S = dyn_cast<StringLiteral>(E))
			return "[\"s\"," + esc(S->isOrdinary() ?
				S->getString() : "") + "]";
		if (auto *P = dyn_cast<PredefinedExpr>(E))
			return "[\"s\",\"__func__\"]";
		if (auto *M = dyn_cast<MemberExpr>(E)) {
			const auto *F = dyn_cast<FieldDecl>(M->getMemberDecl());
			string rn = F ? recName(F->getParent()) : "?";
			return "[\"m\"," + expr(M->getBase()) + "," +
				esc(M->getMemberDecl()->getName()) + "," +
				esc(rn) + "," + (M->isArrow() ? "1" : "0") +
				"," + std::to_string(type(E->getType())) + "," +
				std::to_string(line(M->getMemberLoc())) + "]";
		}
		if (auto *A = dyn_cast<ArraySubscriptExpr>(E))
			return "[\"x\"," + expr(A->getBase()) + "," +
				expr(A->getIdx()) + "," +
				std::to_string(type(E->getType())) + "," +
				std::to_string(line(A->getExprLoc())) + "]";
		if (auto *U = dyn_cast<UnaryOperator>(E)) {
			switch (U->getOpcode()) {
			case UO_Deref:
				return "[\"*\"," + expr(U->getSubExpr()) + "," +
					std::to_string(type(E->getType())) +
					"," + std::to_string(line(
						U->getOperatorLoc())) + "]";
			case UO_AddrOf:
				return "[\"&\"," + expr(U->getSubExpr()) + "]";
			case UO_Extension:
			case UO_Plus:
				return expr(U->getSubExpr());
			default:
				return "[\"u\"," + esc(UnaryOperator::
					getOpcodeStr(U->getOpcode())) + "," +
					expr(U->getSubExpr()) + "]";
			}
		}
		if (auto *B = dyn_cast<BinaryOperator>(E))
			return "[\"b\"," + esc(B->getOpcodeStr()) + "," +
				expr(B->getLHS()) + "," + expr(B->getRHS()) +
				"," + std::to_string(type(B->getLHS()->getType()))
				+ "]";
		if (auto *C = dyn_cast<ExplicitCastExpr>(E))
			return "[\"c\"," + std::to_string(type(E->getType())) +
				"," + expr(C->getSubExpr()) + "]";
		if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
			Expr::EvalResult R;
			string v = "0";
			if (!U->isValueDependent() && U->EvaluateAsInt(R, Ctx))
				v = sint(R.Val.getInt());
			return "[\"sz\"," + v + "]";
		}
		if (auto *L = dyn_cast<InitListExpr>(E)) {
			if (auto *SL = L->isSemanticForm() ? L : L->getSemanticForm())
				L = SL;
			string r = "[\"il\"," + std::to_string(type(L->getType()))
				+ ",[";
			for (unsigned i = 0; i < L->getNumInits(); ++i) {
				if (i)
					r += ",";
				r += expr(L->getInit(i));
			}
			return r + "]]";
		}
		if (isa<ImplicitValueInitExpr>(E))
			return "[\"iv\"]";
		if (auto *L = dyn_cast<CompoundLiteralExpr>(E))
			return expr(L->getInitializer());
		if (isa<OffsetOfExpr>(E)) {
			auto *O = cast<OffsetOfExpr>(E);
			string r = "[\"oo\"," + esc(O->getTypeSourceInfo()->
				getType().getAsString());
			for (unsigned i = 0; i < O->getNumComponents(); ++i)
				if (O->getComponent(i).getKind() ==
				    OffsetOfNode::Field)
					r += "," + esc(O->getComponent(i)
						.getField()->getName());
			return r + "]";
		}
		{
			Expr::EvalResult R;
			if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx))
				return "[\"i\"," + sint(R.Val.getInt()) + "]";
		}
		return "[\"?\"," + esc(E->getStmtClassName()) + "]";
	}
	string calleeSig(const Expr *Callee) {
		Callee = strip(Callee);
		if (auto *U = dyn_cast<UnaryOperator>(Callee))
			if (U->getOpcode() == UO_Deref)
				Callee = strip(U->getSubExpr());
		if (auto *A = dyn_cast<ArraySubscriptExpr>(Callee))
			Callee = strip(A->getBase());
		if (auto *D = dyn_cast<DeclRefExpr>(Callee))
			if (auto *DD = dyn_cast<DeclaratorDecl>(D->getDecl()))
				return fnptr(DD->getTypeSourceInfo(), DD);
		if (auto *M = dyn_cast<MemberExpr>(Callee))
			if (auto *DD = dyn_cast<DeclaratorDecl>(
					M->getMemberDecl()))
				return fnptr(DD->getTypeSourceInfo(), DD);
		return "null";
	}
	bool emitStmt(const Stmt *S, string &out) {
		/* returns true if something was appended */
		if (auto *C = dyn_cast<CallExpr>(S)) {
			string callee;
			const FunctionDecl *F = C->getDirectCallee();
			if (F)
				callee = esc(F->getName());
			else
				callee = "[" + expr(C->getCallee()) + "," +
					calleeSig(C->getCallee()) + "]";
			string r = "[\"call\"," + std::to_string(temp(S)) + "," +
				callee + ",[";
			bool first = true;
			for (const Expr *A : C->arguments()) {
				if (!first)
					r += ",";
				first = false;
				r += expr(A);
			}
			r += "]," + std::to_string(line(C->getExprLoc())) + "," +
				std::to_string(type(C->getType())) + "]";
			out = r;
			return true;
		}
		if (auto *B = dyn_cast<BinaryOperator>(S)) {
			if (B->isCompoundAssignmentOp()) {
				out = "[\"casg\"," + std::to_string(temp(S)) +
					"," + esc(B->getOpcodeStr()) + "," +
					expr(B->getLHS()) + "," +
					expr(B->getRHS()) + "," +
					std::to_string(line(B->getOperatorLoc()))
					+ "]";
				return true;
			}
			if (B->getOpcode() == BO_Assign) {
				out = "[\"asg\"," + std::to_string(temp(S)) +
					"," + expr(B->getLHS()) + "," +
					expr(B->getRHS()) + "," +
					std::to_string(line(B->getOperatorLoc()))
					+ "," + std::to_string(
						type(B->getLHS()->getType()))
					+ "]";
				return true;
			}
			return false;
		}
		if (auto *U = dyn_cast<UnaryOperator>(S)) {
			if (U->isIncrementDecrementOp()) {
				string op = U->isIncrementOp() ? "++" : "--";
				if (U->isPostfix())
					op = "p" + op;
				out = "[\"inc\"," + std::to_string(temp(S)) +
					"," + esc(op) + "," +
					expr(U->getSubExpr()) + "," +
					std::to_string(line(U->getOperatorLoc()))
					+ "]";
				return true;
			}
			return false;
		}
		if (auto *D = dyn_cast<DeclStmt>(S)) {
			string all;
			for (const Decl *DD : D->decls()) {
				auto *V = dyn_cast<VarDecl>(DD);
				if (!V || V->hasGlobalStorage())
					continue;
				if (!all.empty())
					all += ",";
				all += "[\"decl\"," + std::to_string(var(V)) +
					"," + (V->getInit() ?
						expr(V->getInit()) : "null") +
					"," + std::to_string(
						line(V->getLocation())) + "]";
			}
			out = all;
			return !all.empty();
		}
		if (auto *R = dyn_cast<ReturnStmt>(S)) {
			out = "[\"ret\"," + (R->getRetValue() ?
					expr(R->getRetValue()) : "null") + "," +
				std::to_string(line(R->getReturnLoc())) + "]";
			return true;
		}
		return false;
	}
	void emitFunction(const FunctionDecl *FD) {
		temps.clear();
		vars.clear();
		localVars.clear();
		valueLogical.clear();
		nTemp = 0;
		for (const ParmVarDecl *P : FD->parameters())
			var(P);
		CFG::BuildOptions BO;
		BO.setAllAlwaysAdd();
		BO.PruneTriviallyFalseEdges = true;
		std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
		if (!G) {
			OS << "{\"k\":\"nocfg\",\"name\":" << esc(FD->getName())
				<< "}\n";
			return;
		}
		/* phi targets */
		std::vector<const BinaryOperator *> logical;
		std::map<const Stmt *, std::vector<std::pair<const Stmt *,
			const Expr *>>> phis;
		for (const CFGBlock *B : *G)
			for (const CFGElement &E : *B) {
				auto CS = E.getAs<CFGStmt>();
				if (!CS)
					continue;
				const Stmt *S = CS->getStmt();
				if (auto *C = dyn_cast<ConditionalOperator>(S)) {
					phis[strip(C->getTrueExpr())].push_back(
						{C, C->getTrueExpr()});
					phis[strip(C->getFalseExpr())].push_back(
						{C, C->getFalseExpr()});
				} else if (auto *L = dyn_cast<BinaryOperator>(S)) {
					if (L->isLogicalOp())
						valueLogical.insert(L),
						logical.push_back(L);
				}
			}
		for (const BinaryOperator *L : logical) {
			/* the operand that is evaluated last */
			const Expr *R = L->getRHS();
			for (;;) {
				auto *X = dyn_cast<BinaryOperator>(strip(R));
				if (!X || !X->isLogicalOp() ||
				    valueLogical.count(X))
					break;
				R = X->getRHS();
			}
			phis[strip(R)].push_back({L, R});
		}
		string blocks;
		bool firstB = true;
		for (const CFGBlock *B : *G) {
			string els;
			string logjoin = "null";
			const Stmt *lastFull = nullptr;
			auto add = [&](const string &s) {
				if (!els.empty())
					els += ",";
				els += s;
			};
			/* which statements of the block are operands of others */
			std::set<const Stmt *> operand;
			for (const CFGElement &E : *B)
				if (auto CS = E.getAs<CFGStmt>())
					for (const Stmt *Ch :
					     CS->getStmt()->children())
						if (Ch) {
							operand.insert(Ch);
							if (auto *X = dyn_cast<Expr>(Ch)) {
								operand.insert(X->IgnoreParens());
								operand.insert(strip(X));
							}
						}
			const Expr *TC = nullptr;
			string term = "null";
			if (B->getTerminator().isValid() && B->succ_size() > 1) {
				TC = B->getLastCondition();
				if (!TC)
					if (auto *SW = dyn_cast_or_null<SwitchStmt>(
						B->getTerminatorStmt()))
						TC = SW->getCond();
			}
			for (const CFGElement &E : *B) {
				auto CS = E.getAs<CFGStmt>();
				if (!CS)
					continue;
				const Stmt *S = CS->getStmt();
				string o;
				if (auto *L = dyn_cast<BinaryOperator>(S))
					if (L->isLogicalOp() && logjoin == "null"
					    && els.empty())
						logjoin = std::to_string(temp(L));
				if (emitStmt(S, o))
					add(o);
				else if (auto *X = dyn_cast<Expr>(S)) {
					/* a statement-level expression */
					if (!operand.count(S) && X != TC &&
					    !isTempStmt(X) &&
					    (isa<ExplicitCastExpr>(X) ||
					     isa<MemberExpr>(X) ||
					     isa<BinaryOperator>(X)) &&
					    phis.find(strip(X)) == phis.end())
						add("[\"use\"," + expr(X) + "," +
						    std::to_string(line(
							X->getExprLoc())) + "]");
				}
				auto ph = phis.find(S);
				if (ph != phis.end())
					for (auto &p : ph->second)
						add("[\"phi\"," + std::to_string(
							temp(p.first)) + "," +
							expr(p.second) + "," +
							(isa<BinaryOperator>(p.first)
							 ? "1" : "0") + "]");
			}
			if (B->getTerminator().isValid()) {
				const Stmt *T = B->getTerminatorStmt();
				string kind = "\"other\"";
				int ln = T ? line(T->getBeginLoc()) : 0;
				if (T) {
					if (isa<IfStmt>(T)) kind = "\"if\"";
					else if (isa<ForStmt>(T)) kind = "\"for\"";
					else if (isa<WhileStmt>(T)) kind = "\"while\"";
					else if (isa<DoStmt>(T)) kind = "\"do\"";
					else if (isa<SwitchStmt>(T)) kind = "\"switch\"";
					else if (isa<GotoStmt>(T)) kind = "\"goto\"";
					else if (isa<BreakStmt>(T)) kind = "\"break\"";
					else if (isa<ContinueStmt>(T)) kind = "\"continue\"";
					else if (isa<AbstractConditionalOperator>(T)) kind = "\"?:\"";
					else if (auto *L = dyn_cast<BinaryOperator>(T))
						kind = L->getOpcode() == BO_LAnd ? "\"&&\"" : "\"||\"";
				}
				if (TC)
					ln = line(TC->getExprLoc());
				term = "[" + kind + "," + (TC ? expr(TC) : "null")
					+ "," + std::to_string(ln) + "]";
			}
			string succs;
			bool fs = true;
			for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
				if (!fs)
					succs += ",";
				fs = false;
				const CFGBlock *SB = *I;
				succs += SB ? std::to_string(SB->getBlockID()) : "-1";
			}
			string label = "null";
			if (const Stmt *L = B->getLabel()) {
				if (auto *C = dyn_cast<CaseStmt>(L)) {
					Expr::EvalResult R;
					label = "[\"case\"";
					if (C->getLHS()->EvaluateAsInt(R, Ctx))
						label += "," + sint(R.Val.getInt());
					if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx))
						label += "," + sint(R.Val.getInt());
					label += "]";
				} else if (isa<DefaultStmt>(L))
					label = "[\"default\"]";
				else if (auto *LS = dyn_cast<LabelStmt>(L))
					label = "[\"label\"," + esc(LS->getName()) + "]";
			}
			if (!firstB)
				blocks += ",";
			firstB = false;
			blocks += "[" + std::to_string(B->getBlockID()) + ",[" + els
				+ "]," + term + ",[" + succs + "]," + label + "," +
				logjoin + (B->hasNoReturnElement() ? ",1" : ",0") + "]";
		}
		string ps;
		for (unsigned i = 0; i < FD->getNumParams(); ++i) {
			const ParmVarDecl *P = FD->getParamDecl(i);
			if (i)
				ps += ",";
			ps += "[" + esc(P->getName()) + "," +
				std::to_string(type(P->getType())) + "," + anns(P)
				+ "," + fnptr(P->getTypeSourceInfo(), P) + "]";
		}
		string ls;
		for (const VarDecl *V : localVars) {
			if (isa<ParmVarDecl>(V))
				continue;
			if (!ls.empty())
				ls += ",";
			ls += "[" + std::to_string(vars[V]) + "," +
				esc(V->getName()) + "," +
				std::to_string(type(V->getType())) + "," +
				std::to_string(line(V->getLocation())) + "]";
		}
		OS << "{\"k\":\"fn\",\"name\":" << esc(FD->getName())
		   << ",\"file\":" << esc(relFile(FD->getLocation()))
		   << ",\"line\":" << line(FD->getLocation())
		   << ",\"eline\":" << line(FD->getEndLoc())
		   << ",\"static\":" << (FD->getStorageClass() == SC_Static ||
			   !FD->isExternallyVisible() ? 1 : 0)
		   << ",\"ret\":" << type(FD->getReturnType())
		   << ",\"ra\":" << anns(FD) << ",\"ps\":[" << ps
		   << "],\"ls\":[" << ls << "],\"entry\":"
		   << G->getEntry().getBlockID() << ",\"exit\":"
		   << G->getExit().getBlockID() << ",\"nt\":" << nTemp
		   << ",\"bl\":[" << blocks << "]}\n";
	}
	void emitDecl(const FunctionDecl *FD) {
		string ps;
		for (unsigned i = 0; i < FD->getNumParams(); ++i) {
			const ParmVarDecl *P = FD->getParamDecl(i);
			if (i)
				ps += ",";
			ps += "[" + esc(P->getName()) + "," +
				std::to_string(type(P->getType())) + "," +
				ownAnns(P) + "," + anns(P) + "," +
				fnptr(P->getTypeSourceInfo(), P) + "]";
		}
		OS << "{\"k\":\"fd\",\"name\":" << esc(FD->getName())
		   << ",\"file\":" << esc(relFile(FD->getLocation()))
		   << ",\"line\":" << line(FD->getLocation())
		   << ",\"def\":" << (FD->isThisDeclarationADefinition() ? 1 : 0)
		   << ",\"static\":" << (FD->getStorageClass() == SC_Static ? 1 : 0)
		   << ",\"ret\":" << type(FD->getReturnType())
		   << ",\"ra\":" << ownAnns(FD) << ",\"raa\":" << anns(FD)
		   << ",\"va\":" << (FD->isVariadic() ? 1 : 0)
		   << ",\"noret\":" << (FD->isNoReturn() ? 1 : 0)
		   << ",\"ps\":[" << ps << "]}\n";
	}
	void emitVar(const VarDecl *V, const FunctionDecl *In) {
		OS << "{\"k\":\"gv\",\"name\":" << esc(V->getName())
		   << ",\"file\":" << esc(relFile(V->getLocation()))
		   << ",\"line\":" << line(V->getLocation())
		   << ",\"fn\":" << (In ? esc(In->getName()) : "null")
		   << ",\"static\":" << (V->getStorageClass() == SC_Static ? 1 : 0)
		   << ",\"def\":" << (V->isThisDeclarationADefinition() !=
				   VarDecl::DeclarationOnly ? 1 : 0)
		   << ",\"tls\":" << (V->getTLSKind() != VarDecl::TLS_None ? 1 : 0)
		   << ",\"const\":" << (isConst(V->getType()) ? 1 : 0)
		   << ",\"type\":" << type(V->getType())
		   << ",\"init\":" << (V->getInit() ? expr(V->getInit()) : "null")
		   << "}\n";
	}
	bool isConst(QualType T) {
		if (T.isConstQualified())
			return true;
		if (auto *A = Ctx.getAsArrayType(T))
			return isConst(A->getElementType());
		return false;
	}
	void flushTables() {
		string recRows;
		for (size_t i = 0; i < recQueue.size(); ++i) {
			const RecordDecl *R = recQueue[i];
			string fs;
			for (const FieldDecl *F : R->fields()) {
				if (!fs.empty())
					fs += ",";
				fs += "[" + esc(F->getName()) + "," +
					std::to_string(type(F->getType())) + "," +
					fnptr(F->getTypeSourceInfo(), F) + "," +
					std::to_string(line(F->getLocation())) + "]";
			}
			OS << "{\"k\":\"rec\",\"name\":" << esc(recName(R))
			   << ",\"file\":" << esc(relFile(R->getLocation()))
			   << ",\"line\":" << line(R->getLocation())
			   << ",\"union\":" << (R->isUnion() ? 1 : 0)
			   << ",\"fs\":[" << fs << "]}\n";
		}
		OS << "{\"k\":\"types\",\"t\":[";
		for (size_t i = 0; i < typeRows.size(); ++i)
			OS << (i ? "," : "") << typeRows[i];
		OS << "]}\n";
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Emitter &E;
	std::vector<const FunctionDecl *> fnStack;
	Visitor(Emitter &E) : E(E) {}
	bool inRepo(SourceLocation L) {
		string f = E.relFile(L);
		return f[0] != '/' && f[0] != '<';
	}
	bool VisitEnumDecl(EnumDecl *D) {
		if (!D->isCompleteDefinition() || !inRepo(D->getLocation()))
			return true;
		string n;
		if (D->getIdentifier())
			n = D->getName().str();
		else if (auto *T = D->getTypedefNameForAnonDecl())
			n = T->getName().str();
		E.OS << "{\"k\":\"enum\",\"name\":" << esc(n) << ",\"file\":"
		     << esc(E.relFile(D->getLocation())) << ",\"line\":"
		     << E.line(D->getLocation()) << ",\"vals\":[";
		bool f = true;
		for (auto *C : D->enumerators()) {
			E.OS << (f ? "" : ",") << "[" << esc(C->getName()) << ","
			     << E.sint(C->getInitVal()) << "]";
			f = false;
		}
		E.OS << "]}\n";
		return true;
	}
	bool TraverseFunctionDecl(FunctionDecl *D) {
		fnStack.push_back(D);
		bool r = RecursiveASTVisitor<Visitor>::TraverseFunctionDecl(D);
		fnStack.pop_back();
		return r;
	}
	bool VisitFunctionDecl(FunctionDecl *D) {
		if (!inRepo(D->getLocation()))
			return true;
		E.emitDecl(D);
		if (D->isThisDeclarationADefinition() && D->hasBody())
			E.emitFunction(D);
		return true;
	}
	bool VisitRecordDecl(RecordDecl *D) {
		if (D->isCompleteDefinition() && inRepo(D->getLocation()))
			if (E.recs.insert(D).second)
				E.recQueue.push_back(D);
		return true;
	}
	bool VisitVarDecl(VarDecl *D) {
		if (isa<ParmVarDecl>(D) || !D->hasGlobalStorage())
			return true;
		if (!inRepo(D->getLocation()))
			return true;
		E.emitVar(D, fnStack.empty() ? nullptr : fnStack.back());
		return true;
	}
	bool VisitSwitchStmt(SwitchStmt *S) {
		if (fnStack.empty())
			return true;
		E.OS << "{\"k\":\"switch\",\"fn\":" << esc(fnStack.back()->getName())
		     << ",\"file\":" << esc(E.relFile(S->getSwitchLoc()))
		     << ",\"line\":" << E.line(S->getSwitchLoc())
		     << ",\"type\":" << E.type(S->getCond()->IgnoreParenImpCasts()->getType())
		     << ",\"cases\":[";
		bool f = true, def = false;
		for (SwitchCase *C = S->getSwitchCaseList(); C;
		     C = C->getNextSwitchCase()) {
			auto *CS = dyn_cast<CaseStmt>(C);
			if (!CS) {
				def = true;
				continue;
			}
			Expr::EvalResult R;
			if (CS->getLHS()->EvaluateAsInt(R, E.Ctx)) {
				E.OS << (f ? "" : ",") << E.sint(R.Val.getInt());
				f = false;
			}
		}
		E.OS << "],\"default\":" << (def ? 1 : 0) << "}\n";
		return true;
	}
};

struct Consumer : ASTConsumer {
	string out;
	Consumer(string o) : out(o) {}
	void HandleTranslationUnit(ASTContext &Ctx) override {
		if (Ctx.getDiagnostics().hasErrorOccurred())
			return;
		std::error_code EC;
		string tmp = out + ".tmp" + std::to_string(getpid());
		{
			llvm::raw_fd_ostream OS(tmp, EC);
			OS.SetBufferSize(1 << 20);
			Emitter E(Ctx, OS);
			Visitor V(E);
			V.TraverseDecl(Ctx.getTranslationUnitDecl());
			E.flushTables();
		}
		rename(tmp.c_str(), out.c_str());
	}
};
struct Action : ASTFrontendAction {
	string out;
	Action(string o) : out(o) {}
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
			llvm::StringRef) override {
		return std::make_unique<Consumer>(out);
	}
};
struct Factory : tooling::FrontendActionFactory {
	string out;
	Factory(string o) : out(o) {}
	std::unique_ptr<FrontendAction> create() override {
		return std::make_unique<Action>(out);
	}
};

int main(int argc, char **argv)
{
	/* extract OUT SRCROOT FILE -- args */
	if (argc < 5)
		return 2;
	string out = argv[1];
	{
		llvm::SmallString<256> real;
		llvm::sys::fs::real_path(argv[2], real);
		Root = real.str().str();
	}
	string file = argv[3];
	std::vector<string> args;
	for (int i = 5; i < argc; ++i)
		args.push_back(argv[i]);
	tooling::FixedCompilationDatabase DB(".", args);
	tooling::ClangTool T(DB, {file});
	Factory F(out);
	return T.run(&F) ? 1 : 0;
}
