// Program-model extractor: parses one translation unit with clang and writes, as
// JSON, every non-dependent function defined in the given source roots, with its
// control-flow graph in which every (sub)expression is an element, plus the class
// hierarchy. No rule lives here; the rules are in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;
static bool g_prune = true;

namespace {

class Extract : public RecursiveASTVisitor<Extract> {
public:
	Extract(ASTContext& c, json::OStream& o)
		: ctx(c)
		, sm(c.getSourceManager())
		, J(o)
		, ng(c)
	{
		pp = c.getPrintingPolicy();
		pp.SuppressTagKeyword = true;
		pp.FullyQualifiedName = true;
		pp.Bool = true;
		pp.SuppressUnwrittenScope = true;
	}

	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	std::string fileOf(SourceLocation l)
	{
		l = sm.getExpansionLoc(l);
		auto f = sm.getFilename(l);
		return f.str();
	}

	bool inRoots(SourceLocation l)
	{
		if(l.isInvalid())
			return false;
		std::string f = fileOf(l);
		for(auto const& r : g_roots)
			if(f.compare(0, r.size(), r) == 0)
				return true;
		return false;
	}

	std::string typeStr(QualType t)
	{
		return t.getCanonicalType().getAsString(pp);
	}

	std::string mangled(Decl const* d)
	{
		std::string s;
		if(auto const* f = dyn_cast<FunctionDecl>(d)) {
			if(auto const* c = dyn_cast<CXXConstructorDecl>(f))
				s = ng.getName(c);
			else if(auto const* c = dyn_cast<CXXDestructorDecl>(f))
				s = ng.getName(c);
			else
				s = ng.getName(f);
			if(s.empty())
				s = qual(f);
		} else if(auto const* n = dyn_cast<NamedDecl>(d))
			s = n->getQualifiedNameAsString();
		return s;
	}

	std::string qual(NamedDecl const* n)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		PrintingPolicy p = pp;
		n->printQualifiedName(os, p);
		os.flush();
		return s;
	}

	static std::string qualOfRecord(CXXRecordDecl const* r, PrintingPolicy const& pp, ASTContext& ctx)
	{
		return ctx.getTypeDeclType(r).getCanonicalType().getAsString(pp);
	}

	std::string recName(CXXRecordDecl const* r) { return qualOfRecord(r, pp, ctx); }

	// Name of function: for members: RecordName::method; else the qualified name.
	std::string fnName(FunctionDecl const* f)
	{
		std::string base;
		if(auto const* m = dyn_cast<CXXMethodDecl>(f)) {
			if(m->getParent()->isLambda())
				return "lambda@" + std::to_string(sm.getExpansionLineNumber(m->getParent()->getBeginLoc())) + "::operator()";
			base = recName(m->getParent()) + "::";
			if(isa<CXXConstructorDecl>(f))
				return base + "(ctor)";
			if(isa<CXXDestructorDecl>(f))
				return base + "(dtor)";
			return base + f->getNameAsString();
		}
		return qual(f);
	}

	// ------------------------------------------------------------ records
	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		if(!r->isThisDeclarationADefinition() || r->isDependentContext() || !r->hasDefinition())
			return true;
		if(r->isInvalidDecl() || !inRoots(r->getLocation()))
			return true;
		if(r->getDescribedClassTemplate() || isa<ClassTemplatePartialSpecializationDecl>(r))
			return true;
		if(!seenRec.insert(r).second)
			return true;
		recs.push_back(r);
		return true;
	}

	void dumpRecord(CXXRecordDecl* r)
	{
		J.object([&] {
			J.attribute("name", recName(r));
			J.attribute("file", fileOf(r->getLocation()));
			J.attribute("line", (int64_t)sm.getExpansionLineNumber(r->getLocation()));
			if(r->isLambda())
				J.attribute("lambda", true);
			if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
				J.attribute("tmpl", qual(s->getSpecializedTemplate()));
			J.attributeArray("bases", [&] {
				for(auto const& b : r->bases())
					if(auto* br = b.getType()->getAsCXXRecordDecl())
						J.value(recName(br));
			});
			J.attributeArray("fields", [&] {
				for(auto* f : r->fields())
					J.object([&] {
						J.attribute("n", f->getNameAsString());
						J.attribute("t", typeStr(f->getType()));
						if(f->isMutable())
							J.attribute("mutable", true);
						if(auto const* ca = ctx.getAsConstantArrayType(f->getType()))
							J.attribute("arr", (int64_t)ca->getSize().getZExtValue());
						if(f->hasInClassInitializer())
							J.attribute("init", true);
						J.attribute("acc", (int64_t)f->getAccess());
					});
			});
			J.attributeArray("methods", [&] {
				for(auto* m : r->methods()) {
					if(m->isImplicit() && !m->isUserProvided() && !m->isDefaulted())
						continue;
					J.object([&] {
						J.attribute("n", isa<CXXConstructorDecl>(m) ? std::string("(ctor)") : isa<CXXDestructorDecl>(m) ? std::string("(dtor)") : m->getNameAsString());
						J.attribute("id", mangled(m));
						J.attribute("t", typeStr(m->getType()));
						if(m->isVirtual())
							J.attribute("virt", true);
						if(m->isPureVirtual())
							J.attribute("pure", true);
						if(m->isConst())
							J.attribute("const", true);
						if(m->isStatic())
							J.attribute("static", true);
						if(m->isDeleted())
							J.attribute("deleted", true);
						if(m->isDefaulted())
							J.attribute("defaulted", true);
						J.attribute("acc", (int64_t)m->getAccess());
						if(m->size_overridden_methods())
							J.attributeArray("over", [&] {
								for(auto* o : m->overridden_methods())
									J.value(mangled(o));
							});
					});
				}
			});
		});
	}

	// ------------------------------------------------------------ enums
	bool VisitEnumDecl(EnumDecl* e)
	{
		if(!e->isThisDeclarationADefinition() || e->isDependentContext() || !inRoots(e->getLocation()))
			return true;
		if(!seenEnum.insert(e).second)
			return true;
		enums.push_back(e);
		return true;
	}

	// static constants and constant tables
	bool VisitVarDecl(VarDecl* v)
	{
		if(v->isInvalidDecl() || !v->hasGlobalStorage() || v->getDeclContext()->isDependentContext())
			return true;
		if(!inRoots(v->getLocation()) || v->getType()->isDependentType())
			return true;
		if(isa<VarTemplateSpecializationDecl>(v) || v->getDescribedVarTemplate())
			return true;
		if(!v->getAnyInitializer())
			return true;
		if(!seenVar.insert(v->getCanonicalDecl()).second)
			return true;
		vars.push_back(v);
		return true;
	}

	void apvalue(APValue const& a, int depth)
	{
		if(a.isInt())
			J.value((int64_t)(a.getInt().isSigned() ? a.getInt().getSExtValue() : (int64_t)a.getInt().getZExtValue()));
		else if(a.isArray() && depth < 3) {
			J.array([&] {
				for(unsigned i = 0; i < a.getArrayInitializedElts(); i++)
					apvalue(a.getArrayInitializedElt(i), depth + 1);
			});
		} else
			J.value(nullptr);
	}

	// ------------------------------------------------------------ functions
	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if(!f->isThisDeclarationADefinition() || !f->getBody())
			return true;
		if(f->isDependentContext() || f->getDescribedFunctionTemplate())
			return true;
		if(f->isInvalidDecl() || !inRoots(f->getLocation()))
			return true;
		if(!seenFn.insert(f).second)
			return true;
		fns.push_back(f);
		return true;
	}

	// per-function state
	std::map<Stmt const*, int> sid;
	std::map<Decl const*, int> did;
	std::vector<std::pair<int, Stmt const*>> pending;
	std::set<int> emitted;

	int declId(Decl const* d)
	{
		d = d->getCanonicalDecl();
		auto it = did.find(d);
		if(it != did.end())
			return it->second;
		int n = (int)did.size() + 1;
		did[d] = n;
		return n;
	}

	Stmt const* strip(Stmt const* s)
	{
		while(s) {
			if(auto* p = dyn_cast<ParenExpr>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<ExprWithCleanups>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<MaterializeTemporaryExpr>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<ConstantExpr>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
				s = p->getReplacement();
			else if(auto* p = dyn_cast<CXXBindTemporaryExpr>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<CXXDefaultArgExpr>(s))
				s = p->getExpr();
			else if(auto* p = dyn_cast<CXXDefaultInitExpr>(s))
				s = p->getExpr();
			else if(auto* p = dyn_cast<FullExpr>(s))
				s = p->getSubExpr();
			else if(auto* p = dyn_cast<AttributedStmt>(s))
				s = p->getSubStmt();
			else
				break;
		}
		return s;
	}

	int nid(Stmt const* s)
	{
		s = strip(s);
		if(!s)
			return 0;
		auto it = sid.find(s);
		if(it != sid.end())
			return it->second;
		int n = (int)sid.size() + 1;
		sid[s] = n;
		pending.push_back({n, s});
		return n;
	}

	void typeInfo(QualType t)
	{
		t = t.getCanonicalType();
		J.attribute("t", t.getAsString(pp));
		QualType u = t.getNonReferenceType();
		if(u->isIntegralOrEnumerationType() && !u->isIncompleteType()) {
			J.attribute("w", (int64_t)ctx.getTypeSize(u));
			if(u->isUnsignedIntegerOrEnumerationType())
				J.attribute("u", true);
		}
		if(u->isPointerType()) {
			QualType p = u->getPointeeType();
			if(!p->isIncompleteType() && !p->isFunctionType() && !p->isVoidType() && !p->isDependentType())
				J.attribute("ps", (int64_t)ctx.getTypeSizeInChars(p).getQuantity());
			else
				J.attribute("ps", 1);
		}
	}

	void kids(std::initializer_list<Stmt const*> l)
	{
		J.attributeArray("c", [&] {
			for(auto* s : l)
				J.value(nid(s));
		});
	}

	void callee(FunctionDecl const* f)
	{
		if(!f)
			return;
		J.attribute("fn", fnName(f));
		J.attribute("fid", mangled(f));
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
			if(m->isConst())
				J.attribute("cm", true);
			if(m->isStatic())
				J.attribute("sm", true);
		}
		if(f->isNoReturn())
			J.attribute("noret", true);
		if(f->getBuiltinID())
			J.attribute("builtin", true);
		J.attributeArray("pt", [&] {
			for(auto* p : f->parameters())
				J.value(p->getType().getCanonicalType().getAsString(pp));
		});
		if(f->getTemplateSpecializationArgs()) {
			std::string s;
			llvm::raw_string_ostream os(s);
			printTemplateArgumentList(os, f->getTemplateSpecializationArgs()->asArray(), pp);
			os.flush();
			J.attribute("targs", s);
		}
	}

	void node(int id, Stmt const* s)
	{
		J.object([&] {
			J.attribute("i", id);
			SourceLocation l = s->getBeginLoc();
			if(auto* b = dyn_cast<BinaryOperator>(s))
				l = b->getOperatorLoc();
			else if(auto* m = dyn_cast<MemberExpr>(s))
				l = m->getMemberLoc();
			J.attribute("l", (int64_t)sm.getExpansionLineNumber(l));
			auto const* e = dyn_cast<Expr>(s);
			if(e && !e->isTypeDependent()) {
				typeInfo(e->getType());
				if(e->isGLValue())
					J.attribute("lv", true);
				if(e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent()) {
					Expr::EvalResult r;
					if(e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects) && r.Val.isInt()) {
						auto const& v = r.Val.getInt();
						J.attribute("v", v.isSigned() ? v.getSExtValue() : (int64_t)v.getZExtValue());
					}
				}
			}

			if(auto* x = dyn_cast<IntegerLiteral>(s)) {
				(void)x;
				J.attribute("k", "lit");
			} else if(isa<CharacterLiteral>(s) || isa<CXXBoolLiteralExpr>(s)) {
				J.attribute("k", "lit");
			} else if(isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
				J.attribute("k", "null");
			} else if(auto* x = dyn_cast<StringLiteral>(s)) {
				J.attribute("k", "str");
				J.attribute("n", (int64_t)x->getLength());
				if(x->getCharByteWidth() == 1) {
					std::string esc;
					for(char c : x->getString())
						if(c >= 32 && c < 127)
							esc += c;
						else {
							char b[8];
							snprintf(b, sizeof b, "\\x%02x", (unsigned char)c);
							esc += b;
						}
					J.attribute("s", esc);
				}
			} else if(auto* x = dyn_cast<FloatingLiteral>(s)) {
				J.attribute("k", "flit");
				J.attribute("f", x->getValueAsApproximateDouble());
			} else if(auto* x = dyn_cast<DeclRefExpr>(s)) {
				J.attribute("k", "ref");
				auto* d = x->getDecl();
				J.attribute("n", d->getNameAsString());
				if(isa<EnumConstantDecl>(d)) {
					J.attribute("dk", "enum");
					J.attribute("q", qual(d));
				} else if(auto* f = dyn_cast<FunctionDecl>(d)) {
					J.attribute("dk", "func");
					callee(f);
				} else if(isa<ParmVarDecl>(d)) {
					J.attribute("dk", "param");
					J.attribute("d", declId(d));
				} else if(auto* v = dyn_cast<VarDecl>(d)) {
					if(v->hasGlobalStorage()) {
						J.attribute("dk", "global");
						J.attribute("q", qual(d));
						if(v->getType().isConstQualified())
							J.attribute("const", true);
					} else {
						J.attribute("dk", "local");
						J.attribute("d", declId(d));
					}
				} else {
					J.attribute("dk", "other");
					J.attribute("d", declId(d));
				}
			} else if(auto* x = dyn_cast<MemberExpr>(s)) {
				auto* d = x->getMemberDecl();
				if(auto* v = dyn_cast<VarDecl>(d)) {
					J.attribute("k", "ref");
					J.attribute("dk", "global");
					J.attribute("n", d->getNameAsString());
					J.attribute("q", qual(v));
				} else if(isa<EnumConstantDecl>(d)) {
					J.attribute("k", "ref");
					J.attribute("dk", "enum");
					J.attribute("n", d->getNameAsString());
					J.attribute("q", qual(d));
				} else {
					J.attribute("k", "mem");
					J.attribute("n", d->getNameAsString());
					if(auto* f = dyn_cast<FieldDecl>(d))
						if(auto* r = dyn_cast<CXXRecordDecl>(f->getParent()))
							J.attribute("cls", recName(r));
					if(isa<FunctionDecl>(d))
						callee(cast<FunctionDecl>(d));
					J.attribute("arrow", x->isArrow());
					kids({x->getBase()});
				}
			} else if(isa<CXXThisExpr>(s)) {
				J.attribute("k", "this");
			} else if(auto* x = dyn_cast<UnaryOperator>(s)) {
				J.attribute("k", "un");
				J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()).str());
				if(x->isPostfix())
					J.attribute("post", true);
				kids({x->getSubExpr()});
			} else if(auto* x = dyn_cast<BinaryOperator>(s)) {
				J.attribute("k", x->isAssignmentOp() ? (x->isCompoundAssignmentOp() ? "casg" : "asg") : (x->isLogicalOp() ? "log" : "bin"));
				J.attribute("op", x->getOpcodeStr().str());
				kids({x->getLHS(), x->getRHS()});
			} else if(auto* x = dyn_cast<ArraySubscriptExpr>(s)) {
				J.attribute("k", "idx");
				QualType bt = x->getBase()->IgnoreParenImpCasts()->getType();
				if(auto const* ca = ctx.getAsConstantArrayType(bt))
					J.attribute("arr", (int64_t)ca->getSize().getZExtValue());
				J.attribute("es", (int64_t)(x->getType()->isIncompleteType() ? 1 : ctx.getTypeSizeInChars(x->getType()).getQuantity()));
				kids({x->getBase(), x->getIdx()});
			} else if(auto* x = dyn_cast<CXXMemberCallExpr>(s)) {
				J.attribute("k", "call");
				auto* m = x->getMethodDecl();
				callee(m);
				auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
				bool virt = m && m->isVirtual() && me && !me->hasQualifier();
				if(virt && m->hasAttr<FinalAttr>())
					virt = false;
				if(virt && m->getParent()->hasAttr<FinalAttr>())
					virt = false;
				if(virt)
					J.attribute("virt", true);
				if(me) {
					J.attribute("obj", nid(me->getBase()));
					J.attribute("arrow", me->isArrow());
					if(me->hasQualifier())
						J.attribute("qualified", true);
				} else
					J.attribute("obj", nid(x->getImplicitObjectArgument()));
				J.attributeArray("c", [&] {
					for(auto* a : x->arguments())
						J.value(nid(a));
				});
			} else if(auto* x = dyn_cast<CXXOperatorCallExpr>(s)) {
				J.attribute("k", "call");
				auto* f = x->getDirectCallee();
				callee(f);
				J.attribute("oper", getOperatorSpelling(x->getOperator()));
				auto* m = dyn_cast_or_null<CXXMethodDecl>(f);
				unsigned i0 = 0;
				if(m && !m->isStatic()) {
					J.attribute("obj", nid(x->getArg(0)));
					J.attribute("arrow", false);
					if(m->isVirtual())
						J.attribute("virt", true);
					i0 = 1;
				}
				J.attributeArray("c", [&] {
					for(unsigned i = i0; i < x->getNumArgs(); i++)
						J.value(nid(x->getArg(i)));
				});
			} else if(auto* x = dyn_cast<CallExpr>(s)) {
				J.attribute("k", "call");
				if(auto* f = x->getDirectCallee())
					callee(f);
				else
					J.attribute("fe", nid(x->getCallee()));
				J.attributeArray("c", [&] {
					for(auto* a : x->arguments())
						J.value(nid(a));
				});
			} else if(auto* x = dyn_cast<CXXConstructExpr>(s)) {
				J.attribute("k", "ctor");
				callee(x->getConstructor());
				J.attribute("cls", recName(x->getConstructor()->getParent()));
				if(x->getConstructor()->isCopyOrMoveConstructor())
					J.attribute("cpy", x->getConstructor()->isMoveConstructor() ? "move" : "copy");
				J.attributeArray("c", [&] {
					for(auto* a : x->arguments())
						J.value(nid(a));
				});
			} else if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
				J.attribute("k", "ctor");
				callee(x->getConstructor());
				J.attribute("cls", recName(x->getConstructor()->getParent()));
				kids({});
			} else if(auto* x = dyn_cast<CastExpr>(s)) {
				J.attribute("k", "cast");
				J.attribute("ck", x->getCastKindName());
				if(isa<ImplicitCastExpr>(s))
					J.attribute("imp", true);
				if(auto* cf = x->getConversionFunction())
					J.attribute("conv", cf->getNameAsString());
				kids({x->getSubExpr()});
			} else if(auto* x = dyn_cast<AbstractConditionalOperator>(s)) {
				J.attribute("k", "cond");
				kids({x->getCond(), x->getTrueExpr(), x->getFalseExpr()});
			} else if(auto* x = dyn_cast<CXXNewExpr>(s)) {
				J.attribute("k", "new");
				J.attribute("at", typeStr(x->getAllocatedType()));
				if(x->getNumPlacementArgs())
					J.attributeArray("pl", [&] {
						for(unsigned i = 0; i < x->getNumPlacementArgs(); i++)
							J.value(nid(x->getPlacementArg(i)));
					});
				if(x->getOperatorNew())
					J.attribute("opnew", qual(x->getOperatorNew()));
				if(x->isArray()) {
					J.attribute("array", true);
					if(x->getArraySize())
						J.attribute("asz", nid(*x->getArraySize()));
				}
				kids({x->getInitializer()});
			} else if(auto* x = dyn_cast<CXXDeleteExpr>(s)) {
				J.attribute("k", "delete");
				if(x->isArrayForm())
					J.attribute("array", true);
				kids({x->getArgument()});
			} else if(auto* x = dyn_cast<InitListExpr>(s)) {
				J.attribute("k", "init");
				J.attributeArray("c", [&] {
					for(auto* a : x->inits())
						J.value(nid(a));
				});
			} else if(auto* x = dyn_cast<LambdaExpr>(s)) {
				J.attribute("k", "lambda");
				J.attribute("fid", mangled(x->getCallOperator()));
				J.attribute("line", (int64_t)sm.getExpansionLineNumber(x->getBeginLoc()));
				J.attributeArray("cap", [&] {
					for(auto const& c : x->captures())
						J.object([&] {
							if(c.capturesThis())
								J.attribute("this", true);
							else if(c.capturesVariable()) {
								J.attribute("d", declId(c.getCapturedVar()));
								J.attribute("n", c.getCapturedVar()->getNameAsString());
								J.attribute("byref", c.getCaptureKind() == LCK_ByRef);
							}
						});
				});
				J.attributeArray("c", [&] {
					for(auto* a : x->capture_inits())
						J.value(nid(a));
				});
			} else if(auto* x = dyn_cast<CXXThrowExpr>(s)) {
				J.attribute("k", "throw");
				kids({x->getSubExpr()});
			} else if(auto* x = dyn_cast<ReturnStmt>(s)) {
				J.attribute("k", "ret");
				if(x->getRetValue())
					kids({x->getRetValue()});
				else
					kids({});
			} else if(auto* x = dyn_cast<DeclStmt>(s)) {
				J.attribute("k", "decl");
				J.attributeArray("vars", [&] {
					for(auto* d : x->decls())
						if(auto* v = dyn_cast<VarDecl>(d))
							J.object([&] {
								J.attribute("d", declId(v));
								J.attribute("n", v->getNameAsString());
								typeInfo(v->getType());
								if(v->getType()->isReferenceType())
									J.attribute("isref", true);
								if(v->hasGlobalStorage())
									J.attribute("static", true);
								if(auto const* ca = ctx.getAsConstantArrayType(v->getType())) {
									J.attribute("arr", (int64_t)ca->getSize().getZExtValue());
									J.attribute("bytes", (int64_t)ctx.getTypeSizeInChars(v->getType()).getQuantity());
								}
								if(v->getInit())
									J.attribute("init", nid(v->getInit()));
							});
				});
			} else if(isa<UnaryExprOrTypeTraitExpr>(s) || isa<TypeTraitExpr>(s) || isa<SizeOfPackExpr>(s) || isa<CXXNoexceptExpr>(s)) {
				J.attribute("k", "lit");
			} else if(isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) {
				J.attribute("k", "zero");
			} else {
				J.attribute("k", std::string("x:") + s->getStmtClassName());
				J.attributeArray("c", [&] {
					for(auto* c : s->children())
						if(c && isa<Expr>(c))
							J.value(nid(c));
				});
			}
		});
	}

	void dumpFunction(FunctionDecl* f)
	{
		sid.clear();
		did.clear();
		pending.clear();
		emitted.clear();

		CFG::BuildOptions bo;
		bo.AddImplicitDtors = true;
		bo.AddInitializers = true;
		bo.AddTemporaryDtors = false;
		bo.PruneTriviallyFalseEdges = g_prune;
		bo.AddCXXDefaultInitExprInCtors = true;
		bo.AddCXXDefaultInitExprInAggregates = false;
		bo.setAllAlwaysAdd();
		auto cfg = CFG::buildCFG(f, f->getBody(), &ctx, bo);
		if(!cfg)
			return;

		J.object([&] {
			J.attribute("name", fnName(f));
			J.attribute("id", mangled(f));
			J.attribute("short", isa<CXXConstructorDecl>(f) ? std::string("(ctor)") : isa<CXXDestructorDecl>(f) ? std::string("(dtor)") : f->getNameAsString());
			J.attribute("file", fileOf(f->getLocation()));
			J.attribute("line", (int64_t)sm.getExpansionLineNumber(f->getLocation()));
			J.attribute("endline", (int64_t)sm.getExpansionLineNumber(f->getBody()->getEndLoc()));
			J.attribute("rt", typeStr(f->getReturnType()));
			if(auto* ft = f->getType()->getAs<FunctionProtoType>())
				if(ft->isNothrow())
					J.attribute("noexcept", true);
			if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
				J.attribute("cls", m->getParent()->isLambda() ? std::string("lambda") : recName(m->getParent()));
				if(m->isVirtual())
					J.attribute("virt", true);
				if(m->isConst())
					J.attribute("const", true);
				if(m->isStatic())
					J.attribute("static", true);
				if(m->isImplicit() || m->isDefaulted())
					J.attribute("implicit", true);
				J.attribute("acc", (int64_t)m->getAccess());
				if(m->size_overridden_methods())
					J.attributeArray("over", [&] {
						for(auto* o : m->overridden_methods())
							J.value(mangled(o));
					});
				if(auto* c = dyn_cast<CXXConstructorDecl>(f))
					if(c->isCopyOrMoveConstructor())
						J.attribute("cpy", c->isMoveConstructor() ? "move" : "copy");
			}
			if(f->getPrimaryTemplate() || f->getTemplateInstantiationPattern())
				J.attribute("inst", true);
			if(f->getTemplateSpecializationArgs()) {
				std::string s;
				llvm::raw_string_ostream os(s);
				printTemplateArgumentList(os, f->getTemplateSpecializationArgs()->asArray(), pp);
				os.flush();
				J.attribute("targs", s);
			}
			J.attributeArray("params", [&] {
				for(auto* p : f->parameters())
					J.object([&] {
						J.attribute("d", declId(p));
						J.attribute("n", p->getNameAsString());
						typeInfo(p->getType());
						if(p->getType()->isReferenceType())
							J.attribute("isref", true);
					});
			});
			J.attribute("entry", (int64_t)cfg->getEntry().getBlockID());
			J.attribute("exit", (int64_t)cfg->getExit().getBlockID());
			J.attributeArray("blocks", [&] {
				for(auto* b : *cfg)
					J.object([&] {
						J.attribute("b", (int64_t)b->getBlockID());
						J.attributeArray("e", [&] {
							for(auto const& el : *b) {
								if(auto cs = el.getAs<CFGStmt>()) {
									Stmt const* st = cs->getStmt();
									if(strip(st) != st)
										continue; // transparent wrapper
									J.value(nid(st));
								} else if(auto ci = el.getAs<CFGInitializer>()) {
									auto* in = ci->getInitializer();
									J.object([&] {
										J.attribute("k", "cinit");
										J.attribute("l", (int64_t)sm.getExpansionLineNumber(in->getSourceLocation().isValid() ? in->getSourceLocation() : f->getLocation()));
										if(in->isAnyMemberInitializer()) {
											J.attribute("field", in->getAnyMember()->getNameAsString());
											if(in->getAnyMember()->getType()->isReferenceType())
												J.attribute("isref", true);
										} else if(in->isBaseInitializer()) {
											if(auto* br = in->getBaseClass()->getAsCXXRecordDecl())
												J.attribute("base", recName(br));
										} else
											J.attribute("deleg", true);
										J.attribute("init", nid(in->getInit()));
									});
								} else if(auto ad = el.getAs<CFGAutomaticObjDtor>()) {
									J.object([&] {
										J.attribute("k", "autodtor");
										J.attribute("l", (int64_t)sm.getExpansionLineNumber(ad->getTriggerStmt()->getEndLoc()));
										J.attribute("d", declId(ad->getVarDecl()));
										J.attribute("n", ad->getVarDecl()->getNameAsString());
										J.attribute("t", typeStr(ad->getVarDecl()->getType()));
										if(auto* dd = ad->getDestructorDecl(ctx))
											callee(dd);
									});
								} else if(auto md = el.getAs<CFGMemberDtor>()) {
									J.object([&] {
										J.attribute("k", "memdtor");
										J.attribute("field", md->getFieldDecl()->getNameAsString());
									});
								} else if(auto bd = el.getAs<CFGBaseDtor>()) {
									J.object([&] {
										J.attribute("k", "basedtor");
										if(auto* br = bd->getBaseSpecifier()->getType()->getAsCXXRecordDecl())
											J.attribute("base", recName(br));
										if(auto* dd = bd->getDestructorDecl(ctx))
											callee(dd);
									});
								} else if(auto dd = el.getAs<CFGDeleteDtor>()) {
									J.object([&] {
										J.attribute("k", "deldtor");
									});
								}
							}
						});
						if(auto* lab = b->getLabel()) {
							if(auto* cs = dyn_cast<CaseStmt>(lab)) {
								J.attribute("lk", "case");
								Expr::EvalResult r;
								if(cs->getLHS() && cs->getLHS()->EvaluateAsInt(r, ctx))
									J.attribute("cv", (int64_t)r.Val.getInt().getExtValue());
								if(cs->getRHS() && cs->getRHS()->EvaluateAsInt(r, ctx))
									J.attribute("cvhi", (int64_t)r.Val.getInt().getExtValue());
								if(auto* dre = dyn_cast<DeclRefExpr>(cs->getLHS()->IgnoreParenImpCasts()))
									J.attribute("cn", qual(dre->getDecl()));
								else if(auto* ce = dyn_cast<ConstantExpr>(cs->getLHS()))
									if(auto* dre2 = dyn_cast<DeclRefExpr>(ce->getSubExpr()->IgnoreParenImpCasts()))
										J.attribute("cn", qual(dre2->getDecl()));
							} else if(isa<DefaultStmt>(lab))
								J.attribute("lk", "default");
							else if(isa<CXXCatchStmt>(lab))
								J.attribute("lk", "catch");
						}
						if(auto* t = b->getTerminatorStmt()) {
							J.attribute("tk", t->getStmtClassName());
							J.attribute("tl", (int64_t)sm.getExpansionLineNumber(t->getBeginLoc()));
							if(auto* c = b->getTerminatorCondition(true))
								J.attribute("tc", nid(c));
						}
						if(b->hasNoReturnElement())
							J.attribute("noret", true);
						J.attributeArray("s", [&] {
							for(auto const& su : b->succs()) {
								if(auto* sb = su.getReachableBlock())
									J.value((int64_t)sb->getBlockID());
								else if(auto* ub = su.getPossiblyUnreachableBlock())
									J.value(-(int64_t)ub->getBlockID() - 1);
								else
									J.value(nullptr);
							}
						});
					});
			});
			J.attributeArray("nodes", [&] {
				while(!pending.empty()) {
					auto p = pending.back();
					pending.pop_back();
					if(emitted.insert(p.first).second)
						node(p.first, p.second);
				}
			});
		});
	}

	void finish()
	{
		J.object([&] {
			J.attributeArray("records", [&] {
				for(auto* r : recs)
					dumpRecord(r);
			});
			J.attributeArray("enums", [&] {
				for(auto* e : enums)
					J.object([&] {
						J.attribute("name", qual(e));
						J.attribute("file", fileOf(e->getLocation()));
						J.attribute("line", (int64_t)sm.getExpansionLineNumber(e->getLocation()));
						J.attributeObject("v", [&] {
							for(auto* c : e->enumerators())
								J.attribute(c->getName(), (int64_t)c->getInitVal().getExtValue());
						});
						if(auto* r = dyn_cast<CXXRecordDecl>(e->getDeclContext()))
							J.attribute("cls", recName(r));
					});
			});
			J.attributeArray("vars", [&] {
				for(auto* v : vars) {
					if(v->getType()->isDependentType() || v->getAnyInitializer()->isValueDependent())
						continue;
					J.object([&] {
						J.attribute("name", qual(v));
						J.attribute("file", fileOf(v->getLocation()));
						J.attribute("line", (int64_t)sm.getExpansionLineNumber(v->getLocation()));
						J.attribute("t", typeStr(v->getType()));
						if(auto* r = dyn_cast<CXXRecordDecl>(v->getDeclContext()))
							J.attribute("cls", recName(r));
						if(auto* fd = dyn_cast<FunctionDecl>(v->getDeclContext()))
							J.attribute("infn", fnName(fd));
						VarDecl const* def = nullptr;
						v->getAnyInitializer(def);
						if(def && def->getType()->isLiteralType(ctx) && (def->getType().isConstQualified() || def->isConstexpr() || ctx.getBaseElementType(def->getType()).isConstQualified()))
							if(auto* a = def->evaluateValue()) {
								J.attributeBegin("v");
								apvalue(*a, 0);
								J.attributeEnd();
							}
					});
				}
			});
			J.attributeArray("functions", [&] {
				for(size_t i = 0; i < fns.size(); i++)
					dumpFunction(fns[i]);
			});
		});
	}

private:
	ASTContext& ctx;
	SourceManager& sm;
	json::OStream& J;
	ASTNameGenerator ng;
	PrintingPolicy pp{LangOptions{}};
	std::set<CXXRecordDecl*> seenRec;
	std::vector<CXXRecordDecl*> recs;
	std::set<FunctionDecl*> seenFn;
	std::vector<FunctionDecl*> fns;
	std::set<EnumDecl*> seenEnum;
	std::vector<EnumDecl*> enums;
	std::set<VarDecl*> seenVar;
	std::vector<VarDecl*> vars;
};

class Consumer : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext& ctx) override
	{
		if(ctx.getDiagnostics().hasErrorOccurred())
			return;
		std::error_code ec;
		llvm::raw_fd_ostream os(g_out, ec);
		json::OStream J(os);
		Extract x(ctx, J);
		x.TraverseDecl(ctx.getTranslationUnitDecl());
		x.finish();
	}
};

class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

} // namespace

// usage: xtract OUT.json ROOT[:ROOT...] prune|noprune FILE -- FLAGS...
int main(int argc, char const** argv)
{
	if(argc < 6)
		return 2;
	g_out = argv[1];
	std::string roots = argv[2];
	size_t p = 0;
	while(p <= roots.size()) {
		size_t q = roots.find(':', p);
		if(q == std::string::npos)
			q = roots.size();
		if(q > p)
			g_roots.push_back(roots.substr(p, q - p));
		p = q + 1;
	}
	g_prune = std::string(argv[3]) == "prune";
	std::string file = argv[4];
	std::vector<std::string> flags;
	for(int i = 6; i < argc; i++)
		flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {file});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
