// Extracts a typed, name-resolved program model of one translation unit.
//
// Every function definition, class, enum and namespace-scope variable whose
// source lies under one of the --root directories is written to --out as JSON.
// Callees, fields and types are the ones clang resolved; template bodies are
// the instantiated ones; implicit nodes that carry no meaning are dropped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {
class Dumper {
public:
    Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressScope = false;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::vector<std::string> Types;
    std::map<std::string, int> TypeIdx;
    std::map<const Decl *, int> Locals;
    std::vector<const CXXMethodDecl *> PendingLambdas;

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        SM.getFileManager().makeAbsolutePath(P);
        std::string S = P.str().str();
        // normalise "/./" and "x/../"
        llvm::SmallString<256> Q(S);
        llvm::sys::path::remove_dots(Q, true);
        return Q.str().str();
    }
    unsigned lineOf(SourceLocation L)
    {
        return SM.getExpansionLineNumber(L);
    }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        std::string F = fileOf(L);
        for (auto &R : Roots)
            if (F.compare(0, R.size(), R) == 0)
                return true;
        return false;
    }

    int type(QualType T)
    {
        std::string S;
        if (T.isNull())
            S = "<null>";
        else
            S = T.getCanonicalType().getAsString(PP);
        auto It = TypeIdx.find(S);
        if (It != TypeIdx.end())
            return It->second;
        int I = Types.size();
        Types.push_back(S);
        TypeIdx[S] = I;
        return I;
    }

    std::string usr(const Decl *D)
    {
        llvm::SmallString<256> B;
        if (index::generateUSRForDecl(D, B))
            return "nousr:" + std::to_string((uintptr_t)D);
        return B.str().str();
    }
    std::string qname(const NamedDecl *D)
    {
        return D->getQualifiedNameAsString();
    }
    int local(const Decl *D)
    {
        auto It = Locals.find(D);
        if (It != Locals.end())
            return It->second;
        int I = Locals.size() + 1;
        Locals[D] = I;
        return I;
    }
    std::string fid(const FunctionDecl *F)
    {
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return "lambda:" + fileOf(M->getParent()->getBeginLoc()) + ":" +
                       std::to_string(lineOf(M->getParent()->getBeginLoc())) + ":" +
                       std::to_string(SM.getExpansionColumnNumber(M->getParent()->getBeginLoc())) +
                       ":" + usr(dyn_cast<Decl>(M->getParent()->getDeclContext()));
        return usr(F->getCanonicalDecl());
    }

    json::Object node(const char *K, const Stmt *S)
    {
        json::Object O;
        O["k"] = K;
        if (S)
            O["l"] = (int64_t)lineOf(S->getBeginLoc());
        return O;
    }

    json::Value exprs(llvm::ArrayRef<const Expr *> A)
    {
        json::Array R;
        for (auto *E : A)
            R.push_back(expr(E));
        return R;
    }
    template <class It> json::Array args(It B, It E)
    {
        json::Array R;
        for (; B != E; ++B)
            R.push_back(expr(*B));
        return R;
    }

    json::Value callee(json::Object &O, const FunctionDecl *F)
    {
        O["f"] = fid(F);
        O["fn"] = qname(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = type(Ctx.getRecordType(M->getParent()));
            if (M->isStatic())
                O["static"] = true;
            if (M->isConst())
                O["cst"] = true;
        }
        json::Array PT;
        for (auto *P : F->parameters())
            PT.push_back(type(P->getType()));
        O["pt"] = std::move(PT);
        if (F->isNoReturn())
            O["noret"] = true;
        return nullptr;
    }

    json::Value expr(const Expr *E)
    {
        if (!E)
            return nullptr;
        // Transparent wrappers
        while (true) {
            if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
            if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
            if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
            if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
                if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; }
            }
            if (auto *X = dyn_cast<ChooseExpr>(E)) { E = X->getChosenSubExpr(); continue; }
            break;
        }

        if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_IntegralCast:
            case CK_FloatingToIntegral:
            case CK_IntegralToFloating:
            case CK_FloatingCast:
            case CK_FloatingToBoolean:
            case CK_IntegralToBoolean:
            case CK_PointerToBoolean: {
                auto O = node("cast", E);
                O["ck"] = X->getCastKindName();
                O["imp"] = true;
                O["t"] = type(E->getType());
                O["st"] = type(X->getSubExpr()->getType());
                O["e"] = expr(X->getSubExpr());
                return O;
            }
            default:
                return expr(X->getSubExpr());
            }
        }
        if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
            auto O = node("cast", E);
            O["ck"] = X->getCastKindName();
            O["t"] = type(X->getTypeAsWritten());
            O["st"] = type(X->getSubExpr()->getType());
            O["e"] = expr(X->getSubExpr());
            if (isa<CXXStaticCastExpr>(X)) O["how"] = "static";
            else if (isa<CXXDynamicCastExpr>(X)) O["how"] = "dynamic";
            else if (isa<CXXConstCastExpr>(X)) O["how"] = "const";
            else if (isa<CXXReinterpretCastExpr>(X)) O["how"] = "reinterpret";
            else O["how"] = "c";
            return O;
        }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            auto O = node("int", E);
            llvm::SmallString<32> S;
            X->getValue().toString(S, 10, X->getType()->isSignedIntegerOrEnumerationType());
            O["v"] = S.str().str();
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            auto O = node("flt", E);
            O["v"] = X->getValueAsApproximateDouble();
            return O;
        }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            auto O = node("bool", E);
            O["v"] = X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            auto O = node("chr", E);
            O["v"] = (int64_t)X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            auto O = node("str", E);
            if (X->getCharByteWidth() == 1) {
                std::string S = X->getString().str();
                if (!llvm::json::isUTF8(S))
                    S = llvm::json::fixUTF8(S);
                O["v"] = S;
            } else
                O["v"] = "";
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            return node("null", E);
        if (isa<CXXThisExpr>(E)) {
            auto O = node("this", E);
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto *D = X->getDecl();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                auto O = node("enum", E);
                O["n"] = qname(EC);
                O["v"] = EC->getInitVal().getExtValue();
                return O;
            }
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                auto O = node("fref", E);
                callee(O, F);
                return O;
            }
            auto O = node("var", E);
            O["n"] = D->getNameAsString();
            O["t"] = type(D->getType());
            if (auto *V = dyn_cast<VarDecl>(D)) {
                if (isa<ParmVarDecl>(V)) {
                    O["vk"] = "param";
                    O["d"] = local(V);
                } else if (V->hasLocalStorage()) {
                    O["vk"] = "local";
                    O["d"] = local(V);
                } else if (V->isStaticLocal()) {
                    O["vk"] = "static";
                    O["d"] = local(V);
                    O["qn"] = qname(V);
                } else {
                    O["vk"] = "global";
                    O["qn"] = qname(V);
                    O["u"] = usr(V);
                    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
                }
                if (V->hasAttr<OMPThreadPrivateDeclAttr>()) O["tls"] = true;
            } else if (isa<BindingDecl>(D)) {
                O["vk"] = "local";
                O["d"] = local(D);
            } else {
                O["vk"] = "other";
                O["qn"] = qname(D);
            }
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            auto *D = X->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                auto O = node("mem", E);
                O["b"] = expr(X->getBase());
                O["n"] = F->getNameAsString();
                O["qn"] = qname(F);
                O["t"] = type(F->getType());
                if (X->isArrow()) O["arrow"] = true;
                return O;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                auto O = node("var", E);
                O["n"] = V->getNameAsString();
                O["t"] = type(V->getType());
                O["vk"] = "global";
                O["qn"] = qname(V);
                O["u"] = usr(V);
                return O;
            }
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                auto O = node("fref", E);
                callee(O, F);
                O["obj"] = expr(X->getBase());
                return O;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                auto O = node("enum", E);
                O["n"] = qname(EC);
                O["v"] = EC->getInitVal().getExtValue();
                return O;
            }
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto O = node("call", E);
            if (E->isGLValue()) O["lv"] = true;
            O["t"] = type(E->getType());
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) {
                callee(O, F);
                unsigned First = 0;
                auto *M = dyn_cast<CXXMethodDecl>(F);
                if (M && !M->isStatic()) {
                    O["obj"] = expr(X->getArg(0));
                    O["ot"] = type(X->getArg(0)->getType());
                    First = 1;
                    if (M->getParent()->isLambda()) O["lam"] = true;
                }
                json::Array A;
                for (unsigned I = First; I < X->getNumArgs(); I++)
                    A.push_back(expr(X->getArg(I)));
                O["a"] = std::move(A);
            } else {
                json::Array A;
                for (auto *AE : X->arguments()) A.push_back(expr(AE));
                O["a"] = std::move(A);
                O["fn"] = "?";
            }
            return O;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            auto O = node("call", E);
            if (E->isGLValue()) O["lv"] = true;
            O["t"] = type(E->getType());
            if (auto *M = X->getMethodDecl()) {
                callee(O, M);
                bool Virt = M->isVirtual();
                if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                    if (ME->hasQualifier()) { if (Virt) O["qualcall"] = true; Virt = false; }
                if (Virt) O["virt"] = true;
            } else {
                O["fn"] = "?";
            }
            O["obj"] = expr(X->getImplicitObjectArgument());
            if (X->getImplicitObjectArgument())
                O["ot"] = type(X->getImplicitObjectArgument()->getType());
            O["a"] = args(X->arg_begin(), X->arg_end());
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            auto O = node("call", E);
            if (E->isGLValue()) O["lv"] = true;
            O["t"] = type(E->getType());
            if (auto *F = X->getDirectCallee())
                callee(O, F);
            else {
                O["fn"] = "?";
                O["cexpr"] = expr(X->getCallee());
            }
            O["a"] = args(X->arg_begin(), X->arg_end());
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            // copies/moves of the same object are transparent
            auto *C = X->getConstructor();
            auto O = node("ctor", E);
            O["t"] = type(E->getType());
            callee(O, C);
            if (C->isCopyOrMoveConstructor()) O["copy"] = true;
            if (C->isDefaultConstructor()) O["dflt"] = true;
            if (!C->isUserProvided()) O["triv"] = true;
            O["a"] = args(X->arg_begin(), X->arg_end());
            return O;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            auto O = node("ctor", E);
            O["t"] = type(E->getType());
            callee(O, X->getConstructor());
            O["a"] = json::Array();
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            if (X->isAssignmentOp()) {
                auto O = node("asg", E);
                O["op"] = X->getOpcodeStr().str();
                O["lhs"] = expr(X->getLHS());
                O["rhs"] = expr(X->getRHS());
                O["t"] = type(X->getLHS()->getType());
                if (auto *CA = dyn_cast<CompoundAssignOperator>(X))
                    O["ct"] = type(CA->getComputationResultType());
                return O;
            }
            auto O = node("bin", E);
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            auto O = node("un", E);
            std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) Op = "p" + Op;
            O["op"] = Op;
            O["e"] = expr(X->getSubExpr());
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            auto O = node("cond", E);
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            auto O = node("sub", E);
            O["b"] = expr(X->getBase());
            O["i"] = expr(X->getIdx());
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isTransparent() && X->getNumInits() == 1)
                return expr(X->getInit(0));
            auto O = node("ilist", E);
            O["t"] = type(E->getType());
            json::Array A;
            for (unsigned I = 0; I < X->getNumInits(); I++) A.push_back(expr(X->getInit(I)));
            O["e"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            auto O = node("lambda", E);
            O["f"] = fid(X->getCallOperator());
            O["t"] = type(E->getType());
            json::Array C;
            for (auto &Cap : X->captures()) {
                if (Cap.capturesVariable()) {
                    json::Object CO;
                    CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    if (auto *V = dyn_cast<VarDecl>(Cap.getCapturedVar())) CO["d"] = local(V);
                    CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
                    C.push_back(std::move(CO));
                } else if (Cap.capturesThis()) {
                    json::Object CO;
                    CO["this"] = true;
                    C.push_back(std::move(CO));
                }
            }
            O["caps"] = std::move(C);
            json::Array P;
            for (auto *PD : X->getCallOperator()->parameters()) {
                json::Object PO;
                PO["n"] = PD->getNameAsString();
                PO["d"] = local(PD);
                PO["t"] = type(PD->getType());
                P.push_back(std::move(PO));
            }
            O["p"] = std::move(P);
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            auto O = node("throw", E);
            if (X->getSubExpr()) {
                O["e"] = expr(X->getSubExpr());
                O["t"] = type(X->getSubExpr()->getType());
            }
            return O;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            auto O = node("new", E);
            O["t"] = type(X->getAllocatedType());
            if (X->getInitializer()) O["init"] = expr(X->getInitializer());
            if (X->getNumPlacementArgs() == 1) O["place"] = expr(X->getPlacementArg(0));
            if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize());
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            auto O = node("delete", E);
            O["e"] = expr(X->getArgument());
            return O;
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
            auto O = node("zero", E);
            O["t"] = type(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            auto O = node("sizeof", E);
            (void)X;
            return O;
        }
        auto O = node("?", E);
        O["sc"] = E->getStmtClassName();
        O["t"] = type(E->getType());
        json::Array A;
        for (auto *C : E->children())
            if (C) A.push_back(any(C));
        O["ch"] = std::move(A);
        return O;
    }

    json::Value any(const Stmt *S)
    {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        return stmt(S);
    }

    json::Object varDecl(const VarDecl *V)
    {
        json::Object O;
        O["n"] = V->getNameAsString();
        O["d"] = local(V);
        O["t"] = type(V->getType());
        O["l"] = (int64_t)lineOf(V->getLocation());
        if (V->isStaticLocal()) O["static"] = true;
        if (V->getInit()) O["init"] = expr(V->getInit());
        return O;
    }

    json::Value block(const Stmt *S)
    {
        json::Array A;
        if (!S) return A;
        if (auto *C = dyn_cast<CompoundStmt>(S)) {
            for (auto *X : C->body()) A.push_back(stmt(X));
        } else
            A.push_back(stmt(S));
        return A;
    }

    json::Value stmt(const Stmt *S)
    {
        if (!S) return nullptr;
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto *X = dyn_cast<LabelStmt>(S)) {
            auto O = node("label", S);
            O["body"] = block(X->getSubStmt());
            return O;
        }
        if (auto *X = dyn_cast<Expr>(S)) {
            auto O = node("expr", S);
            O["e"] = expr(X);
            return O;
        }
        if (isa<CompoundStmt>(S)) {
            auto O = node("block", S);
            O["body"] = block(S);
            return O;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            auto O = node("decl", S);
            json::Array A;
            for (auto *D : X->decls())
                if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
            O["v"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            auto O = node("if", S);
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["then"] = block(X->getThen());
            if (X->getElse()) O["else"] = block(X->getElse());
            return O;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            auto O = node("for", S);
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getCond()) O["c"] = expr(X->getCond());
            if (X->getInc()) O["inc"] = expr(X->getInc());
            O["body"] = block(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            auto O = node("range", S);
            O["var"] = varDecl(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            O["rt"] = type(X->getRangeInit()->getType());
            O["body"] = block(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            auto O = node("while", S);
            if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["body"] = block(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            auto O = node("do", S);
            O["c"] = expr(X->getCond());
            O["body"] = block(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            auto O = node("switch", S);
            if (X->getInit()) O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["ct"] = type(X->getCond()->IgnoreImpCasts()->getType());
            O["body"] = block(X->getBody());
            O["all"] = X->isAllEnumCasesCovered();
            return O;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            auto O = node("case", S);
            O["v"] = expr(X->getLHS());
            O["body"] = block(X->getSubStmt());
            return O;
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            auto O = node("default", S);
            O["body"] = block(X->getSubStmt());
            return O;
        }
        if (isa<BreakStmt>(S)) return node("break", S);
        if (isa<ContinueStmt>(S)) return node("continue", S);
        if (isa<NullStmt>(S)) return node("nop", S);
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            auto O = node("ret", S);
            if (X->getRetValue()) O["e"] = expr(X->getRetValue());
            return O;
        }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            auto O = node("try", S);
            O["body"] = block(X->getTryBlock());
            json::Array H;
            for (unsigned I = 0; I < X->getNumHandlers(); I++) {
                auto *C = X->getHandler(I);
                json::Object HO;
                HO["l"] = (int64_t)lineOf(C->getBeginLoc());
                if (C->getExceptionDecl()) {
                    HO["t"] = type(C->getCaughtType());
                    HO["var"] = varDecl(C->getExceptionDecl());
                } else
                    HO["all"] = true;
                HO["body"] = block(C->getHandlerBlock());
                H.push_back(std::move(HO));
            }
            O["h"] = std::move(H);
            return O;
        }
        if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
            auto O = node("omp", S);
            O["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
            json::Array CL;
            for (auto *C : X->clauses()) {
                json::Object CO;
                CO["n"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
                json::Array V;
                for (auto *Ch : C->children())
                    if (Ch) V.push_back(any(Ch));
                CO["v"] = std::move(V);
                CL.push_back(std::move(CO));
            }
            O["cl"] = std::move(CL);
            if (auto *CR = dyn_cast<OMPCriticalDirective>(X)) O["name"] = CR->getDirectiveName().getAsString();
            if (X->hasAssociatedStmt() && X->getAssociatedStmt()) {
                const Stmt *B = X->getAssociatedStmt();
                while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
                O["body"] = block(B);
            } else
                O["body"] = json::Array();
            return O;
        }
        if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return stmt(X->getLoopStmt());
        if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
        auto O = node("?s", S);
        O["sc"] = S->getStmtClassName();
        json::Array A;
        for (auto *C : S->children())
            if (C) A.push_back(any(C));
        O["ch"] = std::move(A);
        return O;
    }

    json::Value func(const FunctionDecl *F)
    {
        Locals.clear();
        json::Object O;
        O["id"] = fid(F);
        O["n"] = qname(F);
        O["file"] = fileOf(F->getLocation());
        O["l"] = (int64_t)lineOf(F->getLocation());
        O["el"] = (int64_t)lineOf(F->getEndLoc());
        O["rt"] = type(F->getReturnType());
        json::Array P;
        for (auto *PD : F->parameters()) {
            json::Object PO;
            PO["n"] = PD->getNameAsString();
            PO["d"] = local(PD);
            PO["t"] = type(PD->getType());
            P.push_back(std::move(PO));
        }
        O["p"] = std::move(P);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = type(Ctx.getRecordType(M->getParent()));
            O["clsn"] = qname(M->getParent());
            if (M->isStatic()) O["static"] = true;
            if (M->isConst()) O["cst"] = true;
            if (M->isVirtual()) O["virt"] = true;
            if (M->isUserProvided()) O["user"] = true;
            O["acc"] = (int64_t)M->getAccess();
            json::Array Ov;
            for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
            O["over"] = std::move(Ov);
            if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
                O["ctor"] = true;
                if (C->isCopyOrMoveConstructor()) O["copy"] = true;
                json::Array I;
                for (auto *In : C->inits()) {
                    json::Object IO;
                    IO["l"] = (int64_t)lineOf(In->getSourceLocation());
                    if (In->isAnyMemberInitializer())
                        IO["mem"] = In->getAnyMember()->getNameAsString();
                    else if (In->isBaseInitializer())
                        IO["base"] = type(QualType(In->getBaseClass(), 0));
                    else if (In->isDelegatingInitializer())
                        IO["deleg"] = true;
                    IO["written"] = In->isWritten();
                    IO["e"] = expr(In->getInit());
                    I.push_back(std::move(IO));
                }
                O["inits"] = std::move(I);
            }
            if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
        }
        if (F->isTemplateInstantiation()) O["inst"] = true;
        if (F->getTemplateSpecializationArgs()) {
            std::string TA;
            llvm::raw_string_ostream TS(TA);
            for (auto &A : F->getTemplateSpecializationArgs()->asArray()) {
                A.print(PP, TS, true);
                TS << ";";
            }
            O["targs"] = TS.str();
        }
        if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) O["local"] = true;
        O["body"] = block(F->getBody());
        return O;
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    V(ASTContext &C) : D(C) {}
    Dumper D;
    json::Array Funcs, Classes, Enums, Globals, Decls;
    std::set<std::string> SeenF, SeenC;

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isDependentContext()) return true;
        if (!D.inRoot(F->getLocation())) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true; // emitted inline
        if (F->isImplicit()) return true;
        if (!F->doesThisDeclarationHaveABody()) {
            if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
                json::Object O;
                O["id"] = D.fid(M);
                O["n"] = D.qname(M);
                O["file"] = D.fileOf(M->getLocation());
                O["l"] = (int64_t)D.lineOf(M->getLocation());
                O["pure"] = M->isPureVirtual();
                O["virt"] = M->isVirtual();
                O["deleted"] = M->isDeleted();
                O["dflt"] = M->isDefaulted();
                O["clsn"] = D.qname(M->getParent());
                json::Array Ov;
                for (auto *B : M->overridden_methods()) Ov.push_back(D.fid(B));
                O["over"] = std::move(Ov);
                Decls.push_back(std::move(O));
            }
            return true;
        }
        if (!SeenF.insert(D.fid(F)).second) return true;
        Funcs.push_back(D.func(F));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!D.inRoot(R->getLocation())) return true;
        std::string U = D.usr(R);
        if (!SeenC.insert(U).second) return true;
        json::Object O;
        O["id"] = U;
        O["n"] = D.qname(R);
        O["t"] = D.type(D.Ctx.getRecordType(R));
        O["file"] = D.fileOf(R->getLocation());
        O["l"] = (int64_t)D.lineOf(R->getLocation());
        O["abstract"] = R->isAbstract();
        O["poly"] = R->isPolymorphic();
        O["aggr"] = R->isAggregate();
        if (R->isUnion()) O["union"] = true;
        json::Array B;
        for (auto &X : R->bases()) B.push_back(D.type(X.getType()));
        O["bases"] = std::move(B);
        json::Array Fs;
        for (auto *F : R->fields()) {
            json::Object FO;
            FO["n"] = F->getNameAsString();
            FO["t"] = D.type(F->getType());
            FO["l"] = (int64_t)D.lineOf(F->getLocation());
            FO["acc"] = (int64_t)F->getAccess();
            FO["mut"] = F->isMutable();
            if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = D.expr(F->getInClassInitializer());
            if (F->isBitField()) FO["bits"] = (int64_t)F->getBitWidthValue(D.Ctx);
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        json::Array Ms;
        for (auto *M : R->methods()) {
            if (M->isImplicit()) continue;
            json::Object MO;
            MO["n"] = M->getNameAsString();
            MO["id"] = D.fid(M);
            MO["acc"] = (int64_t)M->getAccess();
            MO["cst"] = M->isConst();
            MO["virt"] = M->isVirtual();
            MO["pure"] = M->isPureVirtual();
            MO["static"] = M->isStatic();
            MO["rt"] = D.type(M->getReturnType());
            MO["del"] = M->isDeleted();
            json::Array PT;
            for (auto *P : M->parameters()) PT.push_back(D.type(P->getType()));
            MO["pt"] = std::move(PT);
            Ms.push_back(std::move(MO));
        }
        O["methods"] = std::move(Ms);
        Classes.push_back(std::move(O));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E)
    {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
        if (!D.inRoot(E->getLocation())) return true;
        json::Object O;
        O["n"] = D.qname(E);
        O["file"] = D.fileOf(E->getLocation());
        O["l"] = (int64_t)D.lineOf(E->getLocation());
        json::Array C;
        for (auto *X : E->enumerators()) {
            json::Object CO;
            CO["n"] = X->getNameAsString();
            CO["v"] = X->getInitVal().getExtValue();
            C.push_back(std::move(CO));
        }
        O["c"] = std::move(C);
        Enums.push_back(std::move(O));
        return true;
    }
    bool VisitVarDecl(VarDecl *X)
    {
        if (isa<ParmVarDecl>(X) || X->isLocalVarDecl()) return true;
        if (!X->hasGlobalStorage() || X->getDeclContext()->isDependentContext()) return true;
        if (!D.inRoot(X->getLocation())) return true;
        json::Object O;
        O["n"] = D.qname(X);
        O["u"] = D.usr(X);
        O["t"] = D.type(X->getType());
        O["file"] = D.fileOf(X->getLocation());
        O["l"] = (int64_t)D.lineOf(X->getLocation());
        O["tls"] = X->getTLSKind() != VarDecl::TLS_None || X->hasAttr<OMPThreadPrivateDeclAttr>();
        D.Locals.clear();
        if (X->getInit()) O["init"] = D.expr(X->getInit());
        Globals.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        V Vis(C);
        Vis.TraverseDecl(C.getTranslationUnitDecl());
        json::Object O;
        O["funcs"] = std::move(Vis.Funcs);
        O["decls"] = std::move(Vis.Decls);
        O["classes"] = std::move(Vis.Classes);
        O["enums"] = std::move(Vis.Enums);
        O["globals"] = std::move(Vis.Globals);
        json::Array T;
        for (auto &S : Vis.D.Types) T.push_back(S);
        O["types"] = std::move(T);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutPath, EC);
        OS << json::Value(std::move(O));
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char **argv)
{
    // extract OUT ROOT[,ROOT] SOURCE -- FLAGS...
    if (argc < 5) {
        llvm::errs() << "usage: extract OUT ROOT[,ROOT..] SOURCE -- FLAGS...\n";
        return 2;
    }
    OutPath = argv[1];
    std::string R = argv[2];
    size_t P = 0;
    while (P <= R.size()) {
        size_t Q = R.find(',', P);
        if (Q == std::string::npos) Q = R.size();
        if (Q > P) Roots.push_back(R.substr(P, Q - P));
        P = Q + 1;
    }
    std::string Src = argv[3];
    std::vector<std::string> Flags;
    for (int I = 5; I < argc; I++) Flags.push_back(argv[I]);
    tooling::FixedCompilationDatabase DB("/", Flags);
    tooling::ClangTool Tool(DB, {Src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
