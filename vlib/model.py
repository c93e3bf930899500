"""What should be mutated: the documented set of mutants of a file, from clang's own AST.

Every expression and statement is *clear* (its mutants are known), *none* (it must have no
mutant) or *unclear* (not judged: macros, initialiser lists and other places where which
node carries the mutants is a matter of how clang builds its tree)."""
import collections

from .astj import ARITH, FLOATS, SIGNED, OPNAME

CLASSES = [{"Add", "Div", "Mul", "Rem", "Sub"},
           {"AddAssign", "AndAssign", "Assign", "DivAssign", "MulAssign", "OrAssign", "RemAssign", "ShlAssign", "ShrAssign", "SubAssign", "XorAssign"},
           {"And", "Or", "Xor"}, {"LAnd", "LOr"}, {"EQ", "NE", "GE", "GT", "LE", "LT"}, {"Shl", "Shr"}]
ASSIGN = CLASSES[1]
RELATIONAL = CLASSES[4]
NOFLOAT = {"Rem", "AndAssign", "OrAssign", "RemAssign", "ShlAssign", "ShrAssign", "XorAssign"}
KEEP = {"GT": {"GE", "NE"}, "GE": {"GT", "EQ"}, "LT": {"LE", "NE"}, "LE": {"LT", "EQ"}, "EQ": {"LE", "GE"}, "NE": {"LT", "GT"},
        "LAnd": {"EQ"}, "LOr": {"NE"}}
FUNCTIONS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr", "BuiltinBitCastExpr", "CXXAddrspaceCastExpr"}
# below these, which nodes carry mutants is not judged
MURKY = {"ChooseExpr", "CXXRewrittenBinaryOperator", "GenericSelectionExpr", "UserDefinedLiteral", "PseudoObjectExpr", 
         "OpaqueValueExpr", "ArrayInitLoopExpr", "ShuffleVectorExpr", "ConvertVectorExpr", 
         "CoyieldExpr", "DependentCoawaitExpr", "CXXTypeidExpr", "SubstNonTypeTemplateParmExpr",
         "TypeTraitExpr", "ArrayTypeTraitExpr", "ExpressionTraitExpr", "RequiresExpr", "ConceptSpecializationExpr", "SizeOfPackExpr", "PackExpansionExpr", "SourceLocExpr",
         "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXInheritedCtorInitExpr", "BlockExpr", 
         "ImplicitValueInitExpr", "RecoveryExpr", 
         "ImaginaryLiteral", "ObjCBoolLiteralExpr", "CXXPseudoDestructorExpr"}
LAMBDA_SENSITIVE = {"StmtExpr", "PredefinedExpr", "AddrLabelExpr", "CoawaitExpr", "CoyieldExpr", "DependentCoawaitExpr"}
TWICE = ("setjmp", "vfork", "alloca", "getcontext")


def kids(n):
    return [k for k in n.kids if k is not None]


def contains(n, pred, lambdas=True):
    st = [n]
    while st:
        x = st.pop()
        if not lambdas and x is not n and x.kind == "LambdaExpr":
            continue
        if pred(x):
            return True
        st += kids(x)
    return False


def strip(n):
    while n.kind == "ParenExpr" or n.kind in CASTS:
        ks = [k for k in kids(n) if k.vc]
        if not ks:
            break
        n = ks[0]
    return n


class Model:
    def __init__(self, ast, opt):
        self.ast, self.opt, self.cpp = ast, opt, ast.cpp
        self.want = collections.Counter()       # (kind, range, operator, action) -> how many
        self.unclear = set()                    # ranges with some node that is not judged
        self.none = {}                          # range -> why it must have no mutant
        self.clear = set()                      # ranges of judged nodes
        self.seen = collections.Counter()       # what kinds of constructs were judged
        self.decls = {}
        for n in ast.nodes:
            if n.raw.get("id") and n.kind and n.kind.endswith("Decl"):
                self.decls[n.raw["id"]] = n
        for d in kids(ast.root):
            self.decl(d, "none", False)

    # ---- marks
    def rng(self, n):
        return (n.b, n.e) if n.main and n.b is not None and n.b < n.e else None

    def mark(self, n, what, why="outside functions"):
        r = self.rng(n)
        if r:
            if what == "none":
                self.none.setdefault(r, why)
            else:
                self.unclear.add(r)

    def all(self, n, what, why=""):
        """The whole subtree has this status."""
        st = [n]
        while st:
            x = st.pop()
            self.mark(x, what, why)
            st += kids(x)

    def add(self, kind, n, op, action):
        self.want[(kind, self.rng(n), op, action)] += 1

    # ---- declarations
    def decl(self, d, ctx, template):
        """ctx: none (outside functions) or unclear."""
        k = d.kind
        if k in ("NamespaceDecl", "LinkageSpecDecl", "ExportDecl", "CXXRecordDecl", "RecordDecl", "ClassTemplatePartialSpecializationDecl"):
            t = template or k.startswith("ClassTemplate")
            for c in kids(d):
                self.decl(c, ctx, t)
        elif k == "ClassTemplateDecl":
            first = True
            for c in kids(d):
                if c.kind == "CXXRecordDecl" and first:
                    first = False
                    self.decl(c, ctx, True)
                elif c.kind != "CXXRecordDecl":
                    self.all(c, "unclear")
        elif k == "FunctionTemplateDecl":
            first = True
            for c in kids(d):
                if c.kind in FUNCTIONS:
                    if first:
                        self.decl(c, ctx, True)
                    first = False
                else:
                    self.all(c, "unclear")
        elif k in FUNCTIONS:
            self.function(d, ctx, template)
        elif k in ("VarDecl", "FieldDecl", "EnumDecl", "StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "EnumConstantDecl"):
            # lambdas and statement expressions outside functions are not judged
            self.all(d, "unclear" if contains(d, lambda x: x.kind in ("LambdaExpr", "StmtExpr", "BlockExpr")) else "none", "outside functions")
        else:
            self.all(d, "unclear")

    def function(self, d, ctx, template):
        raw = d.raw
        if raw.get("isImplicit") or raw.get("explicitlyDefaulted"):
            return
        if not self.rng(d):
            return
        if d.macro:
            return self.all(d, "unclear")
        if raw.get("constexpr"):
            return self.all(d, "none", "constexpr function")
        for c in kids(d):
            if c.kind == "CompoundStmt":
                self.compound(c, template)
            elif c.kind == "CXXTryStmt":
                self.stmt(c, template)
            elif c.kind == "ParmVarDecl":
                self.all(c, "none", "default argument")
            else:
                self.all(c, "unclear")

    # ---- statements
    def compound(self, n, tmpl, last_of_expr=False):
        body = kids(n)
        for i, s in enumerate(body):
            t = s
            while t.kind in ("CaseStmt", "DefaultStmt"):
                ks = kids(t)
                for x in ks[:-1]:
                    self.all(x, "none", "case label")
                self.mark(t, "unclear")
                t = ks[-1]
            self.removal(t, last_of_expr and i == len(body) - 1)
            if t.vc:
                if self.opt and not self.effects(t):
                    self.all(t, "unclear")
                    continue
                self.expr(t, tmpl)
            else:
                self.stmt(t, tmpl)

    def removal(self, t, keep):
        r = self.rng(t)
        if not r:
            return
        if t.macro or t.kind in ("AttributedStmt",) or contains(t, lambda x: x.kind and x.kind.startswith(("Coyield", "DependentCo"))):
            self.unclear.add(r)
            return
        if self.opt and t.vc and not self.effects(t):
            self.unclear.add(r)
            return
        self.clear.add(r)
        if t.kind in ("NullStmt", "DeclStmt", "LabelStmt") or keep or (self.opt and t.kind == "CompoundStmt"):
            return
        self.seen["remove " + t.kind] += 1
        self.add("remove", t, None, "RemoveStmt")

    def stmt(self, n, tmpl):
        """A statement that is not an expression; its parts are judged."""
        k = n.kind
        self.mark(n, "unclear") if n.vc else None
        ks = kids(n)
        if k == "CompoundStmt":
            return self.compound(n, tmpl)
        if k == "DeclStmt":
            for d in ks:
                self.local(d, tmpl)
            return
        if k in ("CaseStmt", "DefaultStmt"):
            for x in ks[:-1]:
                self.all(x, "none", "case label")
            return self.sub(ks[-1], tmpl)
        if k == "IfStmt":
            if n.raw.get("isConsteval") or n.raw.get("isNegatedConsteval"):
                return self.all(n, "unclear")
            i = 0
            if n.raw.get("hasInit"):
                self.sub(ks[i], tmpl)
                i += 1
            if n.raw.get("hasVar"):
                self.sub(ks[i], tmpl)
                i += 1
                self.all(ks[i], "unclear")
                i += 1
            else:
                if n.raw.get("isConstexpr"):
                    self.all(ks[i], "none", "condition of if constexpr")
                else:
                    self.sub(ks[i], tmpl)
                i += 1
            for x in ks[i:]:
                if n.raw.get("isConstexpr"):
                    self.seen["branch of if constexpr"] += 1
                self.sub(x, tmpl)
            return
        if k in ("WhileStmt", "SwitchStmt"):
            i = 0
            if n.raw.get("hasInit"):
                self.sub(ks[i], tmpl)
                i += 1
            if n.raw.get("hasVar"):
                self.sub(ks[i], tmpl)
                i += 1
                self.all(ks[i], "unclear")
                i += 1
            for x in ks[i:]:
                self.sub(x, tmpl)
            return
        if k == "ForStmt":
            # init, condition variable, condition, increment, body (absent ones are empty)
            if len(n.kids) == 5 and n.kids[1] is not None and n.kids[1].kind:
                self.sub(n.kids[0], tmpl) if n.kids[0] is not None and n.kids[0].kind else None
                self.sub(n.kids[1], tmpl)
                self.all(n.kids[2], "unclear")
                for x in n.kids[3:]:
                    if x is not None and x.kind:
                        self.sub(x, tmpl)
                return
            for x in ks:
                if x.kind:
                    self.sub(x, tmpl)
            return
        if k == "CXXForRangeStmt":
            for x in ks[:-1]:
                self.all(x, "unclear")
            return self.sub(ks[-1], tmpl)
        if k in ("DoStmt", "ReturnStmt", "LabelStmt", "CXXTryStmt", "IndirectGotoStmt"):
            for x in ks:
                if x.kind:
                    self.sub(x, tmpl)
            return
        if k == "CXXCatchStmt":
            for x in ks:
                if x.kind == "CompoundStmt":
                    self.compound(x, tmpl)
                else:
                    self.all(x, "unclear")
            return
        if k in ("NullStmt", "BreakStmt", "ContinueStmt", "GotoStmt"):
            return
        self.all(n, "unclear")

    def sub(self, n, tmpl):
        if n.vc:
            self.expr(n, tmpl)
        else:
            self.stmt(n, tmpl)

    def local(self, d, tmpl):
        k = d.kind
        if k == "VarDecl":
            raw = d.raw
            if d.macro:
                return self.all(d, "unclear")
            attrs = [c.kind for c in kids(d)]
            if raw.get("constexpr") or "ConstInitAttr" in attrs:
                return self.all(d, "none", "constexpr variable")
            if not self.cpp and raw.get("storageClass") == "static":
                return self.all(d, "none", "initialiser of a C static local variable")
            for c in kids(d):
                if c.vc:
                    self.expr(c, tmpl)
                else:
                    self.all(c, "unclear")
        elif k in ("CXXRecordDecl", "RecordDecl"):
            self.decl(d, "none", tmpl)
        elif k == "StaticAssertDecl":
            self.all(d, "none", "static assertion")
        elif k == "EnumDecl":
            self.all(d, "none", "enumerator")
        else:
            self.all(d, "unclear")

    # ---- expressions
    def expr(self, n, tmpl):
        k = n.kind
        ks = kids(n)
        if k == "ConstantExpr":
            return self.all(n, "none", "constant expression")
        if k == "CXXNoexceptExpr":
            return self.all(n, "none", "operand of noexcept")
        if k in CASTS and "decltype" in (n.raw.get("type") or {}).get("qualType", ""):
            return self.all(n, "unclear")
        if k == "UnaryExprOrTypeTraitExpr":
            for c in ks:
                self.all(c, "none", "operand of sizeof or alignof")
            self.judge(n, tmpl)
            return
        if k == "InitListExpr":
            # the conversions of its elements are there in one of its two forms only
            self.mark(n, "unclear")
            for c in ks:
                while c.kind == "ImplicitCastExpr":
                    self.mark(c, "unclear")
                    c = kids(c)[0]
                if c.kind == "InitListExpr" or c.vc:
                    self.mark(c, "unclear") if self.opt else None
                    self.seen["element of an initialiser list"] += 1
                    self.expr(c, tmpl)
                elif c.kind is not None:
                    self.all(c, "unclear")
            return
        if k in MURKY or k == "CXXNewExpr" and n.raw.get("isArray"):
            return self.all(n, "unclear")
        if k == "BinaryConditionalOperator" and ks:
            # the common operand also appears as the condition
            for c in ks[:-1]:
                self.all(c, "unclear")
            self.mark(n, "unclear")
            self.seen["alternative of ?:"] += 1
            return self.expr(ks[-1], tmpl)
        if k in ("CallExpr", "CXXMemberCallExpr") and ks:
            c = strip(ks[0])
            nm = (c.raw.get("referencedDecl") or {}).get("name", "") if c.kind == "DeclRefExpr" else ""
            if nm.startswith("__") or k == "CallExpr" and c.kind not in ("DeclRefExpr", "MemberExpr"):
                return self.all(n, "unclear")
        if k == "LambdaExpr":
            self.mark(n, "unclear")
            for c in ks[:-1]:
                if c.kind != "CXXRecordDecl":
                    self.all(c, "unclear")
            if ks and ks[-1].kind == "CompoundStmt":
                self.compound(ks[-1], tmpl)
            return
        if k == "StmtExpr":
            self.judge(n, tmpl)
            for c in ks:
                if c.kind == "CompoundStmt":
                    self.compound(c, tmpl, last_of_expr=True)
            return
        self.judge(n, tmpl)
        for c in ks:
            if c.vc:
                self.expr(c, tmpl)
            elif c.kind is not None:
                self.all(c, "unclear")

    def murky(self, n):
        """Whether something near the node makes its mutants a matter of detail."""
        p = n.parent
        if n.macro or not n.main:
            return True
        if n.vc == "xvalue" and (self.opt or p is None or p.kind != "ImplicitCastExpr" or p.cast != "LValueToRValue"):
            return True
        if n.type in ("_Float16", "__float128", "__bf16"):
            return True
        if p is not None and p.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            # an enumerator may have been chosen for its type
            if self.opt or strip(n).kind == "DeclRefExpr" and (strip(n).raw.get("referencedDecl") or {}).get("kind") == "EnumConstantDecl":
                return True
        if p is not None and p.kind in ("MaterializeTemporaryExpr", "InitListExpr"):
            return True
        if p is not None and p.kind in CASTS and p.type not in ARITH and p.type != "void":
            return True
        for a in (p, p.parent if p is not None else None):
            if a is not None and a.kind == "CallExpr" and a.raw.get("adl"):
                return True
        if self.cpp and contains(n, lambda x: x.kind in LAMBDA_SENSITIVE or (x.kind == "DeclRefExpr" and any(t in (x.raw.get("referencedDecl") or {}).get("name", "") for t in TWICE)), lambdas=False):
            return True
        if (n.vc != "prvalue" or n.op in ("++", "--")) and contains(n, lambda x: x.kind in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr")):
            return True
        return False

    def part(self, n):
        """Whether an lvalue is a bit-field or an element of a vector."""
        ks = [k for k in kids(n) if k.vc]
        if n.kind == "MemberExpr":
            d = self.decls.get(n.raw.get("referencedMemberDecl"))
            return d is not None and bool(d.raw.get("isBitfield"))
        if n.kind == "ExtVectorElementExpr" or n.kind == "MatrixSubscriptExpr":
            return True
        if n.kind == "ArraySubscriptExpr":
            return any("vector_size" in t or "ext_vector" in t for t in [str((k.raw.get("type") or {})) for k in ks])
        if n.kind == "ConditionalOperator":
            return self.part(ks[1]) or self.part(ks[2])
        if n.kind == "BinaryOperator" and n.op == ",":
            return self.part(ks[1])
        if n.kind in ("ParenExpr", "UnaryOperator", "BinaryOperator", "CompoundAssignOperator") or n.kind in CASTS:
            return bool(ks) and ks[0].vc == "lvalue" and n.op != "*" and self.part(ks[0])
        return False

    def by_reference(self, n):
        if self.part(n):
            return False
        if self.cpp:
            return True
        b = n
        while b.kind in ("ParenExpr", "MemberExpr"):
            if b.kind == "MemberExpr" and b.raw.get("isArrow"):
                return True
            b = kids(b)[0]
        if b.kind == "DeclRefExpr":
            d = self.decls.get((b.raw.get("referencedDecl") or {}).get("id"))
            return not (d is not None and d.raw.get("storageClass") == "register")
        return True

    def judge(self, n, tmpl):
        r = self.rng(n)
        if not r:
            return
        if n.kind and n.type not in ARITH:
            return
        if self.opt and n.kind in ("ParenExpr", "ExprWithCleanups"):
            return
        if self.murky(n) or (self.opt and tmpl):
            self.unclear.add(r)
            return
        self.clear.add(r)
        if n.kind == "UnaryOperator":
            self.unary(n, r)
        if n.kind in ("BinaryOperator", "CompoundAssignOperator"):
            self.binary(n, r)
        self.value(n, r)

    def unary(self, n, r):
        s = kids(n)[0]
        op = {"++": "PostInc" if n.postfix else "PreInc", "--": "PostDec" if n.postfix else "PreDec", "-": "Minus", "~": "Not", "!": "LNot"}.get(n.op)
        if op is None or s.type not in ARITH:
            return
        if s.macro:
            self.unclear.add(r)
            return
        if op in ("PreInc", "PreDec", "PostInc", "PostDec") and not self.by_reference(s):
            return
        if self.opt and not self.varies(s):
            self.unclear.add(r)
            return
        for a in ("PreInc", "PostInc", "PreDec", "PostDec", "Not", "Minus", "LNot"):
            if a == op:
                continue
            if a[:3] in ("Pre", "Pos") and s.vc != "lvalue":
                continue
            if (op[:3], a[:3]) in (("Pre", "Pos"), ("Pos", "Pre")):
                continue
            if n.vc == "lvalue" and a[:3] != "Pre":
                continue
            if a == "Not" and s.type in FLOATS:
                continue
            self.add("unary", n, op, "ReplaceWith" + a)
        if not (self.opt and op in ("LNot", "Minus", "Not")):
            self.add("unary", n, op, "ReplaceWithOperand")
        self.seen["unary %s %s" % (op, s.type)] += 1

    def binary(self, n, r):
        x, y = kids(n)[:2]
        if n.op == "," or n.op not in OPNAME:
            return
        op = OPNAME[n.op]
        if x.type not in ARITH or y.type not in ARITH:
            return
        if x.macro or y.macro or not self.rng(x) or not self.rng(y):
            self.unclear.add(r)
            return
        mid = self.ast.data[x.e:y.b]
        if n.op.encode() not in mid:
            # spelled by a macro or in some other way
            self.unclear.add(r)
            return
        if op in ASSIGN and not self.by_reference(x):
            return
        if self.opt and not (self.plain(x) and self.plain(y)):
            self.unclear.add(r)
            return
        vx, vy = (self.literal(x), self.literal(y)) if self.opt else (None, None)
        if vx == 0 and vy == 1:
            return
        self.seen["binary %s %s %s" % (op, x.type, y.type)] += 1
        if not self.cpp and op in ("LAnd", "LOr"):
            for a in ("ReplaceWithLOr" if op == "LAnd" else "ReplaceWithLAnd", "ReplaceWithLHS", "ReplaceWithRHS"):
                self.add("binary", n, op, a)
            return
        cand = set(next(c for c in CLASSES if op in c))
        if op in ("LAnd", "LOr"):
            cand |= {"EQ", "NE"}
        if op in ("EQ", "NE") and x.type in ("bool", "_Bool"):
            cand |= {"LAnd", "LOr"}
        cand.discard(op)
        if x.type in FLOATS or y.type in FLOATS:
            cand -= NOFLOAT
        if self.opt and op in KEEP:
            cand &= KEEP[op]
        if vy == 0:
            cand -= {"Add", "Sub", "Shl", "Shr", "Mul", "Rem"}
        if vy == 1:
            cand -= {"Mul", "Div"}
        if vx == 0:
            cand -= {"Add", "Shl", "Shr", "Mul", "Rem"} | ({"Div"} if vy != 0 else set())
        if vx == 1:
            cand -= {"Mul"}
        for a in cand:
            self.add("binary", n, op, "ReplaceWith" + a)
        if op not in ASSIGN and not (self.opt and op in RELATIONAL):
            if vx not in (0, 1):
                self.add("binary", n, op, "ReplaceWithLHS")
            if vy not in (0, 1):
                self.add("binary", n, op, "ReplaceWithRHS")

    def value(self, n, r):
        p = n.parent
        if n.kind == "InitListExpr":
            return
        if n.vc == "lvalue":
            if "const" in n.quals or n.type in ("bool", "_Bool") or not self.by_reference(n):
                return
            if p is None or p.kind != "ImplicitCastExpr" or p.vc == "lvalue":
                return
            if self.opt and (p.vc == "lvalue") == (n.vc == "lvalue"):
                return
            self.seen["lvalue %s" % n.type] += 1
            self.add("expr", n, None, "InsertPreInc")
            self.add("expr", n, None, "InsertPreDec")
            return
        acts = set()
        isbool, isint = n.type in ("bool", "_Bool"), n.type not in FLOATS
        if isint:
            acts.add("InsertLNot")
            if isbool:
                acts |= {"ReplaceWithTrue", "ReplaceWithFalse"}
            else:
                acts |= {"InsertNot", "ReplaceWithZeroInt", "ReplaceWithOneInt"}
                if n.type in SIGNED:
                    acts |= {"InsertMinus", "ReplaceWithMinusOneInt"}
        else:
            acts |= {"InsertMinus", "ReplaceWithZeroFloat", "ReplaceWithOneFloat", "ReplaceWithMinusOneFloat"}
        if self.opt:
            if p is not None and p.kind in CASTS and p.vc != "lvalue":
                return
            if p is None or p.kind in ("CompoundStmt", "CaseStmt", "DefaultStmt"):
                return
            if not self.varies(n):
                v = self.literal(n)
                if v is None:
                    self.unclear.add(r)
                    return
                acts.discard("InsertLNot")
                if v == 0:
                    acts -= {"ReplaceWithZeroInt", "ReplaceWithZeroFloat", "InsertMinus"} | ({"InsertNot"} if n.type in SIGNED else set())
                if v == 1:
                    acts -= {"ReplaceWithOneInt", "ReplaceWithOneFloat", "InsertMinus"}
            ins = {"InsertLNot", "InsertNot", "InsertMinus"}
            op = OPNAME.get(n.op) if n.kind == "BinaryOperator" else None
            if op in RELATIONAL or (self.cpp and op in ("LAnd", "LOr")):
                acts -= ins
            if self.cpp and p.kind == "BinaryOperator" and p.op in ("&&", "||"):
                acts -= ins
            if op in ("GT", "LT", "EQ") or (self.cpp and op == "LAnd"):
                acts.discard("ReplaceWithTrue")
            if op in ("GE", "LE", "NE") or (self.cpp and op == "LOr"):
                acts.discard("ReplaceWithFalse")
        self.seen["value %s %s" % (n.kind, n.type)] += 1
        for a in acts:
            self.add("expr", n, None, a)

    # ---- what the optimisations may take for a constant
    def literal(self, n):
        """Value of a plain literal, else None."""
        while n.kind == "ParenExpr" or (n.kind == "ImplicitCastExpr" and n.cast in ("IntegralCast", "IntegralToFloating", "FloatingCast")):
            n = kids(n)[0]
        if n.kind == "IntegerLiteral" or n.kind == "FloatingLiteral":
            try:
                v = float(n.raw.get("value"))
            except (TypeError, ValueError):
                return None
            return v if 0 <= v <= 127 else None
        return None

    def effects(self, t):
        """Certainly has a side effect."""
        def f(x):
            if x.kind == "CompoundAssignOperator" or (x.kind == "BinaryOperator" and x.op == "=") or (x.kind == "UnaryOperator" and x.op in ("++", "--")):
                return True
            return x.kind == "CallExpr" and self.ordinary(x)
        return contains(t, f, lambdas=False) and not contains(t, lambda x: x.kind == "UnaryExprOrTypeTraitExpr")

    def ordinary(self, n):
        """A call of a function that the compiler knows nothing about."""
        ks = [c for c in kids(n) if c.vc]
        c = strip(ks[0]) if ks else None
        if c is None or c.kind != "DeclRefExpr":
            return False
        d = self.decls.get((c.raw.get("referencedDecl") or {}).get("id"))
        return d is not None and d.kind == "FunctionDecl" and not d.raw.get("constexpr") and not any(x.kind in ("ConstAttr", "PureAttr", "BuiltinAttr") for x in kids(d))

    def plain(self, n):
        """An operand that is a plain literal or certainly no constant."""
        if self.varies(n):
            return True
        return self.literal(n) is not None

    def varies(self, n):
        """Certainly not a constant."""
        k = n.kind
        ks = [c for c in kids(n) if c.vc]
        if k == "DeclRefExpr":
            d = n.raw.get("referencedDecl") or {}
            x = self.decls.get(d.get("id"))
            return d.get("kind") in ("VarDecl", "ParmVarDecl") and x is not None and not x.raw.get("constexpr") and "const" not in (x.raw.get("type") or {}).get("qualType", "") and "const" not in n.quals and n.type is not None and "[" not in n.type
        if k == "ParenExpr" or k in CASTS:
            return bool(ks) and n.cast not in ("PointerToBoolean", "NullToPointer", "ToVoid") and self.varies(ks[0])
        if k == "UnaryOperator":
            if n.op in ("++", "--"):
                return True
            return n.op in ("-", "~", "!", "+", "*") and self.varies(ks[0])
        if k == "CompoundAssignOperator":
            return True
        if k == "BinaryOperator":
            if n.op == "=":
                return True
            if n.op == ",":
                return self.varies(ks[1])
            if n.op in ("&&", "||"):
                return self.varies(ks[0]) and self.varies(ks[1])
            return self.varies(ks[0]) or self.varies(ks[1])
        if k == "ConditionalOperator":
            return self.varies(ks[0])
        if k == "ArraySubscriptExpr":
            b = strip(ks[0])
            d = self.decls.get((b.raw.get("referencedDecl") or {}).get("id")) if b.kind == "DeclRefExpr" else None
            return d is not None and d.kind in ("VarDecl", "ParmVarDecl") and not d.raw.get("constexpr") and "const" not in (d.raw.get("type") or {}).get("qualType", "")
        if k == "MemberExpr":
            return "const" not in n.quals and bool(ks) and self.varies(ks[0])
        if k == "CallExpr":
            return self.ordinary(n)
        return False


def compare(model, muts):
    """Complaints about the mutants of one file. muts: the report's mutants of that file."""
    have = collections.Counter((m.kind, m.range, m.operator, m.action) for m in muts)
    bad = []
    for k, c in model.want.items():
        if have[k] < c:
            bad.append(("missing", k, have[k], c))
    ranges = {m.range for m in muts}
    extra = 0
    if not model.opt:
        for k, c in have.items():
            r = k[1]
            if c > model.want[k] and r in model.clear and r not in model.unclear:
                bad.append(("extra", k, c, model.want[k]))
    for r in ranges:
        if r in model.none and r not in model.clear and r not in model.unclear:
            bad.append(("none", (model.none[r], r, None, None), 1, 0))
    return bad
