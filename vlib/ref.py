"""Reference mutants: for one mutant of the report, the edits of the original source
that its action documents, written from the report's range and clang's own types.

Each mutant yields a list of alternatives (edit lists).  There is more than one only
where the report does not say which of several expressions with the same text is
meant (an implicit conversion), or, in C, whether a discarded operand is evaluated."""
from .astj import ARITH, FLOATS, BINNAME, UNNAME, is_lvalue

EXPR_OPS = {"InsertLNot": "!", "InsertNot": "~", "InsertMinus": "-"}
EXPR_CONST = {"ReplaceWithZeroFloat": "0.0", "ReplaceWithOneFloat": "1.0", "ReplaceWithMinusOneFloat": "-1.0",
              "ReplaceWithZeroInt": "0", "ReplaceWithOneInt": "1", "ReplaceWithMinusOneInt": "-1",
              "ReplaceWithTrue": "1", "ReplaceWithFalse": "0"}
ASSIGN = {k for k in BINNAME if k.endswith("Assign")}


class NoRef(Exception):
    pass


def kind_ok(action, t):
    f = t in FLOATS
    b = t in ("bool", "_Bool")
    if action in ("InsertLNot",):
        return not f
    if action == "InsertNot":
        return not f and not b
    if action == "InsertMinus":
        return not b
    if action.endswith("Float"):
        return f
    if action.endswith("Int"):
        return not f and not b
    return b


class Refs:
    def __init__(self, ast, muts):
        """muts: the mutants of this file."""
        self.ast = ast
        self.cpp = ast.cpp
        self.groups = {}
        for m in muts:
            self.groups.setdefault(m.gid, []).append(m)
        # expression groups sharing a range, in id order (inner ones first)
        self.same = {}
        for g, ms in self.groups.items():
            if ms[0].kind == "expr":
                self.same.setdefault(ms[0].range, []).append((ms[0].id, g))
        for v in self.same.values():
            v.sort()
        self.cache = {}

    def text(self, r):
        return self.ast.data[r[0]:r[1]].decode("utf8", "surrogateescape")

    def _cands(self, m):
        """Candidate AST nodes for an expression group, most likely first."""
        ns = [n for n in self.ast.exprs_at(m.range) if n.type in ARITH]
        acts = {x.action for x in self.groups[m.gid]}
        if acts & {"InsertPreInc", "InsertPreDec"}:
            return [n for n in ns if n.vc == "lvalue"]
        ns = [n for n in ns if n.vc != "lvalue" and all(kind_ok(a, n.type) for a in acts)]
        return ns

    def alternatives(self, m):
        """List of [(start, end, text)] edit lists for mutant m."""
        try:
            return self._alternatives(m)
        except NoRef:
            if self._in_array_bound(m.range):
                return self._untyped(m)
            raise

    def _in_array_bound(self, r):
        """clang's AST dump leaves out array bounds of variable length."""
        depth = 0
        i = r[0] - 1
        d = self.ast.data
        while i >= 0:
            c = d[i:i + 1]
            if c in b";{}":
                return False
            if c == b"]":
                depth += 1
            elif c == b"[":
                if depth == 0:
                    return True
                depth -= 1
            i -= 1
        return False

    def _untyped(self, m):
        s, e = m.range
        E = self.text(m.range)
        T = "__typeof__(%s)" % E
        a = m.action
        if a in ("InsertPreInc", "InsertPreDec"):
            return [[(s, e, "(%s(%s))" % ("++" if a == "InsertPreInc" else "--", E))]]
        if m.kind == "expr":
            if a in EXPR_OPS:
                return [[(s, e, "((%s)(%s(%s)))" % (T, EXPR_OPS[a], E))]]
            return [[(s, e, "((void)(%s), (%s)(%s))" % (E, T, EXPR_CONST[a]))], [(s, e, "((%s)(%s))" % (T, EXPR_CONST[a]))]]
        if m.kind == "binary" and a in ("ReplaceWithLHS", "ReplaceWithRHS"):
            return [[(s, e, "((%s)(%s))" % (T, self.text(m.lhs if a == "ReplaceWithLHS" else m.rhs)))]]
        if m.kind == "binary" and a[11:] not in ASSIGN:
            return [[(s, e, "((%s)((%s) %s (%s)))" % (T, self.text(m.lhs), BINNAME[a[11:]], self.text(m.rhs)))]]
        return []

    def _alternatives(self, m):
        k = m.kind
        if k == "remove":
            return [[(m.range[0], m.range[1], "{}")]]
        if k == "expr":
            return self._expr(m)
        if k == "unary":
            return self._unary(m)
        if k == "binary":
            return self._binary(m)
        raise NoRef("kind " + k)

    def types_of_group(self, m):
        return [n.type for n in self._cands(m)]

    def _expr(self, m):
        s, e = m.range
        E = self.text(m.range)
        if m.action == "InsertPreInc":
            return [[(s, e, "(++(%s))" % E)]]
        if m.action == "InsertPreDec":
            return [[(s, e, "(--(%s))" % E)]]
        cands = self._cands(m)
        if not cands:
            raise NoRef("no expression of the right type at the range")
        # position of this group among the rvalue groups of the range tells which one is likely
        rv = [g for _, g in self.same[m.range] if not ({x.action for x in self.groups[g]} & {"InsertPreInc", "InsertPreDec"})]
        types = []
        if len(rv) == len(cands):
            c = sorted(cands, key=lambda n: -n.order)[rv.index(m.gid)]
            types = [c.type]
        elif len(rv) == 1:
            # outermost first
            types = [n.type for n in sorted(cands, key=lambda n: n.order)]
        else:
            types = [n.type for n in cands]
        types = list(dict.fromkeys(types))
        out = []
        for t in types:
            if m.action in EXPR_OPS:
                out.append([(s, e, "((%s)(%s((%s)(%s))))" % (t, EXPR_OPS[m.action], t, E))])
            else:
                c = EXPR_CONST[m.action]
                if self.cpp:
                    out.append([(s, e, "((%s)(%s))" % (t, c))])
                else:
                    out.append([(s, e, "((void)(%s), (%s)(%s))" % (E, t, c))])
                    out.append([(s, e, "((%s)(%s))" % (t, c))])
        return out

    def _opnode(self, m, kinds):
        ns = [n for n in self.ast.exprs_at(m.range) if n.kind in kinds]
        if m.kind == "binary":
            ns = [n for n in ns if n.op == BINNAME[m.operator] and (n.kids[0].b, n.kids[0].e) == m.lhs and (n.kids[1].b, n.kids[1].e) == m.rhs]
        else:
            ns = [n for n in ns if n.op == UNNAME[m.operator] and bool(n.postfix) == m.operator.startswith("Post") and (n.kids[0].b, n.kids[0].e) == m.operand]
        if not ns:
            raise NoRef("no %s expression with these operands at the range" % m.operator)
        return ns[0]

    def _unary(self, m):
        n = self._opnode(m, ("UnaryOperator",))
        s, e = m.range
        E = self.text(m.operand)
        t = n.type
        st = n.kids[0].type
        a = m.action
        if a == "ReplaceWithOperand":
            if n.vc == "lvalue":
                return [[(s, e, "(%s)" % E)]]
            if n.kids[0].vc == "lvalue":
                return [[(s, e, "((%s)(%s))" % (t, E))]]
            return [[(s, e, "((%s)((%s)(%s)))" % (t, st, E))]]
        if a in ("ReplaceWithPreInc", "ReplaceWithPreDec", "ReplaceWithPostInc", "ReplaceWithPostDec"):
            f = {"ReplaceWithPreInc": "++(%s)", "ReplaceWithPreDec": "--(%s)", "ReplaceWithPostInc": "(%s)++",
                 "ReplaceWithPostDec": "(%s)--"}[a] % E
            if n.vc == "lvalue":
                return [[(s, e, "(%s)" % f)]]
            return [[(s, e, "((%s)(%s))" % (t, f))]]
        op = {"ReplaceWithNot": "~", "ReplaceWithMinus": "-", "ReplaceWithLNot": "!"}[a]
        if n.kids[0].vc == "lvalue":
            return [[(s, e, "((%s)(%s(%s)))" % (t, op, E))]]
        return [[(s, e, "((%s)(%s((%s)(%s))))" % (t, op, st, E))]]

    def _binary(self, m):
        n = self._opnode(m, ("BinaryOperator", "CompoundAssignOperator"))
        s, e = m.range
        L, R = self.text(m.lhs), self.text(m.rhs)
        tl, tr, t = n.kids[0].type, n.kids[1].type, n.type
        a = m.action
        if a == "ReplaceWithLHS":
            if self.cpp:
                return [[(s, e, "((%s)(%s)(%s))" % (t, tl, L))]]
            if n.op in ("&&", "||"):
                neutral = "1" if n.op == "&&" else "0"
                # the right operand is not evaluated by either reading
                return [[(s, e, "((%s) %s %s)" % (L, n.op, neutral))],
                        [(s, e, "({ _Bool vt_l = (%s); vt_l ? (void)(%s) : (void)0; (int)vt_l; })" % (L, R) if n.op == "&&" else
                          "({ _Bool vt_l = (%s); vt_l ? (void)0 : (void)(%s); (int)vt_l; })" % (L, R))]]
            return [[(s, e, "({ %s vt_l = (%s); (void)(%s); (%s)vt_l; })" % (tl, L, R, t))],
                    [(s, e, "((%s)(%s)(%s))" % (t, tl, L))]]
        if a == "ReplaceWithRHS":
            if self.cpp:
                return [[(s, e, "((%s)(%s)(%s))" % (t, tr, R))]]
            if n.op in ("&&", "||"):
                neutral = "1" if n.op == "&&" else "0"
                return [[(s, e, "((void)(%s), (%s) %s %s)" % (L, R, n.op, neutral))],
                        [(s, e, "((%s) %s %s)" % (R, n.op, neutral))]]
            return [[(s, e, "((void)(%s), (%s)(%s)(%s))" % (L, t, tr, R))],
                    [(s, e, "((%s)(%s)(%s))" % (t, tr, R))]]
        op = BINNAME[a[len("ReplaceWith"):]]
        if a[len("ReplaceWith"):] in ASSIGN:
            body = "(%s) %s ((%s)(%s))" % (L, op, tr, R)
            return [[(s, e, "(%s)" % body)]]
        if n.op in ("&&", "||") and op in ("&&", "||"):
            return [[(s, e, "((%s)((%s) %s (%s)))" % (t, L, op, R))]]
        return [[(s, e, "((%s)(((%s)(%s)) %s ((%s)(%s))))" % (t, tl, L, op, tr, R))]]
