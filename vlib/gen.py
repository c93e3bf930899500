"""Seeded generator of well-defined C and C++ programs.

A program is one or more files.  Each prints a trace through support.c.  The
full-expression discipline: an operator that does not sequence its operands has
at most one operand with side effects, and a variable modified in a full
expression is not read elsewhere in it, so behaviour is the same under every
evaluation order the standards allow.  -fwrapv removes signed overflow; other
undefined behaviour is excluded by running the program under UBSan first."""
import random

INTS_C = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int",
          "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
          "__int128", "unsigned __int128"]
INTS_CPP = ["bool"] + INTS_C[1:] + ["wchar_t", "char16_t", "char32_t"]
FLOATS = ["float", "double", "long double"]
W = {"int": 8, "unsigned int": 4, "bool": 3, "_Bool": 3, "double": 3, "float": 2, "char": 2, "long": 2,
     "short": 2, "unsigned long": 2, "long long": 2}


def is_float(t):
    return t in FLOATS


def is_bool(t):
    return t in ("bool", "_Bool")


class Gen:
    def __init__(self, rng, lang, size=1.0, exotic=True):
        self.r = rng
        self.lang = lang
        self.cpp = lang == "cpp"
        self.size = size
        ints = INTS_CPP if self.cpp else INTS_C
        if not exotic:
            ints = [t for t in ints if "128" not in t]
        self.ints = ints
        self.types = ints + FLOATS
        self.k = 0
        self.n = 0
        self.funcs = []      # (name, ret, [param types])
        self.globals = []    # (expr, type)
        self.boolt = "bool" if self.cpp else "_Bool"
        self.struct_ok = True

    def key(self):
        self.k += 1
        return self.k

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pick_type(self):
        return self.r.choices(self.types, [W.get(t, 1) for t in self.types])[0]

    def int_type(self):
        return self.r.choices(self.ints, [W.get(t, 1) for t in self.ints])[0]

    # ---- literals
    def lit(self, t):
        r = self.r
        if is_bool(t):
            if self.cpp:
                return r.choice(["true", "false", "true", "false", "1", "0"])
            return r.choice(["1", "0"])
        if is_float(t):
            s = r.choice(["0.0", "1.0", "2.5", "0.5", "3.25", "1e2", "7.0", "-1.0", "100.125"])
            if t == "float":
                s += "f"
            elif t == "long double" and r.random() < 0.5:
                s += "L"
            return s if not s.startswith("-") else "(%s)" % s
        v = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 31, 63, 64, 100, 127])
        form = r.random()
        if form < 0.12:
            s = hex(v)
        elif form < 0.17:
            s = "0%o" % v if v else "0"
        elif form < 0.22 and 32 < v < 127 and chr(v) not in "'\\?":
            return "'%s'" % chr(v)
        else:
            s = str(v)
        if t.startswith("unsigned") and r.random() < 0.5:
            s += {"unsigned int": "u", "unsigned long": "ul", "unsigned long long": "ull"}.get(t, "u")
        elif t in ("long", "long long") and r.random() < 0.5:
            s += {"long": "L", "long long": "LL"}[t]
        if r.random() < 0.1 and not t.startswith("unsigned"):
            return "(-%s)" % s
        return s

    # ---- expressions.  ctx: dict with 'vars': [(expr,type)] readable lvalues,
    # 'imp': impurity budget holder
    def leaf(self, t, c):
        r = self.r
        cands = [v for v in c["vars"] if v[1] == t]
        x = r.random()
        if cands and x < 0.72:
            return r.choice(cands)[0]
        if c["vars"] and x < 0.85:
            v = r.choice(c["vars"])
            if is_float(v[1]) and is_bool(t):
                return "(%s)%s" % (t, v[0])
            if is_float(v[1]) and not is_float(t):
                # keep float->int conversions in range
                return "(%s)(%s >= 0.0 && %s < 50.0 ? %s : %s)" % (t, v[0], v[0], v[0], "2.5")
            return v[0] if r.random() < 0.6 else "(%s)%s" % (t, v[0])
        return self.lit(t)

    def expr(self, t, d, c):
        r = self.r
        if d <= 0:
            return self.leaf(t, c)
        x = r.random()
        if x < 0.08:
            return self.leaf(t, c)
        if x < 0.16:
            return "(%s)" % self.expr(t, d - 1, c)
        if x < 0.26 and c.get("imp"):
            e = self.impure(t, d, c)
            if e:
                return e
        if x < 0.33:
            a, b = self.split_seq(c)
            return "(%s ? %s : %s)" % (self.cond(d - 1, a), self.expr(t, d - 1, b), self.expr(t, d - 1, b))
        if is_bool(t):
            return self.cond(d, c)
        if is_float(t):
            y = r.random()
            if y < 0.15:
                return "-%s" % self.prim(t, d - 1, c)
            if y < 0.25:
                t2 = r.choice(self.ints[1:])
                return "(%s)%s" % (t, self.prim(t2, d - 1, c))
            op = r.choice(["+", "-", "*", "/", "+", "-"])
            a, b = self.split(c)
            t2 = t if r.random() < 0.7 else self.pick_type()
            if op == "/":
                return "%s / %s" % (self.prim(t, d - 1, a), r.choice([self.lit(t), "(%s + 100.5)" % self.prim(t, 0, b)]))
            e = "%s %s %s" % (self.prim(t, d - 1, a), op, self.prim(t2, d - 1, b))
            return e
        # integers
        y = r.random()
        if y < 0.08:
            return "%s%s" % (r.choice(["-", "~", "~", "-", "+"]), self.prim(t, d - 1, c))
        if y < 0.13:
            return "!%s" % self.prim(self.pick_type(), d - 1, c)
        if y < 0.20:
            return "(%s)%s" % (t, self.prim(self.int_type(), d - 1, c))
        if y < 0.26:
            return self.cond(d - 1, c)
        a, b = self.split(c)
        t2 = t if r.random() < 0.65 else self.int_type()
        if y < 0.32:
            return "(%s >> %s)" % (self.prim(t, d - 1, a), "(%s & 3)" % self.prim("int", 0, b) if r.random() < 0.6 else r.choice("0123"))
        if y < 0.38:
            ut = r.choice(["unsigned int", "unsigned long", "unsigned long long"])
            return "((%s)%s << %s)" % (ut, self.prim(t, d - 1, a), "(%s & 3)" % self.prim("int", 0, b) if r.random() < 0.6 else r.choice("0123"))
        if y < 0.48:
            den = r.choice(["%s", "%s"]) % r.choice(["2", "3", "7", "1", "(%s | 1)" % self.prim(t2 if not is_bool(t2) else "int", 0, b)])
            return "%s %s %s" % (self.prim(t, d - 1, a), r.choice(["/", "%"]), den)
        if y < 0.66:
            return "%s %s %s" % (self.prim(t, d - 1, a), r.choice("&|^"), self.prim(t2, d - 1, b))
        return "%s %s %s" % (self.prim(t, d - 1, a), r.choice(["+", "-", "*", "+", "-"]), self.prim(t2, d - 1, b))

    def prim(self, t, d, c):
        e = self.expr(t, d, c)
        if all(ch.isalnum() or ch in "_." for ch in e):
            return e
        if e.startswith("(") and self.balanced(e):
            return e
        return "(%s)" % e

    @staticmethod
    def balanced(e):
        n = 0
        for i, ch in enumerate(e):
            if ch == "(":
                n += 1
            elif ch == ")":
                n -= 1
                if n == 0:
                    return i == len(e) - 1
        return False

    def split(self, c):
        """Contexts for two unsequenced operands: at most one may be impure."""
        if not c.get("imp"):
            return c, c
        a = dict(c)
        b = dict(c)
        if self.r.random() < 0.5:
            a["imp"] = None
        else:
            b["imp"] = None
        return a, b

    def split_seq(self, c):
        return c, c

    def cond(self, d, c):
        r = self.r
        if d <= 0:
            v = self.leaf(self.boolt if r.random() < 0.4 else self.pick_type(), c)
            return v
        x = r.random()
        if x < 0.45:
            a, b = self.split(c)
            t = self.pick_type()
            t2 = t if r.random() < 0.7 else self.pick_type()
            return "%s %s %s" % (self.prim(t, d - 1, a), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.prim(t2, d - 1, b))
        if x < 0.78:
            return "%s %s %s" % (self.primc(d - 1, c), r.choice(["&&", "||"]), self.primc(d - 1, c))
        if x < 0.9:
            return "!%s" % self.primc(d - 1, c)
        if x < 0.95:
            t = self.boolt
            a, b = self.split(c)
            return "%s %s %s" % (self.prim(t, 0, a), r.choice(["==", "!="]), self.prim(t, 0, b))
        return self.leaf(self.boolt, c)

    def primc(self, d, c):
        e = self.cond(d, c)
        if all(ch.isalnum() or ch in "_." for ch in e):
            return e
        if e.startswith("(") and self.balanced(e):
            return e
        return "(%s)" % e

    def impure(self, t, d, c):
        """An expression with a side effect, of a type convertible to t."""
        r = self.r
        k = r.random()
        pure = dict(c)
        pure["imp"] = None
        if k < 0.45:
            if is_float(t):
                return "sided(%d, %s)" % (self.key(), self.expr("double", d - 1, pure))
            f, ft = r.choice([("side", "int"), ("side", "int"), ("sidel", "long long"), ("sideu", "unsigned int")])
            return "%s(%d, %s)" % (f, self.key(), self.expr(ft, d - 1, pure))
        if k < 0.8 and c["imp"]:
            # use a variable from the modifiable pool, then retire it for this full expression
            pool = c["imp"]
            i = r.randrange(len(pool))
            v, vt = pool.pop(i)
            y = r.random()
            if is_bool(vt):
                return "(%s = %s)" % (v, self.expr(vt, d - 1, pure))
            if is_float(vt) and not is_float(t):
                return "((%s += 1.5) > 10.0)" % v
            if y < 0.5:
                return r.choice(["%s++", "%s--", "++%s", "--%s", "(%s)++"]) % v
            if y < 0.75:
                return "(%s = %s)" % (v, self.expr(vt, d - 1, pure))
            ops = ["+=", "-=", "*="] + ([] if is_float(vt) else ["|=", "&=", "^="])
            return "(%s %s %s)" % (v, r.choice(ops), self.expr(vt, d - 1, pure))
        if k < 0.95 and self.funcs and c.get("calls", True):
            f = r.choice(self.funcs)
            if f[1] == "void" or (is_float(f[1]) and not is_float(t)):
                return None
            return "%s(%s)" % (f[0], ", ".join(self.expr(pt, min(1, d - 1), pure) for pt in f[2]))
        a = self.expr("int", d - 1, pure)
        return "(ev(%d), %s)" % (self.key(), a)

    # ---- statements
    def fullctx(self, sc, impure=True):
        """Context for one full expression: readable and (disjoint) modifiable variables."""
        r = self.r
        vs = list(sc["vars"])
        mod = []
        if impure and len(vs) > 3 and r.random() < 0.5:
            locs = [v for v in vs if v[2]]
            r.shuffle(locs)
            mod = [(v[0], v[1]) for v in locs[:2]]
            drop = {v[0] for v in locs[:2]}
            vs = [v for v in vs if v[0] not in drop]
        usesglob = impure and r.random() < 0.5
        # calls may modify globals, so globals are only readable when calls are off
        calls = not usesglob
        vs = [(v[0], v[1]) for v in vs if not (calls and v[0] in self.gnames)]
        return {"vars": vs, "imp": mod if impure else None, "calls": calls and impure and sc.get("calls", True)}

    def ind(self, n):
        return "  " * n

    def block(self, sc, n, depth, lvl):
        out = []
        inner = dict(sc)
        inner["vars"] = list(sc["vars"])
        for _ in range(n):
            out += self.stmt(inner, depth, lvl)
        return out

    def out_stmt(self, e, t, lvl):
        if is_float(t):
            f = "out_l" if t == "long double" else "out_f"
        elif t.startswith("unsigned") or t in ("char16_t", "char32_t") or is_bool(t):
            f = "out_u"
        else:
            f = "out_i"
        return "%s%s(%d, %s);" % (self.ind(lvl), f, self.key(), e)

    def stmt(self, sc, depth, lvl):
        r = self.r
        I = self.ind(lvl)
        x = r.random()
        c = self.fullctx(sc)
        if x < 0.16:
            t = self.pick_type()
            v = self.name()
            q = r.choice(["", "", "", "", "volatile ", "const "])
            e = self.expr(t, 2, c)
            if self.cpp and r.random() < 0.25:
                s = "%s%s%s %s(%s);" % (I, q, t, v, e)
            elif self.cpp and r.random() < 0.12:
                s = "%s%s%s %s{static_cast<%s>(%s)};" % (I, q, t, v, t, e)
            else:
                s = "%s%s%s %s = %s;" % (I, q, t, v, e)
            sc["vars"].append((v, t, q != "const "))
            return [s]
        if x < 0.30:
            w = [v for v in sc["vars"] if v[2]]
            if w:
                v, vt, _ = r.choice(w)
                cc = dict(c)
                cc["vars"] = [y for y in c["vars"]]
                if cc["imp"]:
                    cc["imp"] = [y for y in cc["imp"] if y[0] != v]
                if "[" in v:
                    cc["imp"] = []
                    cc["calls"] = False
                y = r.random()
                if y < 0.5:
                    return ["%s%s = %s;" % (I, v, self.expr(vt, 2, cc))]
                if y < 0.62 and not is_bool(vt):
                    return [I + r.choice(["%s++;", "--%s;", "++%s;", "%s--;"]) % v]
                if is_bool(vt):
                    return ["%s%s %s %s;" % (I, v, r.choice(["|=", "&=", "^="]), self.expr(vt, 1, cc))]
                if is_float(vt):
                    return ["%s%s %s %s;" % (I, v, r.choice(["+=", "-=", "*="]), self.expr(vt, 1, cc))]
                op = r.choice(["+=", "-=", "*=", "|=", "&=", "^=", ">>=", "/=", "%="])
                if op == ">>=":
                    return ["%s%s >>= %s;" % (I, v, r.choice("0123"))]
                if op in ("/=", "%="):
                    return ["%s%s %s %s;" % (I, v, op, r.choice("1237"))]
                rt = vt if r.random() < 0.6 else self.int_type()
                return ["%s%s %s %s;" % (I, v, op, self.expr(rt, 1, cc))]
        if x < 0.42:
            t = self.pick_type()
            return [self.out_stmt(self.expr(t, 2, c), t, lvl)]
        if x < 0.47:
            return ["%sev(%d);" % (I, self.key())]
        if x < 0.50 and self.funcs and sc.get("calls", True):
            f = r.choice(self.funcs)
            c2 = self.fullctx(sc, impure=False)
            return ["%s%s(%s);" % (I, f[0], ", ".join(self.expr(p, 1, c2) for p in f[2]))]
        if x < 0.525:
            return [I + r.choice([";", "{ }", "/* note */ ;", "%s;" % self.expr("int", 1, self.fullctx(sc, False))])]
        if depth <= 0:
            t = self.pick_type()
            return [self.out_stmt(self.expr(t, 1, c), t, lvl)]
        if x < 0.68:
            o = ["%sif (%s) {" % (I, self.cond(2, c))] + self.block(sc, r.randint(1, 2), depth - 1, lvl + 1)
            y = r.random()
            if y < 0.3:
                return o + [I + "}"]
            if y < 0.45:
                return o + ["%s} else if (%s) {" % (I, self.cond(1, self.fullctx(sc)))] + self.block(sc, 1, depth - 1, lvl + 1) + [I + "}"]
            if y < 0.55:
                return o + [I + "} else", "%s  ev(%d);" % (I, self.key())]
            return o + [I + "} else {"] + self.block(sc, r.randint(1, 2), depth - 1, lvl + 1) + [I + "}"]
        if x < 0.80:
            i = self.name("i")
            inner = dict(sc)
            inner["vars"] = sc["vars"] + [(i, "int", False)]
            inner["loop"] = True
            n = r.randint(1, 4)
            body = [I + "  fuel();"] + self.block(inner, r.randint(1, 2), depth - 1, lvl + 1)
            if r.random() < 0.35:
                body.append("%s  if (%s) %s;" % (I, self.cond(1, self.fullctx(inner)), r.choice(["break", "continue"])))
                body.append("%s  ev(%d);" % (I, self.key()))
            y = r.random()
            if y < 0.55:
                return ["%sfor (int %s = 0; %s < %d; %s) {" % (I, i, i, n, r.choice([i + "++", "++" + i, i + " += 1"]))] + body + [I + "}"]
            if y < 0.8:
                return ["%s{" % I, "%s  int %s = 0;" % (I, i), "%s  while (%s++ < %d) {" % (I, i, n)] + ["  " + b for b in body] + [I + "  }", I + "}"]
            return ["%s{" % I, "%s  int %s = %d;" % (I, i, n), "%s  do {" % I] + ["  " + b for b in body] + ["%s  } while (--%s > 0);" % (I, i), I + "}"]
        if x < 0.88:
            o = ["%sswitch (%s) {" % (I, self.switch_expr(sc))]
            vals = r.sample([0, 1, 2, 3, 4, 5, 7], r.randint(2, 3))
            for j, v in enumerate(vals):
                o.append("%s  case %d:" % (I, v))
                if r.random() < 0.2:
                    o.append("%s  case %d:" % (I, v + 20))
                if r.random() < 0.5:
                    o.append(I + "  {")
                    o += self.block(sc, 1, depth - 1, lvl + 2)
                    o.append(I + "  }")
                else:
                    inner = dict(sc)
                    inner["vars"] = list(sc["vars"])
                    s = self.stmt_nodecl(inner, depth - 1, lvl + 2)
                    o += s
                if r.random() < 0.7:
                    o.append(I + "    break;")
            if r.random() < 0.7:
                o.append(I + "  default: ev(%d);" % self.key())
            o.append(I + "}")
            return o
        if x < 0.92:
            return [I + "{"] + self.block(sc, r.randint(1, 2), depth - 1, lvl + 1) + [I + "}"]
        if x < 0.945:
            L = self.name("L")
            return (["%sif (%s) goto %s;" % (I, self.cond(1, c), L)] +
                    [I + "{"] + self.block(sc, 1, depth - 1, lvl + 1) + [I + "}"] + ["%s%s: ev(%d);" % (I, L, self.key())])
        if x < 0.965 and sc.get("ret"):
            return ["%sif (%s) return%s;" % (I, self.cond(1, c), "" if sc["ret"] == "void" else " " + self.expr(sc["ret"], 1, self.fullctx(sc, False)))]
        if self.cpp:
            return self.cpp_stmt(sc, depth, lvl)
        return self.c_stmt(sc, depth, lvl)

    def stmt_nodecl(self, sc, depth, lvl):
        for _ in range(20):
            inner = dict(sc, vars=list(sc["vars"]))
            s = self.stmt(inner, depth, lvl)
            if len(inner["vars"]) != len(sc["vars"]):
                continue
            f = s[0].strip()
            if not any(f.startswith(t + " ") or f.startswith("volatile ") or f.startswith("const ") or f.startswith("auto")
                       for t in self.types) and "goto" not in f and not f.startswith("struct") and not f.startswith("static"):
                return s
        return ["%sev(%d);" % (self.ind(lvl), self.key())]

    def switch_expr(self, sc):
        c = self.fullctx(sc, False)
        t = self.r.choice(["int", "int", "unsigned int", "long", "char", "short"])
        return "%s & 7" % self.prim(t, 1, c)

    def c_stmt(self, sc, depth, lvl):
        r = self.r
        I = self.ind(lvl)
        y = r.random()
        c = self.fullctx(sc, False)
        if y < 0.3:
            n = r.randint(2, 4)
            a = self.name("a")
            t = self.int_type()
            s = ["%s%s %s[%d] = {%s};" % (I, t, a, n, ", ".join(self.expr(t, 1, c) for _ in range(r.randint(1, n))))]
            for j in range(n):
                sc["vars"].append(("%s[%d]" % (a, j), t, True))
            return s
        if y < 0.5:
            v = self.name("cl")
            return ["%sstruct S %s = (struct S){.a = %s, .b = %s};" % (I, v, self.expr("int", 1, c), self.expr("double", 1, c)),
                    self.out_stmt("%s.a" % v, "int", lvl), self.out_stmt("%s.b" % v, "double", lvl)]
        if y < 0.7:
            v = self.name("vla")
            i = self.name("i")
            return ["%sint %s[(%s & 3) + 1];" % (I, v, self.prim("int", 0, c)),
                    "%sfor (unsigned long %s = 0; %s < sizeof(%s) / sizeof(%s[0]); %s++) { fuel(); %s[%s] = (int)%s; }" % (I, i, i, v, v, i, v, i, i),
                    self.out_stmt("%s[0]" % v, "int", lvl), self.out_stmt("sizeof(%s)" % v, "unsigned long", lvl)]
        p = self.name("p")
        w = [v for v in sc["vars"] if v[2] and "." not in v[0] and "[" not in v[0] and not v[0].startswith("*")]
        if w:
            v = r.choice(w)
            return ["%svolatile %s* %s = &%s;" % (I, v[1], p, v[0]), "%s*%s = %s;" % (I, p, self.expr(v[1], 1, c)),
                    self.out_stmt("*%s" % p, v[1], lvl)]
        return ["%sev(%d);" % (I, self.key())]

    def cpp_stmt(self, sc, depth, lvl):
        r = self.r
        I = self.ind(lvl)
        y = r.random()
        c = self.fullctx(sc, False)
        w = [v for v in sc["vars"] if v[2] and v[0].isidentifier()]
        if y < 0.2 and w:
            v = r.choice(w)
            n = self.name("rf")
            s = ["%svolatile %s& %s = %s;" % (I, v[1], n, v[0]), "%s%s = %s;" % (I, n, self.expr(v[1], 1, c))]
            return s + [self.out_stmt(n, v[1], lvl)]
        if y < 0.4:
            l = self.name("lm")
            return ["%sauto %s = [&](int q) -> int { ev(%d); return q %s %s; };" % (I, l, self.key(), r.choice("+-*"), self.prim("int", 1, c)),
                    self.out_stmt("%s(%s)" % (l, self.expr("int", 1, c)), "int", lvl)]
        if y < 0.55:
            v = self.name("g")
            return ["%s{ Guard %s(%d); %s }" % (I, v, self.key(), self.stmt_nodecl(dict(sc, vars=list(sc["vars"])), 0, 0)[0].strip())]
        if y < 0.7:
            return [I + "try {", "%s  if (%s) throw %s;" % (I, self.cond(1, c), self.expr("int", 1, c)),
                    "%s  ev(%d);" % (I, self.key()), I + "} catch (int ex) {", self.out_stmt("ex + 1", "int", lvl + 1), I + "}"]
        if y < 0.85:
            n = r.randint(2, 4)
            a, e = self.name("a"), self.name("el")
            t = r.choice(["int", "unsigned int", "long", "short"])
            return ["%s%s %s[] = {%s};" % (I, t, a, ", ".join("static_cast<%s>(%s)" % (t, self.expr(t, 1, c)) for _ in range(n))),
                    "%sfor (auto& %s : %s) { fuel(); %s += 1; %s }" % (I, e, a, e, self.out_stmt(e, t, 0))]
        return [self.out_stmt("tmul<%s>(%s, %s)" % (r.choice(["int", "long", "unsigned int"]), self.expr("int", 1, c), self.expr("int", 1, c)), "long", lvl)]

    def func(self, nstmt, static):
        r = self.r
        ret = r.choice(["void"] + [self.pick_type() for _ in range(5)])
        ps = [self.pick_type() for _ in range(r.randint(0, 3))]
        f = self.name("f")
        sc = {"vars": [(g[0], g[1], True) for g in self.globals], "ret": ret, "calls": True}
        names = []
        for p in ps:
            n = self.name("p")
            names.append(n)
            sc["vars"].append((n, p, True))
        head = "%s%s %s(%s) {" % ("static " if static else "", ret, f, ", ".join("%s %s" % (t, n) for t, n in zip(ps, names)) or ("" if self.cpp else "void"))
        body = []
        for _ in range(nstmt):
            body += self.stmt(sc, 2, 1)
        if ret != "void":
            body.append("  return %s;" % self.expr(ret, 2, self.fullctx(sc)))
        self.funcs.append((f, ret, ps))
        return [head] + body + ["}", ""]

    PRE_C = ["struct S { int a; double b; unsigned c : 3; int d : 5; };", "enum E { E0, E1 = 5, E2 };", "#define TWO 2", "#define ADD(x, y) ((x) + (y))",
             "#define BUMP(x) ((x) * TWO + 1)"]
    PRE_CPP = ["struct Guard { int k; explicit Guard(int kk) : k(kk + 1) { ev(k); } ~Guard() { ev(k * 2); } };",
               "template <typename T> static T tmul(T a, T b) { if (a > b) { return a * b; } return a - b; }"]

    def file(self, fid, ext_funcs, entry, nfun=None):
        """One translation unit. Returns its text and the prototypes it exports."""
        r = self.r
        o = ['#include "vt.h"', ""]
        o += [l for l in self.PRE_C]
        if self.cpp:
            o += self.PRE_CPP
        o.append("")
        self.globals = []
        self.gnames = set()
        for _ in range(r.randint(2, 4)):
            t = self.pick_type()
            g = self.name("g")
            q = "volatile " if r.random() < 0.15 else ""
            o.append("static %s%s %s = %s;" % (q, t, g, self.lit(t)))
            self.globals.append((g, t))
        st = self.name("st")
        o.append("static struct S %s = { 3, 1.5, 2, -3 };" % st)
        arr = self.name("ga")
        at = self.int_type()
        o.append("static %s %s[4] = { 1, 0, 1, 1 };" % (at, arr))
        self.globals += [(st + ".a", "int"), (st + ".b", "double"), (st + ".c", "unsigned int"), (st + ".d", "int"),
                         (arr + "[0]", at), (arr + "[2]", at)]
        self.gnames = {g[0] for g in self.globals}
        o.append("")
        self.funcs = list(ext_funcs)
        exports = []
        for f in ext_funcs:
            o.append("%s%s %s(%s);" % ("", f[1], f[0], ", ".join(f[2]) or "void"))
        n = nfun or r.randint(2, 4)
        for i in range(n):
            stat = r.random() < 0.6
            o += self.func(max(2, int(r.randint(3, 6) * self.size)), stat)
            if not stat:
                exports.append(self.funcs[-1])
        self.exports = exports
        sc_vars = [(g[0], g[1]) for g in self.globals]
        if entry:
            if self.cpp:
                o.append('extern "C" void vt_main(void) {')
            else:
                o.append("void vt_main(void) {")
            for f in self.funcs:
                for _ in range(2):
                    args = []
                    for p in f[2]:
                        args.append("(%s)vt_input(%d)" % (p, self.key()))
                    call = "%s(%s)" % (f[0], ", ".join(args))
                    # at most one vt_input per call keeps argument order irrelevant to the trace
                    if f[1] == "void":
                        o.append("  %s;" % call)
                    else:
                        o.append(self.out_stmt(call, f[1], 1))
            o.append("  out_i(%d, (int)E1 + BUMP(%s) + ADD(TWO, 3));" % (self.key(), "1"))
            for g, t in self.globals:
                o.append(self.out_stmt(g, t, 1))
            o.append("}")
        else:
            fn = self.name("show")
            o.append("void %s(%s) {" % (fn, "" if self.cpp else "void"))
            for g, t in self.globals:
                o.append(self.out_stmt(g, t, 1))
            o.append("}")
            exports.append((fn, "void", []))
        return "\n".join(o) + "\n", exports


def program(seed, lang, nfiles=1, size=1.0, exotic=True):
    """Returns {filename: text} with the entry file last."""
    rng = random.Random("gen/%s/%s/%s" % (lang, nfiles, seed))
    g = Gen(rng, lang, size, exotic)
    ext = "cc" if lang == "cpp" else "c"
    files = {}
    exported = []
    for i in range(nfiles):
        txt, ex = g.file(i, exported, i == nfiles - 1, None if nfiles == 1 else rng.randint(1, 2))
        exported = exported + ex
        files["m%d.%s" % (i, ext)] = txt
    return files


# ---------------------------------------------------------------- matrix

BIN_ARITH = ["+", "-", "*", "/"]
BIN_INT = ["%", "&", "|", "^", "<<", ">>"]
BIN_REL = ["<", ">", "<=", ">=", "==", "!="]
BIN_LOG = ["&&", "||"]
ASSIGNS = ["=", "+=", "-=", "*=", "/="]
ASSIGNS_INT = ["%=", "&=", "|=", "^=", "<<=", ">>="]
RV_SHAPES = ["var", "lit0", "lit1", "litm1", "lit2", "const", "volatile", "bitfield", "arr", "ptr", "mem", "paren", "call", "comma",
             "sum", "neg", "enum", "arrow", "cast", "global", "static", "not"]
LV_SHAPES = ["var", "volatile", "bitfield", "arr", "ptr", "mem", "paren", "arrow", "global", "static"]
RV_CPP = ["ref", "cref", "constexpr", "refcall", "brace", "tmp", "lambda"]
LV_CPP = ["ref", "refcall", "condlv", "asglv", "inclv", "commalv"]
CONTEXTS = ["ret", "ret", "init", "cond", "arg", "idx", "tern", "cast", "assign", "switch", "not", "stmt", "while", "listinit", "logic", "paren", "ternc"]


class Matrix:
    def __init__(self, lang, rng):
        self.cpp = lang == "cpp"
        self.r = rng
        self.types = (INTS_CPP if self.cpp else INTS_C) + FLOATS
        self.n = 0
        self.calls = []
        self.body = []
        self.k = 0
        self.globals = {}
        self.ids = set()

    def lit(self, t, v):
        if is_float(t):
            s = "%d.0" % abs(v)
            s += {"float": "f", "double": "", "long double": "L"}[t]
            return ("-" if v < 0 else "") + s
        if is_bool(t):
            return ("true" if v else "false") if self.cpp else ("1" if v else "0")
        return "%d%s" % (v, {"unsigned int": "u", "long": "L", "unsigned long": "UL", "long long": "LL", "unsigned long long": "ULL"}.get(t, "") if v >= 0 else "")

    def glob(self, t):
        if t not in self.globals:
            self.globals[t] = "gm%d" % len(self.globals)
        return self.globals[t]

    def operand(self, shape, t, v, decls, tag):
        """Text of an operand of type t whose value is that of parameter v."""
        d = decls.append
        c = t + " "
        if shape == "var":
            return v
        if shape.startswith("lit"):
            n = {"lit0": 0, "lit1": 1, "litm1": -1, "lit2": 2}[shape]
            if is_bool(t):
                n = 1 if n else 0
            s = self.lit(t, n)
            if t in ("char", "signed char", "unsigned char", "short", "unsigned short", "__int128", "unsigned __int128", "wchar_t", "char16_t", "char32_t"):
                return "(%s)%s" % (t, s) if self.r.random() < 0.5 else s
            return s
        if shape == "const":
            d("const %s k%s = %s;" % (t, tag, self.lit(t, 1)))
            return "k" + tag
        if shape == "constexpr":
            d("constexpr %s x%s = %s;" % (t, tag, self.lit(t, 2) if not is_bool(t) else "true"))
            return "x" + tag
        if shape == "volatile":
            d("volatile %s o%s = %s;" % (t, tag, v))
            return "o" + tag
        if shape == "bitfield":
            if is_float(t) or "128" in t:
                return v
            w = 1 if is_bool(t) else 5
            d("struct { %s f : %d; } b%s; b%s.f = %s;" % (t, w, tag, tag, v))
            return "b%s.f" % tag
        if shape == "arr":
            d("%s a%s[2] = {%s, %s};" % (t, tag, v, v))
            return "a%s[1]" % tag
        if shape == "ptr":
            d("%s* p%s = &%s;" % (t, tag, v))
            return "*p" + tag if self.r.random() < 0.5 else "p%s[0]" % tag
        if shape == "mem":
            d("struct { int pad; %s m; } s%s; s%s.m = %s;" % (t, tag, tag, v))
            return "s%s.m" % tag
        if shape == "arrow":
            d("struct { int pad; %s m; } t%s, *q%s = &t%s; t%s.m = %s;" % (t, tag, tag, tag, tag, v))
            return "q%s->m" % tag
        if shape == "global":
            d("%s = %s;" % (self.glob(t), v))
            return self.glob(t)
        if shape == "static":
            d("static %s z%s; z%s = %s;" % (t, tag, tag, v))
            return "z" + tag
        if shape == "paren":
            return "((%s))" % v
        if shape == "call":
            self.ids.add(t)
            return "id_%s(%s)" % (t.replace(" ", "_"), v)
        if shape == "comma":
            return "(ev(3), %s)" % v
        if shape == "sum":
            return "(%s + %s)" % (v, v)
        if shape == "neg":
            return "-%s" % v if tag == "R" else "(-%s)" % v
        if shape == "not":
            return "!%s" % v
        if shape == "enum":
            return "MK"
        if shape == "cast":
            return "(%s)(%s * 1)" % (t, v)
        if shape == "ref":
            d("%s& r%s = %s;" % (t, tag, v))
            return "r" + tag
        if shape == "cref":
            d("const %s& c%s = %s;" % (t, tag, v))
            return "c" + tag
        if shape == "refcall":
            self.ids.add(t)
            return "rf(%s)" % v
        if shape == "brace":
            return "%s{%s}" % ("T" + tag, v) if not d("using T%s = %s;" % (tag, t)) else ""
        if shape == "tmp":
            return "Box<%s>{%s}.v" % (t, v)
        if shape == "lambda":
            return "[&] { return %s; }()" % v
        if shape == "condlv":
            d("%s e%s = %s;" % (t, tag, v))
            return "(%s ? %s : e%s)" % (v, v, tag)
        if shape == "asglv":
            return "(%s = %s)" % (v, v)
        if shape == "inclv":
            return v if is_bool(t) else "(++%s)" % v
        if shape == "commalv":
            return "(ev(4), %s)" % v
        raise ValueError(shape)

    def out(self, e, t):
        self.k += 1
        k = self.k
        if is_float(t):
            return "%s(%d, %s);" % ("out_l" if t == "long double" else "out_f", k, e)
        if "128" in t:
            return "out_i(%d, (long long)(%s));" % (k, e)
        if t.startswith("unsigned") or t in ("char16_t", "char32_t") or is_bool(t):
            return "out_u(%d, %s);" % (k, e)
        return "out_i(%d, %s);" % (k, e)

    def use(self, e, ctx, isf, rt):
        """Statements that use expression e of arithmetic type in a context; they end in a return."""
        r = self.r
        if ctx == "ret":
            return "return %s;" % e
        if ctx == "init":
            return "%s y = %s; return y;" % (rt, e)
        if ctx == "listinit":
            return "%s y[2] = {%s, 0}; return y[0];" % (rt, e) if not self.cpp else "%s y[2] = {(%s)(%s), 0}; return y[0];" % (rt, rt, e)
        if ctx == "cond":
            return "if (%s) return 1; return 0;" % e
        if ctx == "while":
            return "int w = 0; while (%s) { fuel(); if (++w > 2) break; } return w;" % e
        if ctx == "arg":
            return "return %s(%s);" % ("id_double" if isf else "id_long", e)
        if ctx == "idx" and not isf:
            return "int y[4] = {1, 2, 3, 4}; return y[(%s) & 3];" % e
        if ctx == "tern":
            return "return %s ? 5 : 6;" % (e if r.random() < 0.5 else "(%s)" % e)
        if ctx == "ternc":
            return "return a ? %s : 6;" % e
        if ctx == "cast":
            return "return (%s)(%s);" % (r.choice(["int", "double", "float"] if isf else ["int", "long", "unsigned char", "short"]), e)
        if ctx == "assign":
            return "%s y; y = %s; return y;" % (rt, e)
        if ctx == "switch" and not isf:
            return "switch ((%s) & 3) { case 1: return 5; case 2: return 6; default: return 7; }" % e
        if ctx == "not":
            return "return !(%s);" % e
        if ctx == "logic":
            return "return (%s) %s (b > 0);" % (e, r.choice(["&&", "||"]))
        if ctx == "stmt":
            return "%s; return (%s)a;" % (e, rt)
        if ctx == "paren":
            return "return (((%s)));" % e
        return "return %s;" % e

    def func(self, spec):
        self.n += 1
        kind, op, t, u, sl, sr, ctx = spec
        decls = []
        name = "f%d" % self.n
        isf = is_float(t) or is_float(u)
        vals = [(5, 3), (0, 1), (1, 1), (2, 3)]
        if kind == "bin":
            if op in ("/", "%"):
                if sr in ("lit0", "not"):
                    sr = "lit2"
                if sr == "comma":
                    sr = "var"
            if op in ("<<", ">>"):
                if sr in ("litm1", "neg"):
                    sr = "lit1"
                if sl in ("neg", "litm1"):
                    sl = "var"
            if sl == "comma" or sl == "asglv" or sl == "inclv":
                sr = "var" if sr == "comma" else sr
            L = self.operand(sl, t, "a", decls, "L")
            R = self.operand(sr, u, "b", decls, "R")
            e = "%s %s %s" % (L, op, R)
            rel = op in BIN_REL or op in BIN_LOG
            rt = "int" if rel else ("long double" if "long double" in (t, u) else "double" if isf else "__int128" if "128" in t + u else "long")
            if rel:
                isf = False
        elif kind == "asg":
            if op in ("/=", "%=") and sr in ("lit0", "not", "comma"):
                sr = "lit2"
            if op in ("<<=", ">>=") and sr in ("litm1", "neg", "comma"):
                sr = "lit1"
            if sl in ("asglv", "inclv", "commalv", "condlv"):
                sr = "lit1" if sr not in ("lit2", "const") else sr
                if op != "=" and sl == "asglv":
                    sl = "var"
            L = self.operand(sl, t, "a", decls, "L")
            R = self.operand(sr, u, "b", decls, "R")
            if is_float(u) and not is_float(t):
                if sr in ("neg", "litm1"):
                    R = "b"
                if op in ("-=", "/="):
                    op = "+="
            e = "%s %s %s" % (L, op, R)
            if ctx in ("cond", "while", "tern", "not", "switch", "idx", "logic", "ternc", "arg", "cast", "paren"):
                e = "(%s)" % e
            isf = is_float(t)
            rt = "long double" if t == "long double" else "double" if isf else "__int128" if "128" in t else "long"
            if ctx == "stmt":
                ctx = "stmtL"
        else:
            L = self.operand(sl, t, "a", decls, "L")
            if op.startswith("post"):
                e = "%s%s" % (L if L[0] != "*" else "(%s)" % L, op[4:])
            elif op in ("++", "--"):
                e = "%s%s" % (op, L)
            else:
                e = "%s%s" % (op, L if L[0] not in "-+&" else "(%s)" % L)
                if sl in ("sum",):
                    e = "%s%s" % (op, L)
            isf = is_float(t) and op != "!"
            rt = "int" if op == "!" else "long double" if t == "long double" else "double" if is_float(t) else "__int128" if "128" in t else "long"
            if ctx == "stmt" and op in ("++", "--", "post++", "post--"):
                ctx = "stmtL"
        if ctx == "stmtL":
            body = "%s; return %s;" % (e, L if sl not in ("asglv", "inclv", "commalv", "condlv") else "a")
            rt2 = rt
        else:
            body = self.use(e, ctx, isf, rt)
            rt2 = rt
        self.body.append("static %s %s(%s a, %s b) { %s %s }" % (rt2, name, t, u, " ".join(decls), body))
        for (x, y) in vals:
            if is_bool(t):
                x = x & 1
            if is_bool(u):
                y = 1 if kind != "bin" or op in ("/", "%") else y & 1
            if kind == "asg" and is_float(u) and not is_float(t):
                y = 1
            if op in ("<<=", "<<") and "char" in t:
                x = x & 1
            self.calls.append(self.out("%s(%d, %d)" % (name, x, y), rt2))
        if kind == "bin" and (op in BIN_REL + ["+", "-", "&", "|", "^"]) and not is_bool(t) and not t.startswith("unsigned"):
            self.calls.append(self.out("%s(-3, %d)" % (name, 1), rt2))

    def text(self):
        o = ['#include "vt.h"', "enum { MK = 3 };"]
        if self.cpp:
            o.append("template <typename T> struct Box { T v; };")
            o.append("template <typename T> static T& rf(T& x) { ev(9); return x; }")
        for t in sorted(self.ids | {"long", "double"}):
            o.append("static %s id_%s(%s x) { ev(8); return x; }" % (t, t.replace(" ", "_"), t))
        for t, g in sorted(self.globals.items()):
            o.append("static %s %s;" % (t, g))
        o += self.body
        o.append(('extern "C" ' if self.cpp else "") + "void vt_main(void) {")
        for c in self.calls:
            o.append("  " + c)
        o.append("}")
        return "\n".join(o) + "\n"


def matrix(lang, seed, full=False, per=None):
    """Enumerates operators x types x operand shapes x contexts; returns [(name, files)].
    Every (operator, type) pair occurs in the full set; a quick run takes a sample that covers
    every operator, every type and every shape."""
    rng = random.Random("matrix/%s/%s" % (lang, seed))
    m0 = Matrix(lang, rng)
    cpp = lang == "cpp"
    rvs = RV_SHAPES + (RV_CPP if cpp else [])
    lvs = LV_SHAPES + (LV_CPP if cpp else [])
    specs = []
    reps = 3 if full else 1
    for _ in range(reps):
        for t in m0.types:
            ops = BIN_ARITH + BIN_REL + BIN_LOG + ([] if is_float(t) else BIN_INT)
            for op in ops:
                u = t if rng.random() < 0.6 else rng.choice([x for x in m0.types if not (op in BIN_INT and is_float(x))])
                specs.append(("bin", op, t, u, rng.choice(rvs), rng.choice(rvs), rng.choice(CONTEXTS)))
            for op in ASSIGNS + ([] if is_float(t) else ASSIGNS_INT):
                if is_bool(t) and op in ("<<=",):
                    pass
                u = t if rng.random() < 0.6 else rng.choice([x for x in m0.types if not (op in ASSIGNS_INT and is_float(x))])
                specs.append(("asg", op, t, u, rng.choice(lvs), rng.choice(rvs), rng.choice(CONTEXTS + ["stmt"] * 4)))
            for op in (["++", "--", "post++", "post--"] if not is_bool(t) else []):
                specs.append(("un", op, t, "int", rng.choice(lvs), None, rng.choice(CONTEXTS + ["stmt"] * 4)))
            for op in ["-", "!", "+"] + ([] if is_float(t) else ["~"]):
                specs.append(("un", op, t, "int", rng.choice(rvs), None, rng.choice(CONTEXTS)))
    rng.shuffle(specs)
    per = per or (40 if cpp else 80)
    if not full:
        # operators first, so that the sample holds each of them
        seen = {}
        specs.sort(key=lambda s: seen.setdefault((s[0], s[1]), []).append(1) or len(seen[(s[0], s[1])]))
        specs = specs[:per * 3]
        rng.shuffle(specs)
    out = []
    for i in range(0, len(specs), per):
        m = Matrix(lang, rng)
        for s in specs[i:i + per]:
            m.func(s)
        out.append(("%d" % (i // per), {"mx%d.%s" % (i // per, "cc" if cpp else "c"): m.text()}))
    return out
