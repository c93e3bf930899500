"""Sources that put every shape of constant operand, qualifier and type next to each other in one
file, so that the mutator functions which dredd shares between them meet."""

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
        "unsigned long long", "__int128", "unsigned __int128"]
FLOATS = ["float", "double", "long double"]
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
INTONLY = {"%", "<<", ">>", "&", "|", "^"}
SFX = {"unsigned int": "u", "long": "l", "unsigned long": "ul", "long long": "ll", "unsigned long long": "ull", "float": "f", "long double": "L"}


def lits(t):
    s = SFX.get(t, "")
    if t in FLOATS:
        return ["0.0" + s, "1.0" + s, "-1.0" + s]
    if t in ("bool", "_Bool"):
        return ["false", "true", "0", "1"] if t == "bool" else ["0", "1", "-1"]
    return ["0" + s, "1" + s, "-1" + s]


def pair(t, u, ops, tag):
    """Functions over operands of types t and u for every combination of variable and constant."""
    out = []
    for k, op in enumerate(ops):
        if op in INTONLY and (t in FLOATS or u in FLOATS):
            continue
        ls = ["a"] + lits(t)
        rs = ["b"] + lits(u)
        body = "".join("  s += (%s %s %s);\n" % (l, op, r) for l in ls for r in rs)
        out.append("double %s_%d(%s a, %s b) { double s = 0;\n%s  return s; }\n" % (tag, k, t, u, body))
    return "".join(out)


def unary(t, tag):
    fl = t in FLOATS
    e = ["a", "(a)"] + lits(t) + ["(%s)" % x for x in lits(t)]
    body = "".join("  s += %s(%s);\n" % (op, x) for op in (["-", "!"] if fl else ["-", "!", "~"]) for x in e)
    return "double %s_u(%s a) { double s = 0;\n%s  return s; }\n" % (tag, t, body)


def lvalues(t, u, tag, cpp):
    """Assignments, increments and reads of plain, volatile and const objects of one type."""
    fl = t in FLOATS or u in FLOATS
    ops = ["=", "+=", "-=", "*=", "/="] + ([] if fl else ["%=", "<<=", ">>=", "&=", "|=", "^="])
    rs = ["b", "w"] + lits(u)
    isb = t in ("bool", "_Bool")
    body = "".join("  %s %s %s;\n" % (l, op, r) for l in ("x", "v") for op in ops for r in rs)
    if not isb:
        body += "".join("  s += (%s);\n  %s;\n" % (i % l, i % l) for l in ("x", "v") for i in ("++%s", "--%s", "%s++", "%s--"))
    body += "  s += x; s += v; s += c; s += -c; s += -v; s += !x; s += c + v; s += v + x; s += (x = c); s += (v = x); s += (c, v); s += x ? c : x;\n"
    ref = "".join("  { %s& r = x; r += b; s += r; const %s& k = x; s += k + c; s += -k; }\n" % (t, t) for _ in range(1)) if cpp else ""
    if fl:
        body = body.replace("~", "-")
    return "double %s_l(%s x, %s b, const %s c) { double s = 0; volatile %s v = x; volatile %s w = b;\n%s%s  return s; }\n" % (tag, t, u, t, t, u, body, ref)


def clash(lang):
    """[(name, flags, bytes)]"""
    cpp = lang == "cpp"
    ext = "cc" if cpp else "c"
    types = ["bool" if cpp else "_Bool"] + INTS + FLOATS
    out = []
    for i, t in enumerate(types):
        out.append(("k_%d.%s" % (i, ext), [], (pair(t, t, BIN, "p%d" % i) + unary(t, "p%d" % i) + lvalues(t, t, "p%d" % i, cpp)).encode()))
    mixed = [("int", "double"), ("double", "int"), ("unsigned int", "int"), ("int", "unsigned long"), ("long", "int"), ("char", "int"), ("float", "double"),
             ("double", "long double"), ("bool" if cpp else "_Bool", "int"), ("unsigned char", "long long"), ("float", "unsigned long long")]
    for j in range(0, len(mixed), 3):
        txt = ""
        for k, (t, u) in enumerate(mixed[j:j + 3]):
            tag = "m%d_%d" % (j, k)
            txt += pair(t, u, BIN, tag) + lvalues(t, u, tag, cpp)
        out.append(("k_m%d.%s" % (j, ext), [], txt.encode()))
    return out
