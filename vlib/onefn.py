"""Programs of many independent one-expression functions, each evaluated on a grid of inputs by a
driver that dredd never sees.  Because the functions are independent, one run with one mutant of
every function enabled observes all of them."""
import os
import re

from . import core, dr, work

INTGRID = ["-3", "-2", "-1", "0", "1", "2", "3", "7", "100"]
FGRID = ["-2.5", "-1.0", "-0.5", "0.5", "1.0", "1.5", "2.0", "3.25"]
EXTREME = {"int": ["2147483647", "(-2147483647-1)"], "unsigned int": ["4294967295u", "2147483648u"], "long": ["9223372036854775807L", "(-9223372036854775807L-1)", "4294967296L"],
           "unsigned long": ["18446744073709551615UL", "4294967296UL"], "long long": ["9223372036854775807LL", "-4294967296LL"],
           "unsigned long long": ["18446744073709551615ULL", "4294967297ULL"], "char": ["127", "-128"], "signed char": ["127", "-128"], "unsigned char": ["255", "128"],
           "short": ["32767", "-32768"], "unsigned short": ["65535", "32768"]}


def is_float(t):
    return t in ("float", "double", "long double")


def grid(t):
    if t in ("bool", "_Bool"):
        return ["0", "1"]
    if is_float(t):
        return FGRID
    g = INTGRID + EXTREME.get(t, [])
    if t.startswith("unsigned"):
        g = [x for x in g if not x.startswith("-")]
    return g


def functions(lang, full=False):
    """(name, result type, [parameter types], body, family)"""
    out = []
    B = "bool" if lang == "cpp" else "_Bool"

    def f(ret, params, body, fam):
        out.append(("f%d" % len(out), ret, params, body, fam))
    ints = ["int", "unsigned int", "long", "unsigned long", "unsigned char", "short"] + (["char", "signed char", "unsigned short", "long long", "unsigned long long"] if full else [])
    floats = ["float", "double"] + (["long double"] if full else [])
    for t in ints + floats:
        for op in ("<", "<=", ">", ">=", "==", "!="):
            f("int", [t, t], "return a %s b;" % op, "rel")
            if t in ("int", "unsigned int", "double"):
                f("int", [t, t], "if (a %s b) return 10; return 20;" % op, "rel")
                f("int", [t, t], "return a %s b ? 3 : 4;" % op, "rel")
                for c in (("0", "1", "-1", "5") if not is_float(t) else ("0.0", "1.0", "-1.0", "0.5")):
                    f("int", [t], "return a %s %s;" % (op, c), "rel")
                    f("int", [t], "return %s %s a;" % (c, op), "rel")
    for op in ("<", ">=", "==", "!="):
        f("int", ["int", "long"], "return a %s b;" % op, "rel")
        f("int", ["int", "double"], "return a %s b;" % op, "rel")
        f("int", [B, B], "return a %s b;" % op, "rel")
        f("int", ["int", "int", "int"], "return (a %s b) %s c;" % (op, "&&" if lang == "cpp" else "=="), "rel")
    for op in ("&&", "||"):
        for t in (B, "int", "unsigned char", "double"):
            f("int", [t, t], "return a %s b;" % op, "log")
            f("int", [t, t], "if (a %s b) return 10; return 20;" % op, "log")
            f("int", [t, t], "return !(a %s b);" % op, "log")
        f("int", ["int", "int"], "return a > 1 %s b < 2;" % op, "log")
        f("int", ["int", "int", "int"], "return a %s b %s c;" % (op, op), "log")
        f("int", ["int", "int", "int"], "return a && b || c;", "log")
        f("int", [B], "return a %s %s;" % (op, "true" if lang == "cpp" else "1"), "log")
        f("int", [B], "return %s %s a;" % ("false" if lang == "cpp" else "0", op), "log")
        f("int", ["int"], "return a %s 1;" % op, "log")
    consts = {"int": ["0", "1", "-1", "2", "5", "-7", "2147483647", "1-1", "3-2", "1-2", "~0", "!0", "!5", "-(-1)"],
              "unsigned int": ["0u", "1u", "4294967295u", "2u", "5-4u"],
              "long": ["0L", "1L", "-1L", "4294967296L", "-4294967297L", "4294967295L", "9223372036854775807L", "0x100000001L"],
              "unsigned long": ["0UL", "1UL", "18446744073709551615UL", "4294967296UL", "4294967295UL", "0x100000000UL", "0xffffffff00000000UL", "0xffffffff00000001UL"],
              "long long": ["0LL", "-1LL", "4294967297LL", "-4294967296LL"], "unsigned long long": ["18446744073709551615ULL", "4294967297ULL"],
              "char": ["'\\0'", "'\\1'", "'a'"], "short": ["0", "1", "-1", "-32768"], "unsigned char": ["0", "1", "255"], "unsigned short": ["65535", "1"],
              B: ["0", "1"] + (["true", "false", "!true", "!false"] if lang == "cpp" else []),
              "float": ["0.0f", "1.0f", "-1.0f", "0.5f", "2.0f"], "double": ["0.0", "1.0", "-1.0", "0.1", "1e300", "-0.5", "1.0000000000000002"],
              "long double": ["0.0L", "1.0L", "-1.0L", "0.25L"],
              "__int128": ["0", "-1", "((__int128)1 << 64)", "(((__int128)1 << 64) + 1)", "(-((__int128)1 << 64) - 1)"],
              "unsigned __int128": ["((unsigned __int128)1 << 64)", "~(unsigned __int128)0", "(((unsigned __int128)1 << 64) | 1)"]}
    for t, cs in consts.items():
        for c in cs:
            f(t, [], "return %s;" % c, "const")
            f(t, [], "%s r = %s; return r;" % (t, c), "const")
            f("int", [t], "return a == %s;" % c, "rel")
            if t in (B, "char", "unsigned char", "short", "unsigned short"):
                continue
            for op in "+-*/" + ("" if is_float(t) else "%&|^"):
                z = c.strip("()fFuUlL") in ("0", "0.0", "1-1")
                if not (op in "/%" and z):
                    f(t, [t], "return a %s (%s);" % (op, c), "arith")
                f(t, [t], "return (%s) %s a;" % (c, op), "arith")
            for u in ("-", "!") + (() if is_float(t) else ("~",)):
                if u == "-" and t.startswith("unsigned") and "128" not in t and False:
                    continue
                f(t if u != "!" else "int", [], "return %s(%s);" % (u, c), "unary")
    for t in ("int", "unsigned int", "long", "double", "unsigned char", B):
        for u in ("-", "!") + (() if is_float(t) else ("~",)):
            if t == B and u == "~":
                continue
            f("long" if not is_float(t) else t, [t], "return %sa;" % u, "unary")
            f("long" if not is_float(t) else t, [t], "return %s(%sa);" % (u, u), "unary")
            f("long" if not is_float(t) else t, [t], "return (%sa);" % u, "unary")
    for t in ("int", "unsigned long"):
        for c in ("0", "1", "2"):
            for op in ("<<", ">>"):
                f(t, [t], "return (a & 255) %s %s;" % (op, c), "shift")
                f(t, [t], "return %s %s (a & 7);" % (c, op), "shift")
    return out


def printer(t):
    if t in ("float", "double", "long double"):
        return "printf(\"%%.17Lg \", (long double)(%s) + 0.0L)"
    if t.endswith("__int128"):
        return "p128((unsigned __int128)(%s))"
    if t in ("unsigned long", "unsigned long long"):
        return "printf(\"%%llu \", (unsigned long long)(%s))"
    return "printf(\"%%lld \", (long long)(%s))"


def program(lang, full=False, only=None):
    """({name: text of functions}, driver text, functions)"""
    fs = functions(lang, full)
    if only:
        fs = [x for x in fs if only(x)]
    ext = "c" if lang == "c" else "cc"
    src = []
    drv = ["#define _GNU_SOURCE", "#include <stdio.h>", "#include <setjmp.h>", "#include <signal.h>", "#include <string.h>",
           "static sigjmp_buf jb; static void onfpe(int s) { (void)s; siglongjmp(jb, 1); }",
           "static void p128(unsigned __int128 v) { printf(\"%llx:%llx \", (unsigned long long)(v >> 64), (unsigned long long)v); }"]
    names = "abc"
    calls = []
    for n, ret, ps, body, fam in fs:
        sig = "%s %s(%s)" % (ret, n, ", ".join("%s %s" % (t, names[i]) for i, t in enumerate(ps)) or "void")
        src.append("%s { %s }" % (sig, body))
        drv.append(sig + ";")
        loops = []
        for i, t in enumerate(ps):
            drv.append("static const %s g_%s_%d[] = {%s};" % (t, n, i, ", ".join(grid(t))))
            loops.append("for (unsigned i%d = 0; i%d < sizeof g_%s_%d / sizeof *g_%s_%d; i%d++) " % (i, i, n, i, n, i, i))
        call = "%s(%s)" % (n, ", ".join("g_%s_%d[i%d]" % (n, i, i) for i in range(len(ps))))
        drv.append("static void d_%s(void) { printf(\"%s: \"); %s{ if (sigsetjmp(jb, 1)) printf(\"trap \"); else { %s; } } printf(\"\\n\"); }" % (
            n, n, "".join(loops), printer(ret) % call))
        calls.append("d_%s();" % n)
    drv.append("int main(void) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onfpe; sa.sa_flags = SA_NODEFER; sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGSEGV, &sa, 0); %s return 0; }" % " ".join(calls))
    return {"fns." + ext: ("\n".join(src) + "\n").encode()}, ("\n".join(drv) + "\n").encode(), fs


def build(d, files, driver, out, flags=()):
    """Builds functions in d (already rewritten) with the driver."""
    ext = list(files)[0].split(".")[1]
    comp = core.CC if ext == "c" else core.CXX
    with open(os.path.join(d, "driver." + ext), "wb") as f:
        f.write(driver)
    return core.run([comp, "-w", "-O0", "-fwrapv", "-fuse-ld=lld", *flags, dr.std_of("x." + ext), os.path.join(d, list(files)[0]), os.path.join(d, "driver." + ext), "-o", out], timeout=300)


def results(text):
    """{function: [values]}"""
    out = {}
    for l in text.decode().splitlines():
        n, _, v = l.partition(": ")
        out[n] = v.split()
    return out


def by_function(muts, data):
    """{function number: [mutants]} by source line."""
    starts = dr.Src(data)
    out = {}
    for m in muts:
        out.setdefault(starts.line(m.range[0]) - 1, []).append(m)
    return out


def observe(exe, per, cwd=None):
    """per: {function name: [ids]}; -> {id: values} using one run per round."""
    res = {}
    rounds = max((len(v) for v in per.values()), default=0)

    def one(k):
        ids = {n: v[k] for n, v in per.items() if k < len(v)}
        r = core.run([exe], env={"DREDD_ENABLED_MUTATION": ",".join(map(str, ids.values()))}, cpu=20, timeout=60, cwd=cwd)
        if r.rc or r.timeout:
            return {}
        t = results(r.out)
        return {i: t[n] for n, i in ids.items() if n in t}
    for x in core.pmap(one, range(rounds)):
        res.update(x)
    return res
