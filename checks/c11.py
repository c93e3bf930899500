"""C11: only the files asked for, and that compile, are rewritten."""
import sys, os, json, hashlib, re, stat
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, report
from vlib.core import run

HEADER = b"""#ifndef H_H
#define H_H
static inline int from_header(int a) { int r = a + 1; if (r > 3) { r -= 2; } return r * 2; }
#define SQ(x) ((x) * (x) + 1)
#endif
"""
INC = b"static int from_inc(int a) { a++; return a - 2; }\n"
GOOD = {
    "g1.c": b'#include "h.h"\nint g1(int a) { int b = a * 3; if (b > 2) { b--; } return from_header(b) + SQ(a); }\n',
    "g2.c": b'#include "sub/impl.inc"\nint g2(int a) { while (a > 5) { a -= 2; } return from_inc(a) ^ 1; }\n',
    "sub/g3.c": b'#include "../h.h"\nint g3(double d) { return d * 2.0 > 1.5 ? (int)d : 0; }\n',
    "with space.c": b"int g4(unsigned u) { return (int)(u >> 2 | 1u); }\n",
    "g5.cc": b'#include "h.h"\ntemplate <typename T> T twice(T t) { return t + t; }\nint g5(int a) { return twice(a) + from_header(a) - 1; }\n',
    "sub/g6.cc": b"namespace n { struct S { int v = 1; int f(int a) { v += a; return v % 7; } }; }\nint g6(int a) { n::S s; return s.f(a) && a; }\n",
    "warn.c": b"int warn(int a) { int unused; a; return a == a; }\n",
    "crlf.c": b"int crlf(int a)\r\n{\r\n  return a + 1;\r\n}\r\n",
    "nonl.c": b"int nonl(int a) { return a - 1; }",
    "utf.c": "int utf(int a) { const char* s = \"\u00e9\u4e16\"; return s[0] + a; /* \u20ac */ }\n".encode(),
}
NOTHING = {
    "n1.c": b"int only_decl(int);\nextern int q;\n", "n2.cc": b"", "n3.c": b'#include "h.h"\nstruct Z { int a; };\nint glob = 3 + 4;\n',
    "n4.cc": b"constexpr int k = 3 + 1;\nstatic_assert(k == 4);\n", "n5.c": b"/* nothing at all */\n",
}
BAD = {
    "b1.c": b"int b1(int a) { return a + ; }\n", "b2.c": b'#include "does_not_exist.h"\nint b2(int a) { return a + 1; }\n',
    "b3.cc": b"int b3(int a) { return undeclared + a; }\nint more(int b) { return b * 2; }\n", "b4.c": b"int b4(int a) { return a + 1; }\n#error stop\n",
    "b5.cc": b"struct S { int x; };\nint b5(S s) { return s + 1; }\nint ok(int a) { return a - 1; }\n", "b6.c": b"int b6(int a) { if (a) { return 1;\n",
    "b7.c": b"int b7(int a) { return a + 1; }\nint b7(int a) { return a + 2; }\n", "sub/b8.c": b"int b8(int a) { int b = a * 2; return b; } }\n",
    "b9.c": b"_Static_assert(1 == 2, \"no\");\nint b9(int a) { return a / 3; }\n",
    # errors that clang can recover from, that come late, from elsewhere, or in numbers
    "bwerror.c": b"#pragma clang diagnostic error \"-Wunused-variable\"\nint bwerror(int a) { int unused; return a + 1; }\n",
    "bwerror2.cc": b"#pragma GCC diagnostic error \"-Wparentheses\"\nint bwerror2(int a, int b) { if (a = b) { return a - 1; } return b; }\n",
    "bimplicit.c": b"int bimplicit(int a) { return not_declared(a) + 1; }\n",
    "bconv.c": b"int *bconv(int a) { int *p = a; return p; }\nint other(int a) { return a + 1; }\n",
    "bvoid.c": b"int bvoid(int a) { if (a > 2) return; return a; }\n",
    "binst.cc": b"template <typename T> int need(T t) { return t.size() + 1; }\nint binst(int a) { return a + 1; }\nint late(int a) { return need(a); }\n",
    "btent.c": b"int btent(int a) { return a * 2; }\nstruct never late;\n",
    "bhdr.c": b'#include "badh.h"\nint bhdr(int a) { return a + 1; }\n',
    "bmany.c": b"int bmany(int a) { return a + 1; }\n" + b"int e(int a) { return a + nope; }\n" * 40,
    "sub/bcond.c": b"#if 1\nint bcond(int a) { return a + 1; }\n",
    "bsem.cc": b"struct A { virtual void f() = 0; };\nint bsem(int a) { return a + 1; }\nA mk();\nint u() { A a; return 1; }\n",
}
OTHERS = {"h.h": HEADER, "badh.h": b"int broken(int a) { return a + }\n", "sub/impl.inc": INC, "unnamed.c": b"int unnamed(int a) { return a + 7; }\n", "unnamed.cc": b"int unnamed2(int a) { return a + 7; }\n",
          "notes.txt": b"a + b\n", "g1.c.orig": b"int x(int a) { return a + 1; }\n"}


def snapshot(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[os.path.relpath(p, d)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, d)] = ("file", fh.read())
        for f in dn:
            p = os.path.join(dp, f)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ("link", os.readlink(p))
    return out


ALL = {}
for part in (GOOD, NOTHING, BAD, OTHERS):
    ALL.update(part)


MANY = {"many/f%03d.c" % i: b"int f%03d(int a) { return a + %d; }\n" % (i, i + 2) for i in range(300)}


def lay(d, many=False):
    for n, t in list(ALL.items()) + (list(MANY.items()) if many else []):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t)
    os.symlink("sub", os.path.join(d, "lnk"))


def main():
    chk = core.Check("C11")
    exe = core.build_dredd()
    T = core.THOROUGH
    rng = chk.rng
    MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",)]

    def dredd(args, cwd, opts, info=True, db=None):
        cmd = [exe, *opts]
        ij = os.path.join(cwd + ".json")
        if os.path.exists(ij):
            os.remove(ij)
        if info:
            cmd += ["--mutation-info-file", ij]
        if db:
            cmd += ["-p", db] + args
        else:
            cmd += args + ["--"]
        r = run(cmd, cwd=cwd, timeout=120)
        j = None
        if os.path.exists(ij):
            try:
                j = json.load(open(ij))
            except ValueError:
                j = None
        return r, j

    def rel(j, d):
        """The report with names relative to the tree."""
        if j is None:
            return None
        s = json.dumps(j)
        out = json.loads(s)
        for f in out.get("infoForFiles", []):
            f["filename"] = os.path.relpath(os.path.realpath(os.path.join(d, f["filename"])), os.path.realpath(d))
        return out

    # Which of the files that are meant to have something to mutate do, alone: an oracle for "contains something to mutate"
    # is the construction of the files above.

    # ---- scenarios
    scen = []
    names = list(GOOD)
    for m in MODES:
        scen.append(("all-good", names, [], m, "rel"))
        scen.append(("good-and-nothing", [x for p in zip(names, list(NOTHING) + list(NOTHING)) for x in p], [], m, "rel"))
    for i, b in enumerate(BAD):
        k = i % 3
        base = rng.sample(names, 3)
        order = base[:k] + [b] + base[k:]
        scen.append(("bad-%s" % b, order, [b], MODES[i % 3], "rel" if i % 2 else "abs"))
    scen.append(("only-bad", ["b1.c"], ["b1.c"], (), "rel"))
    scen.append(("all-bad", list(BAD), list(BAD), (), "rel"))
    scen.append(("bad-and-nothing", ["n1.c", "b1.c", "n2.cc"], ["b1.c"], (), "rel"))
    for k in range(3):
        base = rng.sample(names, 2)
        order = base[:k] + ["missing%d.c" % k] + base[k:]
        scen.append(("missing-%d" % k, order, ["missing%d.c" % k], MODES[k], ("rel", "abs", "rel")[k]))
    scen.append(("missing-and-bad", ["g1.c", "nope/none.c", "b3.cc", "g5.cc"], ["nope/none.c", "b3.cc"], (), "rel"))
    scen.append(("only-missing", ["nope.c"], ["nope.c"], (), "rel"))
    for i in range(60 if T else 14):
        g = rng.sample(names, rng.randint(1, 4))
        b = rng.sample(list(BAD), rng.randint(0, 2))
        n = rng.sample(list(NOTHING), rng.randint(0, 2))
        miss = ["gone%d.cc" % i] if i % 5 == 0 else []
        order = g + b + n + miss
        rng.shuffle(order)
        scen.append(("mix%d" % i, order, b + miss, MODES[i % 3], rng.choice(["rel", "abs"])))
    # repeated names
    tw = [("twice-rel", ["g1.c", "g1.c"], ["g1.c"]), ("twice-dot", ["g1.c", "./g1.c"], ["g1.c"]), ("twice-abs", ["@g1.c", "g1.c"], ["g1.c"]),
          ("twice-parent", ["sub/g3.c", "sub/../sub/g3.c"], ["sub/g3.c"]), ("thrice", ["g5.cc", "g1.c", "g5.cc", "./sub/../g5.cc"], ["g5.cc", "g1.c"]),
          ("twice-dirlink", ["sub/g3.c", "lnk/g3.c"], ["sub/g3.c"]), ("twice-apart", ["g1.c", "g2.c", "g1.c"], ["g1.c", "g2.c"]),
          ("twice-slashes", ["sub/g3.c", "sub//g3.c"], ["sub/g3.c"])]
    for n, order, uniq in tw:
        for m in MODES[:2]:
            scen.append((n, order, [], m, "raw", uniq))
    scen.append(("twice-bad", ["b1.c", "g1.c", "b1.c"], ["b1.c"], (), "rel"))

    # many files in one run
    scen.append(("many", list(MANY), [], (), "rel"))
    some = list(MANY)[:130]
    scen.append(("many-bad", some[:100] + ["b1.c"] + some[100:], ["b1.c"], MODES[1], "rel"))
    scen.append(("many-twice", some + some[:70], [], MODES[2], "raw", some))

    def one(sc):
        name, order, bad, mode, how = sc[:5]
        many = name.startswith("many")
        d = core.scratch("t")
        lay(d, many)
        before = snapshot(d)
        args = [os.path.join(d, a) if how == "abs" else os.path.join(d, a[1:]) if a.startswith("@") else a for a in order]
        r, j = dredd(args, d, mode)
        after = snapshot(d)
        complaints = []
        if r.timeout or r.rc is None or r.rc < 0:
            return (sc, ["dredd ended with status %s" % r.rc], d, r)
        named = sc[5] if len(sc) > 5 else list(dict.fromkeys(order))
        goods = [n for n in named if n in GOOD or n in MANY]
        if bad and r.rc == 0:
            complaints.append("exit status 0 although %s failed" % bad)
        if not bad and r.rc != 0:
            complaints.append("exit status %d although every file is fine: %s" % (r.rc, core.text(r.err, 300)))
        for b in bad:
            if os.path.basename(b).encode() not in r.err + r.out:
                complaints.append("the message does not say that %s failed" % b)
        if set(before) != set(after):
            complaints.append("files appeared or vanished: %s" % sorted(set(before) ^ set(after)))
        changed = {n for n in before if n in after and before[n] != after[n]}
        if changed != set(goods):
            complaints.append("rewritten: %s; expected: %s" % (sorted(changed), sorted(goods)))
        # the same as without the bad ones
        d2 = core.scratch("t")
        lay(d2, many)
        if goods:
            clean = [n for n in named if n not in bad]
            # identical place for both runs, so that nothing depends on the directory's name
            import shutil
            shutil.rmtree(d)
            os.rename(d2, d)
            r2, j2 = dredd([os.path.join(d, a) if how == "abs" else a for a in clean], d, mode)
            ref = snapshot(d)
            if r2.rc:
                complaints.append("exit status %d for the good files alone" % r2.rc)
            for n in goods:
                if ref.get(n) != after.get(n):
                    complaints.append("%s is not rewritten as it is when the bad files (or repetitions) are not named" % n)
            if j is None:
                complaints.append("no report was written")
            elif rel(j, d) != rel(j2, d):
                complaints.append("the report is not the one for the good files alone")
        return (sc, complaints, d, r)

    for sc, bad, d, r in core.pmap(one, scen):
        chk.evaluate(1, (sc[0], sc[3], sc[4]))
        chk.count("scenarios" + (" with failing files" if sc[2] else ""))
        chk.count("files watched", len(ALL))
        chk.sample({"scenario": sc[0], "order": sc[1], "rc": r.rc})
        for b in bad:
            chk.violation("%s/%s/%s" % (sc[0], ",".join(sc[3]), b[:40]), "%s: dredd %s %s: %s\n%s" % (sc[0], " ".join(sc[3]), " ".join(sc[1]), b, core.text(r.err, 600)))

    # ---- compilation database instead of flags on the command line
    def with_db(k):
        d = core.scratch("t")
        lay(d)
        ns = rng_for(k).sample(names, 4) + (["b1.c"] if k % 2 else [])
        with open(os.path.join(d, "compile_commands.json"), "w") as f:
            json.dump([{"directory": d, "file": os.path.join(d, n), "arguments": [dr.comp_of(n), "-c", os.path.join(d, n)]} for n in ALL if n.endswith((".c", ".cc"))], f)
        before = snapshot(d)
        r, j = dredd([os.path.join(d, n) for n in ns], d, (), db=d)
        after = snapshot(d)
        changed = {n for n in before if before[n] != after.get(n)}
        c = []
        if changed != {n for n in ns if n in GOOD}:
            c.append("rewritten %s of %s" % (sorted(changed), ns))
        if (r.rc != 0) != (k % 2 == 1):
            c.append("exit status %d" % r.rc)
        return (k, ns, c, r)

    def rng_for(k):
        return __import__("random").Random("C11/db/%d/%d" % (core.SEED, k))

    for k, ns, c, r in core.pmap(with_db, range(20 if T else 4)):
        chk.evaluate(1, ("db", k))
        chk.count("scenarios with a compilation database")
        for b in c:
            chk.violation("db%d/%s" % (k, b[:30]), "compilation database, files %s: %s\n%s" % (ns, b, core.text(r.err, 500)))
    return chk.finish("one evaluation = one dredd command on a watched tree of good, broken, empty and unnamed files; every file's bytes, the exit status, the messages and the report are judged; distinct = (scenario, mode, naming)", min_eval=30)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
