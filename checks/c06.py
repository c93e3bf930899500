"""C06: reported locations, snippets and operators match the source."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, astj, ref

STMT_PARENTS = {"CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "CaseStmt", "DefaultStmt",
                "LabelStmt", "AttributedStmt"}


def snippet(b):
    """The text of a range as the report abridges it."""
    if len(b) > 36:
        return b[:10] + b" ... [snip] ... " + b[-10:]
    return b


def heavy(data):
    return b"#include <" in data


def check_file(chk, name, fname, data, info_file, muts, ast, key):
    """All the groups of one file."""
    n = 0
    bad = []
    refs = ref.Refs(ast, muts)
    groups = {}
    for m in muts:
        groups.setdefault(m.gid, []).append(m)
    for gid, ms in groups.items():
        m = ms[0]
        n += 1
        where = "%s %s at %s %r" % (m.kind, m.action, m.range, data[m.range[0]:m.range[1]][:60])
        for rn, r in (("range", m.range), ("lhs", m.lhs), ("rhs", m.rhs), ("operand", m.operand)):
            if r is not None and not r[0] < r[1]:
                bad.append("%s: empty or reversed %s" % (where, rn))
        for sn, r in (("snippet", m.range), ("exprSnippet", m.range), ("lhsSnippet", m.lhs), ("rhsSnippet", m.rhs), ("operandSnippet", m.operand)):
            if sn in m.snips and r:
                want = snippet(data[r[0]:r[1]])
                try:
                    w = want.decode("utf8")
                except UnicodeDecodeError:
                    chk.skip("snippet cuts a multi-byte character")
                    continue
                chk.count("snippets compared")
                if m.snips[sn] != w:
                    bad.append("%s: %s is %r, the source has %r" % (where, sn, m.snips[sn], w))
        if m.kind == "remove":
            nodes = [x for x in ast.by_range.get(m.range, ()) if not x.kind.endswith("Decl") and x.parent is not None]
            ok = [x for x in nodes if x.parent.kind in STMT_PARENTS or x.kind.endswith("Stmt")]
            if not ok and ast_gap(ast, m.range):
                chk.skip("range not in clang's dump")
            elif not ok:
                bad.append("%s: no statement has this range" % where)
            chk.count("statement ranges")
        else:
            for x in ms:
                try:
                    refs.alternatives(x)
                except ref.NoRef as e:
                    bad.append("%s: %s" % (where, e))
                    break
            chk.count("%s ranges" % m.kind)
            if m.kind == "binary" and not m.range[0] <= m.lhs[0] < m.lhs[1] <= m.rhs[0] < m.rhs[1] <= m.range[1] and not macroish(ast, m):
                bad.append("%s: operands %s %s do not lie in order inside" % (where, m.lhs, m.rhs))
            if m.kind == "unary" and not (m.range[0] <= m.operand[0] and m.operand[1] <= m.range[1]):
                bad.append("%s: operand %s not inside" % (where, m.operand))
    # nesting
    tree = info_file["mutationTree"]
    src = dr.Src(data)
    own = {}
    for m in muts:
        own.setdefault(m.node, []).append(m.range)
    stack = [(0, None)]
    guard = 0
    while stack and guard <= len(tree):
        i, outer = stack.pop()
        guard += 1
        rs = own.get(i, [])
        for r in rs:
            chk.count("nestings checked", 1 if outer else 0)
            if outer and not (outer[0] <= r[0] and r[1] <= outer[1]):
                bad.append("mutation at %s %r is a descendant of one at %s %r" % (r, data[r[0]:r[1]][:50], outer, data[outer[0]:outer[1]][:50]))
        if rs:
            outer = (min(r[0] for r in rs), max(r[1] for r in rs))
            if any(r != outer for r in rs):
                # several groups of one node are about the same construct
                if not any(r == outer for r in rs):
                    bad.append("groups of one node at unrelated ranges %s" % rs)
        for c in tree[i].get("children", []):
            if 0 <= c < len(tree):
                stack.append((c, outer))
    return n, bad


def ast_gap(ast, r):
    return False


def macroish(ast, m):
    return any(x.macro for x in ast.by_range.get(m.range, ()))


def main():
    chk = core.Check("C06")
    dr.Src.strict = True
    exe = core.build_dredd()
    T = core.THOROUGH
    sets = [(p.name, p.files, p.flags, p.order) for p in work.corpus() + work.matrices() + work.generated(60 if T else 6, size=0.9) + work.generated(10 if T else 1, nfiles=3)
            if T or "heavy" not in p.tags]
    sets += [("case:" + n, {n: b}, fl, [n]) for n, fl, b in work.cases() if T or not heavy(b)]
    sets += [(n, {n: b}, fl, [n]) for n, fl, b in work.repo_inputs() if not heavy(b)]
    jobs = [(s, m) for s in sets for m in ((), ("--no-mutation-opts",))]
    if not T:
        jobs = [(s, m) for s, m in jobs if m or not s[0].startswith(("repo_", "matrix"))]

    asts = {}
    def ast_of(s):
        name, files, flags, order = s
        d = core.scratch("a")
        out = {}
        for n in order:
            p = os.path.join(d, n)
            with open(p, "wb") as f:
                f.write(files[n])
            try:
                fl = list(flags) + ["-fwrapv"]
                if not any(x.startswith("-std=") for x in fl):
                    fl.append(dr.std_of(order[0]))
                out[n] = astj.Ast(p, fl)
            except core.HarnessError:
                return None
        return out

    def one(s):
        name, files, flags, order = s
        res = []
        a = ast_of(s)
        if a is None:
            return [(s, (), None, "original does not compile", None)]
        for mode in [m for q, m in jobs if q is s]:
            fl = list(flags) + ["-fwrapv", "-I" + dr.SUP]
            if not any(x.startswith("-std=") for x in fl):
                fl.append(dr.std_of(order[0]))
            o = dr.dredd(exe, files, opts=mode, flags=fl, order=order)
            if o.info is None:
                res.append((s, mode, None, "dredd gave no report", o))
                continue
            srcs = dr.sources_of(files)
            try:
                muts = dr.flatten(o.info, srcs)
            except (ValueError, KeyError) as e:
                res.append((s, mode, ["report position or file not in the source: %s" % e], 0, o))
                continue
            tot, bad = 0, []
            for f in o.info.get("infoForFiles", []):
                b = os.path.basename(f["filename"])
                n, x = check_file(chk, name, b, files[b], f, [m for m in muts if m.file == b], a[b], name)
                tot += n
                bad += x
            res.append((s, mode, bad, tot, o))
        return res

    for res in core.pmap(one, sets):
        for s, mode, bad, tot, o in res:
            if bad is None:
                chk.skip(tot)
                continue
            chk.evaluate(max(1, tot), (s[0], mode) if tot else None)
            chk.sample({"program": s[0], "mode": list(mode), "groups": tot})
            seen = set()
            for b in bad:
                k = b.split(" at ")[0]
                if k in seen:
                    continue
                seen.add(k)
                chk.violation("%s/%s/%s" % (s[0], "noopt" if mode else "opt", k), "%s %s: %s" % (s[0], mode, b), dict(s[1], **{"info.json": getattr(o, "raw", b"")}))
    return chk.finish("one evaluation = one mutation group of a report whose ranges, snippets, operator and nesting were compared with clang's dump of the source; distinct = (program, mode) with mutants", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
