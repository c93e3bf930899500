"""C17: source text outside mutated constructs survives; the prelude goes where asked."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work

MARK = b"// DREDD PRELUDE START"
LEX = re.compile(rb'(?P<raw>R"(?P<d>[^()\\ ]{0,16})\(.*?\)(?P=d)")|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<chr>\'(?:\\.|[^\'\\\n])*\')|(?P<com>//(?:\\\r?\n|[^\n])*|/\*.*?\*/)|'
                 rb'(?P<ws>\s+)|(?P<num>\.?[0-9](?:\'[0-9A-Za-z_]|[eEpP][+-]|[0-9A-Za-z_.])*)|(?P<id>[A-Za-z_\x80-\xff$][A-Za-z_0-9\x80-\xff$]*)|(?P<op>.)', re.S)


def lex(data):
    return [(m.lastgroup if m.lastgroup != "d" else "raw", m.group(0), m.start()) for m in LEX.finditer(data)]


def keepers(data):
    """Comments, string literals and directives, in order."""
    out = []
    toks = lex(data)
    i = 0
    bol = True
    while i < len(toks):
        k, t, p = toks[i]
        if k == "op" and t == b"#" and bol:
            # a directive reaches to the end of its line (with continuations)
            e = p
            while True:
                n = data.find(b"\n", e)
                if n < 0:
                    e = len(data)
                    break
                if data[n - 1:n] == b"\\" or data[n - 2:n] == b"\\\r":
                    e = n + 1
                    continue
                e = n
                break
            out.append(("directive", data[p:e].strip()))
            while i < len(toks) and toks[i][2] < e:
                i += 1
            bol = True
            continue
        if k == "com":
            out.append(("comment", t))
        elif k in ("str", "raw"):
            out.append(("string", t))
        if k == "ws":
            bol = bol or b"\n" in t
        elif k != "com":
            bol = False
        i += 1
    return out


def judge(orig, out, muts, ins, cpp):
    """Returns (complaints, counts). ins: expected offset of the block in the original."""
    bad = []
    counts = {}
    if out.count(MARK) != orig.count(MARK) + 1:
        return ["%d blocks of declarations" % (out.count(MARK) - orig.count(MARK))], counts
    # position of the block
    first = min(m.range[0] for m in muts)
    if out[:ins] != orig[:ins] or not out[ins:].startswith(MARK):
        where = out.find(MARK)
        # constants in array bounds and the like before the block may be replaced by their values
        pre = keepers(orig[:ins])
        if where < 0 or keepers(out[:where]) != pre:
            return ["the block starts at offset %d, not %d, or text before it changed" % (where, ins)], counts
        same = [t for k, t, _ in lex(orig[:ins]) if k in ("id",)]
        got = [t for k, t, _ in lex(out[:where]) if k in ("id",)]
        it = iter(same)
        if not all(any(x == y for y in it) for x in got) or out[max(0, where - 8):where] != orig[max(0, ins - 8):ins]:
            return ["the block starts at offset %d, not %d, or text before it changed" % (where, ins)], counts
        start = where
        counts["blocks after rewritten constants"] = 1
    else:
        start = ins
    # top-level mutated ranges, in order; removed statements reach to their semicolon
    rs = []
    for m in muts:
        s, e = m.range
        rs.append((s, e, m.kind == "remove"))
    rs.sort(key=lambda r: (r[0], -r[1]))
    top = []
    for s, e, rm in rs:
        if top and s < top[-1][1]:
            top[-1] = (top[-1][0], max(top[-1][1], e), top[-1][2] or rm)
        else:
            top.append((s, e, rm))
    # end of the block: the original text from there to the first mutated construct follows it
    top = [t for t in top if t[1] > ins]
    if not top:
        return bad, counts
    head = orig[ins:top[0][0]]
    pos = out.find(head, start + len(MARK))
    exact = True
    if pos < 0 or not head.strip():
        head1 = head.split(b"\n")[0] + b"\n"
        pos = out.find(head1, start + len(MARK)) if head1.strip() else -1
        while pos >= 0 and out[pos - 3:pos] == b"// ":
            pos = out.find(head1, pos + 1)
        exact = False
    if pos < 0:
        # cannot find where the block ends
        ks = keepers(orig)
        ko = keepers(out)
        it = iter(ko)
        if not all(any(x == y for y in it) for x in ks):
            bad.append("comments, directives or strings are lost")
        counts["files judged by subsequence only"] = 1
        return bad, counts
    rest = out[pos:]
    block = out[start:pos]
    a, b = keepers(orig[ins:]), keepers(rest)
    counts["comments, directives and strings compared"] = len(a)
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        # strings and comments in rewritten constants (sizeof "x" in an array bound) may go
        it = iter(a)
        sub = all(any(x == y for y in it) for x in b)
        if not (cpp and sub and len(a) - len(b) <= 2 and all(x[0] != "directive" for x in a[k:k + 1])):
            bad.append("comments, directives or strings changed: %r instead of %r" % (b[k:k + 2], a[k:k + 2]))
    # gaps
    cur = 0
    for i, (s, e, rm) in enumerate(top):
        g0 = top[i - 1][1] if i else ins
        gap = orig[g0:s]
        parts = []
        if i and top[i - 1][2]:
            m = re.match(rb"(?:\s|//[^\n]*\n|/\*.*?\*/)*;", gap, re.S)
            if m:
                parts.append(gap[:m.end()])
                gap = gap[m.end():]
            # the guard of a removable statement may be closed anywhere in the comments that follow it
            m = re.match(rb"(?:\s|//[^\n]*\n|/\*.*?\*/)*", gap, re.S)
            parts += re.findall(rb"//[^\n]*\n|/\*.*?\*/", m.group(0), re.S)
            gap = gap[m.end():]
        parts.append(gap)
        for g in parts:
            if not g:
                continue
            p = rest.find(g, cur)
            if p < 0 and cpp:
                # piecewise: constants in array bounds, template arguments, static assertions and builtins may be folded
                ok = True
                for piece in re.findall(rb"[^;{}]*[;{}]?", g):
                    if not piece.strip():
                        continue
                    q = rest.find(piece, cur)
                    if q < 0:
                        if re.search(rb"static_assert|_Static_assert|\[|<|__builtin", piece):
                            continue
                        ok = False
                        g = piece
                        break
                    cur = q + len(piece)
                counts["gaps with rewritten constants"] = counts.get("gaps with rewritten constants", 0) + 1
                if not ok:
                    bad.append("text between mutated constructs is lost: %r" % g[:80])
                continue
            if p < 0:
                bad.append("text between mutated constructs is lost or changed: %r" % g[:120])
                return bad, counts
            cur = p + len(g)
            counts["gaps kept byte for byte"] = counts.get("gaps kept byte for byte", 0) + 1
    last = top[-1]
    tail = orig[last[1]:]
    if last[2]:
        m = re.match(rb"(?:\s|//[^\n]*\n|/\*.*?\*/)*;", tail, re.S)
        if m:
            tail = tail[m.end():]
        tail = tail[re.match(rb"(?:\s|//[^\n]*\n|/\*.*?\*/)*", tail, re.S).end():]
    if not rest.endswith(tail):
        kt = keepers(tail)
        if not cpp or (kt and kt != keepers(rest)[-len(kt):]) or lex(tail)[-1][1] != lex(rest)[-1][1]:
            bad.append("text after the last mutated construct changed")
    else:
        counts["gaps kept byte for byte"] = counts.get("gaps kept byte for byte", 0) + 1
    return bad, counts


PLACE = [b"void __dredd_prelude_start();\n", b"void __dredd_prelude_start(void);\n", b"  void   __dredd_prelude_start ( void ) ;\n",
         b"extern void __dredd_prelude_start(void);\n", b"/* c */ void __dredd_prelude_start(void); // d\n"]
CPPPLACE = [b"void __dredd_prelude_start();\n", b"int v_before = 3; void __dredd_prelude_start();\n", b"namespace { void __dredd_prelude_start_other(); }\nvoid __dredd_prelude_start();\n"]


def with_placeholder(rng, name, data, inst):
    """Inserts one or two placeholder declarations between top-level directives at the head of the file. Returns (data, expected offset)."""
    pl = rng.choice(CPPPLACE if name.endswith(".cc") and rng.random() < 0.5 else PLACE)
    lines = data.split(b"\n")
    # after the leading block of directives, blank lines and comments
    heads = [0]
    off = 0
    incomment = False
    for l in lines:
        st = l.strip()
        off2 = off + len(l) + 1
        if incomment:
            incomment = b"*/" not in st
        elif st.startswith(b"/*") and b"*/" not in st:
            incomment = True
        elif st.endswith(b"\\"):
            break
        elif st.startswith((b"#include", b"#define", b"//", b"#pragma", b"#undef")) or not st or (st.startswith(b"/*") and st.endswith(b"*/")):
            heads.append(off2)
        else:
            break
        off = off2
    heads = [h for h in heads if h <= len(data)]
    at = rng.choice(heads)
    pre = rng.choice([b"", b"/* before: \"x\" // */\n", b"#define BEFORE_BLOCK(a) ((a) + __LINE__)\n", b"static const char* before_s = \"// DREDD\"; /* keep */\n", b"// line\n\n\n"])
    new = data[:at] + pre + pl + (rng.choice(PLACE) if rng.random() < 0.3 else b"") + data[at:]
    k = new.index(b"__dredd_prelude_start", at + len(pre) + pl.index(b"__dredd_prelude_start") if b"other" not in pl else at + len(pre) + pl.rindex(b"__dredd_prelude_start"))
    # beginning of the declaration that holds it
    s = max(new.rfind(b";", 0, k), new.rfind(b"\n", 0, k), new.rfind(b"}", 0, k), new.rfind(b"*/", at, k) + 1 if b"*/" in new[at:k] else -1) + 1
    while new[s:s + 1].isspace():
        s += 1
    return new, s


def main():
    chk = core.Check("C17")
    exe = core.build_dredd()
    T = core.THOROUGH
    rng = chk.rng
    base = [(p.name, p.files, p.flags, p.order) for p in work.corpus() + work.matrices() + work.generated(60 if T else 5, size=0.8) + work.generated(10 if T else 1, nfiles=3)]
    base += [("case:" + n, {n: b}, fl, [n]) for n, fl, b in work.cases()]
    base += [(n, {n: b}, fl, [n]) for n, fl, b in work.repo_inputs()]
    jobs = []
    MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts")]
    for i, s in enumerate(base):
        ms = MODES if T else [MODES[i % 4], MODES[(i + 1) % 4]] if not s[0].startswith("repo_") else [MODES[i % 4]]
        if any(b"__dredd_prelude_start" in t for t in s[1].values()):
            continue
        for m in ms:
            jobs.append((s, m, {n: 0 for n in s[3]}))
    for i, s in enumerate(base):
        if s[0].startswith("repo_") and not T and i % 4:
            continue
        if any(b"__dredd_prelude_start" in t for t in s[1].values()):
            continue
        files, ins = {}, {}
        for n in s[3]:
            files[n], ins[n] = with_placeholder(rng, n, s[1][n], i)
        jobs.append(((s[0] + "+placeholder", files, s[2], s[3]), MODES[i % 4], ins))

    def one(job):
        s, mode, ins = job
        name, files, flags, order = s
        fl = list(flags) + ["-fwrapv", "-I" + dr.SUP]
        if not any(x.startswith("-std=") for x in fl):
            fl.append(dr.std_of(order[0]))
        o = dr.dredd(exe, files, opts=mode, flags=fl, order=order)
        if o.rc or o.info is None:
            return (job, None, "dredd failed (see C02, C15)", o)
        try:
            muts = dr.flatten(o.info, dr.sources_of(files))
        except (ValueError, KeyError):
            return (job, None, "unusable report (see C06)", o)
        bad, counts = [], {}
        n = 0
        for f in order:
            ms = [m for m in muts if m.file == f]
            if not ms:
                if o.files[f] != files[f]:
                    bad.append("%s: changed without a mutant" % f)
                continue
            n += 1
            b, c = judge(files[f], o.files[f], ms, ins[f], f.endswith(".cc"))
            bad += ["%s: %s" % (f, x) for x in b]
            for k, v in c.items():
                counts[k] = counts.get(k, 0) + v
        return (job, bad, (n, counts), o)

    for (s, mode, ins), bad, d, o in core.pmap(one, jobs):
        if bad is None:
            chk.skip(d)
            continue
        n, counts = d
        chk.evaluate(n, (s[0], mode) if n else None)
        for k, v in counts.items():
            chk.count(k, v)
        if "+placeholder" in s[0]:
            chk.count("files with a placeholder declaration", n)
        chk.sample({"program": s[0], "mode": list(mode), "counts": counts})
        for b in bad:
            chk.violation("%s/%s" % (s[0], ",".join(mode)), "%s %s: %s" % (s[0], mode, b), dict(s[1], **{"mutated_" + k: v for k, v in o.files.items()}))
    return chk.finish("one evaluation = one rewritten file whose text was compared with the original: block placement, comments, directives and strings in order, text between mutated constructs byte for byte; distinct = (program, mode)", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
