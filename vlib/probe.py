"""Reach probes: the original source with a call of vt_reach at every mutated range."""
import re

from . import dr


def instrument(data, muts, base=0):
    """Returns (text, {range key: probe number}). One probe per distinct (kind class, range)."""
    groups = {}
    for m in muts:
        k = ("s" if m.kind == "remove" else "e",) + m.range
        groups.setdefault(k, []).append(m.id)
    ins = []   # (position, order, text); at one position: closers (inner first), then openers (outer first)
    num = {}
    for k in sorted(groups):
        num[k] = base + len(num)
        t, s, e = k
        if t == "s":
            # before the statement, outside expression openers that start at the same place
            ins.append((s, 1, 0, -(e - s), b" vt_reach(%d); " % num[k]))
        else:
            ins.append((s, 1, 1, -(e - s), b"(vt_reach(%d), (" % num[k]))
            ins.append((e, 0, 0, e - s, b"))"))
    ins.sort(key=lambda x: x[:4])
    out, pos = [], 0
    for i in ins:
        out.append(data[pos:i[0]])
        out.append(i[4])
        pos = i[0]
    out.append(data[pos:])
    return b"".join(out), {num[k]: ids for k, ids in groups.items()}
