"""Programs whose files hold an exact number of mutants, each the removal of one event: what any
set of enabled mutants must do is then known without a reference build."""
import re

from . import work


def program(lang, sizes, guard=False):
    """One file per entry of sizes; file i holds exactly sizes[i] mutants. With guard, some events
    are only reached for some inputs."""
    files = {}
    ext = "c" if lang == "c" else "cc"
    k = 0
    for i, n in enumerate(sizes):
        t = ['#include "vt.h"', "#define E(k) ev(k)", "#define CALL(f) f()"]
        left = n
        body = []
        if i == 0:
            for j in range(1, len(sizes)):
                t.append("void f%d(void);" % j)
            left -= len(sizes) - 1
            assert left >= 0
        for _ in range(left):
            k += 1
            body.append("  E(%d);" % k)
        name = "vt_main" if i == 0 else "f%d" % i
        t.append("void %s(void) {" % name)
        t += body
        if i == 0:
            for j in range(1, len(sizes)):
                t.append("  CALL(f%d);" % j)
        t.append("}")
        files["s%d.%s" % (i, ext)] = "\n".join(t) + "\n"
    return work.Prog("sized:%s:%s" % (lang, "+".join(map(str, sizes))), files, inputs=(1,), tags=("sized",))


def events(p, muts):
    """id -> what its removal does: ('e', k) or ('f', j); None if the report is not as built."""
    out = {}
    for m in muts:
        if m.kind != "remove":
            return None
        t = p.files[m.file][m.range[0]:m.range[1]].decode()
        x = re.fullmatch(r"E\((\d+)\)", t)
        y = re.fullmatch(r"CALL\(f(\d+)\)", t)
        if x:
            out[m.id] = ("e", int(x.group(1)))
        elif y:
            out[m.id] = ("f", int(y.group(1)))
        else:
            return None
    return out


def expected(p, ev, enabled):
    """Output with the enabled ids."""
    gone = {ev[i] for i in enabled if i in ev}
    lines = []
    main = p.files[p.order[0]].decode().split("{", 1)[1]
    for kind, a in re.findall(r"(E|CALL)\(f?(\d+)\);", main):
        a = int(a)
        if kind == "E":
            if ("e", a) not in gone:
                lines.append("e%d" % a)
        elif ("f", a) not in gone:
            body = p.files["s%d.%s" % (a, p.order[0].split(".")[1])].decode().split("{", 1)[1]
            lines += ["e%s" % b for b in re.findall(r"E\((\d+)\);", body) if ("e", int(b)) not in gone]
    lines.append("END")
    return ("\n".join(lines) + "\n").encode()


SIZES_QUICK = [[1], [2], [63], [64], [65], [66], [127], [128], [129], [193], [256], [257], [1025], [65, 65], [64, 64, 64], [70, 129, 1], [3, 1, 2, 1], [200, 65, 64, 63, 129], [2049, 300]]
SIZES_ALL = [[n] for k in (1, 2, 3, 4, 5, 8, 16, 17, 32, 64) for n in (64 * k - 1, 64 * k, 64 * k + 1)] + SIZES_QUICK + [[5000], [100] * 8, [1, 2, 3, 4, 5, 6, 7, 8][::-1]]
