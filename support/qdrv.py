"""Runs the query script many times in one process, each time as a program of its own.
argv: script, report, mutated root, original root, ids...; prints one JSON line per id."""
import contextlib, io, json, sys, types


_text, _obj = None, None
_loads = json.loads


def loads(t, *a, **k):
    """Parsing a large report once is enough."""
    global _text, _obj
    if a or k:
        return _loads(t, *a, **k)
    if t != _text:
        _text, _obj = t, _loads(t)
    return _obj


def load(f, *a, **k):
    return loads(f.read(), *a, **k)


def go():
    json.loads, json.load = loads, load
    script, info, a, b = sys.argv[1:5]
    ids = sys.argv[5:]
    code = compile(open(script, "rb").read(), script, "exec")
    real = sys.stdout
    mine = sys.modules["__main__"]
    for i in ids:
        out, rc = io.StringIO(), 0
        sys.argv = [script, info, "--path-prefix-replacement", a, b, "--show-info-for-mutant=" + i]
        if i == "largest":
            sys.argv = [script, info, "--largest-mutant-id"]
        mod = types.ModuleType("__main__")
        mod.__file__ = script
        sys.modules["__main__"] = mod
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                exec(code, mod.__dict__)
        except SystemExit as e:
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException as e:
            rc = 1
            out.write("EXCEPTION %r" % (e,))
        sys.modules["__main__"] = mine
        real.write(json.dumps({"id": i if i == "largest" else int(i), "rc": rc, "out": out.getvalue()}) + "\n")


go()
