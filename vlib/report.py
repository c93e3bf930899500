"""Checks of the mutation report's own structure, and hooks on the id queries of rewritten code."""
import os
import re

from . import core, dr


def iter_groups(info):
    for fi, f in enumerate(info.get("infoForFiles", [])):
        for ni, node in enumerate(f["mutationTree"]):
            for g in node.get("mutationGroups", []):
                yield fi, ni, g


def ids_of_group(g):
    k = list(g)[0]
    m = g[k]
    if k == "removeStmt":
        return [m.get("mutationId", 0)]
    return [i.get("mutationId", 0) for i in m.get("instances", [])]


def ids_by_file(info):
    out = []
    for f in info.get("infoForFiles", []):
        ids = []
        for node in f["mutationTree"]:
            for g in node.get("mutationGroups", []):
                ids += ids_of_group(g)
        out.append((f["filename"], ids))
    return out


def structure(info, processed=None):
    """Returns a list of complaints about ids and trees."""
    bad = []
    nxt = 0
    seen_files = []
    for name, ids in ids_by_file(info):
        seen_files.append(name)
        if not ids:
            bad.append("file %s is in the report without any mutant" % name)
            continue
        if len(set(ids)) != len(ids):
            d = [i for i in set(ids) if ids.count(i) > 1]
            bad.append("ids given more than once in %s: %s" % (name, sorted(d)[:5]))
        s = set(ids)
        if s != set(range(nxt, nxt + len(s))):
            want = set(range(nxt, nxt + len(s)))
            bad.append("ids of %s are not the block starting at %d: missing %s, unexpected %s" % (
                name, nxt, sorted(want - s)[:5], sorted(s - want)[:5]))
        nxt = max(ids) + 1
    if len(set(seen_files)) != len(seen_files):
        bad.append("a file is listed more than once: %s" % seen_files)
    if processed is not None:
        want = [p for p in processed if p in set(seen_files)]
        if want != seen_files:
            bad.append("files are not in the order they were processed: %s / %s" % (seen_files, processed))
    for f in info.get("infoForFiles", []):
        tree = f["mutationTree"]
        count = [0] * len(tree)
        stack = [0]
        steps = 0
        while stack and steps < 10 * len(tree) + 10:
            n = stack.pop()
            steps += 1
            if n < 0 or n >= len(tree):
                bad.append("%s: child %d is no node of the tree" % (f["filename"], n))
                break
            count[n] += 1
            if count[n] == 1:
                stack.extend(tree[n].get("children", []))
        if any(c != 1 for c in count):
            bad.append("%s: nodes not reached exactly once from the root: %s" % (
                f["filename"], [(i, c) for i, c in enumerate(count) if c != 1][:5]))
        for i, node in enumerate(tree):
            for g in node.get("mutationGroups", []):
                if len(g) != 1:
                    bad.append("%s: node %d has a group that is not exactly one mutation" % (f["filename"], i))
                elif not ids_of_group(g):
                    bad.append("%s: node %d has a group without mutants" % (f["filename"], i))
                else:
                    ids = ids_of_group(g)
                    if ids != list(range(ids[0], ids[0] + len(ids))):
                        bad.append("%s: ids of one group are not consecutive: %s" % (f["filename"], ids))
    return bad


def processed(err, d=None):
    return re.findall(r"^Processing (.*)$", re.sub(r"\x1b\[[0-9;]*m", "", err.decode("utf8", "replace")), re.M)


HOOK = re.compile(rb"static\s+bool\s+__dredd_enabled_mutation\s*\(\s*int\s+(\w+)\s*\)\s*\{")


def hook(text, fileno):
    """Adds a monitor to the query function of a rewritten file: every query that answers yes
    is reported to vt_hit (support.c). Returns None if the function is not found."""
    m = HOOK.search(text)
    if not m or len(HOOK.findall(text)) != 1:
        return None
    wrapper = (b"static bool __dredd_enabled_mutation_real(int);\n"
               b"#ifdef __cplusplus\nextern \"C\"\n#endif\nvoid vt_hit(int, int);\n"
               b"static bool __dredd_enabled_mutation(int vt_id) { bool vt_r = __dredd_enabled_mutation_real(vt_id); "
               b"if (vt_r) vt_hit(%d, vt_id); return vt_r; }\n" % fileno)
    real = m.group(0).replace(b"__dredd_enabled_mutation", b"__dredd_enabled_mutation_real")
    return text[:m.start()] + wrapper + real + text[m.end():]
