"""C03: read-only nodes never change; writable descendants stay writable.  Every flag placement x every mutator, against a
twin of the same config without the flags."""
import itertools
import re

from .core import Box, DictConfig, ListConfig, OmegaConf, Result, UnionNode, children, clone, parallel, plain, run, show_exc, snap, sdiff
from .ops import NS, all_ops, at, chunks, node_paths
from omegaconf.errors import ReadonlyConfigError

LEVEL = "model_checking"
ASSUMPTIONS = ["assigning to a key of a writable parent replaces the read-only node stored there (an operation above it, not at it)"]

SRC = {
    "U": "OmegaConf.create({'a': 1, 'd': {'x': 1, 'e': {'y': 2}}, 'l': [3, {'k': 2}, [3], 1], 'm': '???', 'n': None, 'i': '${d}'})",
    "Nest": "OmegaConf.structured(Nest(opt=Pt3()))",
    "Cont": "OmegaConf.structured(Cont)",
    "Prim": "OmegaConf.structured(Prim)",
    "Opt": "OmegaConf.structured(Opt(u=True))",
    "Frozen": "OmegaConf.structured(Frozen)",
    "FrozenIn": "OmegaConf.create({'f': Frozen, 'l': [Frozen()], 'x': 1})",
    "L": "OmegaConf.create([[1, 2], {'k': [1]}, 3])",
    "Special": "OmegaConf.create({'dn': DictConfig(None), 'dm': DictConfig('???'), 'ln': ListConfig(None), 'lm': ListConfig('???'), 'di': DictConfig('${u}'), 'li': ListConfig('${v}'), 'u': {'q': 1}, 'v': [1]})",
    "TSpecial": "OmegaConf.create({'dn': DictConfig(None, ref_type=Dict[str, int], element_type=int), 'dm': DictConfig('???', ref_type=Pt), 'ln': ListConfig(None, ref_type=List[int], element_type=int), 'on': DictConfig(None, ref_type=Pt)})",
}
VALS = ["5", "None", "'???'", "'${a}'", "{'q': 1}", "[1]", "[]", "{}", "Pt(3)", "True"]
QVALS = ["5", "None", "{'q': 1}", "[1]", "[]", "{}", "'???'"]


def extra(src):
    """merges and updates with deeper paths, dot lists, sorts"""
    c = eval(src, dict(NS))
    out = []
    for p, n in node_paths(c):
        X = f"at(c, {p!r})"
        if isinstance(n, (DictConfig, ListConfig)):
            if isinstance(n, DictConfig):
                for v in ("{}", "{'x': 7}", "{'zz': 7}", "{'k': 7}", "{'a': None}", "{'u': 'changed'}", "{'li': []}", "{'ln': []}", "{'ln': [1]}",
                          "{'dn': {}}", "{'dn': {'k': 1}}", "{'dm': {'x': 2}}", "{'on': {}}", "{'l': []}", "{'d': {'e': {}}}", "{'d': None}", "{'d': '${l}'}",
                          "{'d': {'e': {'y': 5}}}", "{'opt': None}", "{'opt': {'x': 3}}", "{'pt': Pt3(7)}", "{'f': {'sub': {'x': 8}}}",
                          "{'f': {'l': []}}", "OmegaConf.create({'d': '${a}'})", "DictConfig(None)", "DictConfig('${a}')", "DictConfig('???')", "{'di': {'q': 2}}", "Pt3(4)", "Nest()", "Opt()",
                          "NoFields", "NoFields()", "AllMissing()", "{'d': NoFields()}", "{'pt': Pt3('???')}", "DictConfig({}, element_type=int)",
                          "DictConfig({}, ref_type=Dict[str, int], element_type=int)", "DictConfig('???', ref_type=Pt3)"):
                    out.append(f"{X}.merge_with({v})")
                    out.append(f"{X}.merge_with({v}, list_merge_mode=ListMergeMode.EXTEND)") if "[" in v else None
                out += [f"{X}.update({{'x': 9, 'y': 2.5}})", f"{X}.update(x=9)", f"{X}.merge_with_dotlist(['x=9'])", f"{X}.merge_with_dotlist(['d.e.y=9'])",
                        f"OmegaConf.update({X}, 'd.e.y', 9)", f"OmegaConf.update({X}, 'd.e.new', 9, force_add=True)", f"OmegaConf.update({X}, 'd.e', {{'y': 3}}, merge=True)",
                        f"OmegaConf.update({X}, 'n1.n2', 3)", f"OmegaConf.update({X}, 'n1.n2', 3, force_add=True)", f"OmegaConf.update({X}, 'l.0', 9)",
                        f"OmegaConf.update({X}, 'l[1].k', 9)", f"OmegaConf.update({X}, 'pt.x', 9)", f"OmegaConf.update({X}, 'f.sub.x', 9, merge=True)"]
            else:
                for v in ("[]", "[9]", "[9, 8]", "ListConfig(None)", "ListConfig('${a}')", "ListConfig('???')", "ListConfig('???', element_type=int)", "ListConfig([], element_type=int)"):
                    for m in ("REPLACE", "EXTEND", "EXTEND_UNIQUE"):
                        out.append(f"{X}.merge_with({v}, list_merge_mode=ListMergeMode.{m})")
                out += [f"{X}.sort(key=str, reverse=True)", f"{X}.extend([])", f"{X}.extend([1, 2])", f"{X}.__setitem__(slice(0, 0), [1])",
                        f"{X}.__setitem__(slice(None, None, 2), [1, 2])", f"{X}.__delitem__(slice(None))", f"{X}.__iadd__(at(c, ''))", f"{X}.insert(1, 4)",
                        f"{X}.remove(3)", f"{X}.remove(1)"]
    return out


def effective(n):
    while n is not None:
        f = n._metadata.flags or {}
        if f.get("readonly") is not None:
            return f["readonly"]
        n = n._get_parent()
    return False


def local(n):
    m = n._metadata
    head = (type(n).__name__, str(m.ref_type), m.optional, str(m.object_type), repr(m.key), str(getattr(m, "element_type", None)), str(getattr(m, "key_type", None)))
    if isinstance(n, (DictConfig, ListConfig)):
        c = n.__dict__["_content"]
        if c is None or isinstance(c, str):
            return head + (c,)
        return head + (tuple((repr(k), type(x).__name__, id(x), None if isinstance(x, (DictConfig, ListConfig)) or not effective(x) else snap(x, flags=False)) for k, x in children(n)),)
    return head + (snap(n, flags=False),)


def nodes(n):
    yield n
    for _, x in children(n):
        yield from nodes(x)


def strip(c):
    """drop every read-only flag of a clone"""
    for n in nodes(c):
        if n._metadata.flags:
            n._metadata.flags.pop("readonly", None)
        n.__dict__["_flags_cache"] = None
    return c


def place(c, placement):
    for path, v in placement:
        OmegaConf.set_readonly(at(c, path), v)


TGT = re.compile(r"at\(c, '([^']*)'\)")


def target(op):
    return TGT.search(op).group(1)


def try_op(src, placement, op, base, res):
    ns = dict(NS)
    c = ns["c"] = clone(base)
    tgt = at(c, target(op))
    ro = effective(tgt)
    prot = {id(n): (n, local(n)) for n in nodes(c) if effective(n)}
    pid = {i: id(n._get_parent()) for i, (n, _) in prot.items()}
    parents = {i: n._get_parent() is not None and effective(n._get_parent()) for i, (n, _) in prot.items()}  # is the parent read-only?
    allwritable = not any(effective(n) for n in nodes(tgt))
    merge = "merge" in op and "merge=False" not in op and not (op.startswith("OmegaConf.update") and "Pt" in op)  # updating to an instance is an assignment
    if not (ro or merge or allwritable):
        return None
    t = dict(NS)
    tw = t["c"] = strip(clone(base))
    twl = {i: (n, local(n)) for i, n in zip((id(x) for x in nodes(c)), nodes(tw))}
    r = run(op, ns)
    rt = run(op, t)
    res.count("transitions", 2)
    res.count("states")
    if ns["c"] is not c:
        return None
    now = {id(n): n for n in nodes(c)}
    for i, (n, before) in prot.items():
        if ro and i not in now and parents[i] and pid[i] in now:
            return f"a read-only node was removed: {before}"
        if i in now and local(n) != before and (ro or (n is not tgt and isinstance(n, (DictConfig, ListConfig)) and not replaced(n, parents[i]))):
            return f"a read-only node changed: {before} -> {local(n)}" + (f" (raised {show_exc(r[1])})" if r[0] == "exc" else "")
    if ro:
        twnow = {id(n) for n in nodes(tw)}
        changed = any(local(twl[i][0]) != twl[i][1] if id(twl[i][0]) in twnow else parents[i] and id(twl[pid[i]][0]) in twnow
                      for i, (n, _) in prot.items())
        if changed and r[0] == "ok":
            return "succeeded, although it would change the writable twin"
        if changed and r[0] == "exc" and rt[0] == "ok" and not isinstance(r[1], ReadonlyConfigError):
            return f"works on a writable twin, but raises {show_exc(r[1])} instead of ReadonlyConfigError"
        if changed:
            res.count("refused_changes")
    elif allwritable:
        if r[0] != rt[0]:
            return f"the node is writable, but: {outcome(r)}; on a config without flags: {outcome(rt)}"
        if snap(tgt, flags=False) != snap(at(tw, target(op)), flags=False):
            return f"the node is writable, but its content differs from a config without flags: {sdiff(snap(at(tw, target(op)), flags=False), snap(tgt, flags=False))}"
        res.count("writable_compared")


def replaced(n, parent_readonly):
    """A writable parent's child was set to None, missing or an interpolation: an assignment at the parent, not at n."""
    return not parent_readonly and not isinstance(n.__dict__["_content"], (dict, list))


def outcome(r):
    return f"returns {r[1]!r}"[:150] if r[0] == "ok" else "raises " + show_exc(r[1])


def one(w, res):
    src, ops, placements = w
    base0 = eval(src, dict(NS))
    for pl in placements:
        base = clone(base0)
        place(base, pl)
        for op in ops:
            bad = try_op(src, pl, op, base, res)
            if bad:
                res.violation(f"{src} {pl} {op}", f"c = {src}\nread-only flags {pl}\n{op}\n{bad}", dict(src=src, placement=pl, op=op))
                if len(res.viol) >= Result.MAXV:
                    return
        res.sample(f"c = {src}; read-only flags {pl}: {len(ops)} operations, e.g. {ops[len(ops) // 2]}")


def placements(src, tier):
    c = eval(src, dict(NS))
    ps = list(node_paths(c))
    conts = [p for p, n in ps if isinstance(n, (DictConfig, ListConfig))]
    alls = [p for p, n in ps]
    out = [()] + [((p, True),) for p in conts] + [((p, True),) for p in alls if p not in conts][:4]
    below = lambda a, b: a != b and (a == "" or b.startswith(a + "|"))
    out += [((a, True), (b, False)) for a in conts for b in conts if below(a, b)]
    out += [((a, True), (b, False)) for a in conts for b in alls if below(a, b) and b not in conts][:4]
    if tier != "quick":
        out += [((a, False), (b, True)) for a in conts for b in conts if below(a, b)]
        out += [((a, True), (b, False), (d, True)) for a, b, d in itertools.product(conts, repeat=3) if below(a, b) and below(b, d)]
        out += [((a, True), (b, True)) for a, b in itertools.combinations(conts, 2) if not below(a, b)]
    return out


def check(tier):
    work = []
    for name, src in SRC.items():
        ops = list(dict.fromkeys(all_ops(src, QVALS if tier == "quick" else VALS) + extra(src)))
        for pl in placements(src, tier):
            for ch in chunks(ops, 500):
                work.append((src, ch, [pl]))
    res = parallel(one, work)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    base = eval(case["src"], dict(NS))
    place(base, [tuple(x) for x in case["placement"]])
    bad = try_op(case["src"], case["placement"], case["op"], base, res)
    if bad:
        res.violation("replay", bad, case)
