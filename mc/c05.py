"""C05: effective flags == recomputation from explicit flags, after every history (hidden caches are part of the state)."""
import copy
import pickle

from .core import OmegaConf, Result, World, bfs, children, clone, enc, parallel, run, show_exc, snap

LEVEL = "model_checking"
ASSUMPTIONS = ["flags: readonly, struct and one user-defined flag; trees of at most ~12 nodes"]
FLAGS = ("readonly", "struct", "foo")


def reference(n, flag):
    """nearest explicit value up the chain of real parents."""
    while n is not None:
        f = n._metadata.flags or {}
        if f.get(flag) is not None:
            return f[flag]
        if n._metadata.flags_root:
            return None
        n = n._get_parent()
    return None


def nodes(n, path="root"):
    yield path, n
    for k, c in children(n):
        yield from nodes(c, f"{path}.{k}")


def explicit(root):
    return {p: dict(n._metadata.flags or {}) for p, n in nodes(root)}


def caches(n):
    c = n.__dict__.get("_flags_cache")
    return (None if c is None else tuple(sorted(map(repr, c.items()))), tuple(caches(x) for _, x in children(n)))


class FlagWorld(World):
    roots = ("root", "other", "held")

    def __init__(self, ops):
        self.ops = ops

    def build(self):
        root = OmegaConf.create({"a": {"b": {"c": 1}}, "l": [{"k": 1}, 2], "v": 1})
        other = OmegaConf.create({"q": {"w": {"e": 1}}})
        return {"root": root, "other": other, "held": root._get_node("a"), "OmegaConf": OmegaConf, "N": nav,
                "copy": copy, "pickle": pickle, "flagset": flagset}

    def canon(self, ns):
        return tuple((snap(ns[r]), caches(ns[r])) for r in ("root", "other")) + (caches(ns["held"]), snap(ns["held"]))

    def step(self, ns, op, hist, res):
        if nav(ns, op) is None:
            return False
        pre = {r: explicit(ns[r]) for r in ("root", "other")}
        held = {id(n): (n, dict(n._metadata.flags or {})) for r in ("root", "other") for _, n in nodes(ns[r])}
        r = run(op, ns)
        bad = None
        if op.startswith("flagset("):
            tgt, flags, vals = eval("(" + parse(op) + ")")
            if r[0] != "ok":
                bad = f"setting a flag raised {show_exc(r[1])}"
            else:
                want = {k: {p: dict(f) for p, f in pre[k].items()} for k in pre}
                tree, path = tgt
                for f, v in zip(flags, vals):
                    if v is None:
                        want[tree][path].pop(f, None)
                    else:
                        want[tree][path][f] = v
                for k in ("root", "other"):
                    if {p: {f: v for f, v in d.items() if v is not None} for p, d in explicit(ns[k]).items()} != want[k]:
                        bad = f"explicit flags of {k} after {op}: {explicit(ns[k])}, expected {want[k]}"
        elif "flags_root" not in op and "merge" not in op and "update" not in op:
            # operations other than setting flags keep the explicit flags of every node that stays in the tree
            for k in ("root", "other"):
                if op.startswith(k + " = copy") or op.startswith(k + " = pickle"):
                    if explicit(ns[k]) != pre[k]:
                        bad = f"explicit flags of {k} changed from {pre[k]} to {explicit(ns[k])}"
                for p, n in nodes(ns[k]):
                    d = held.get(id(n))
                    if d is not None and d[1] != dict(n._metadata.flags or {}):
                        bad = f"explicit flags of {k}:{p} changed from {d[1]} to {n._metadata.flags}"
        if bad is None:
            bad = self.inv(ns)
        if bad and hist is not None:
            h = list(hist) + [op]
            res.violation(op, f"ops {' ; '.join(h)}\n{bad}", dict(hist=h))
        return bad is None

    def inv(self, ns):
        c = self.clone(ns)  # asking fills caches: ask on a clone
        for r in ("root", "other", "held"):
            if r == "held" and not attached(c[r]):
                continue  # replaced or removed: no longer part of any config
            for p, n in nodes(c[r], r):
                for f in FLAGS:
                    want = reference(n, f)
                    got = n._get_flag(f)
                    if got is not want:
                        return f"{p}: flag {f} is {got}, nearest explicit value is {want}"
                if OmegaConf.is_readonly(n) is not reference(n, "readonly"):
                    return f"{p}: is_readonly"
        return None


def attached(n):
    while n is not None:
        p = n._get_parent()
        if p is not None and all(x is not n for _, x in children(p)):
            return False
        n = p
    return True


def parse(op):
    """flagset(root, 'a.b', ['struct'], [True]) -> "(('root','root.a.b'), [...], [...])" """
    args = op[len("flagset("):-1]
    tree, rest = args.split(", ", 1)
    path, rest = rest.split(", ", 1)
    path = eval(path)
    full = tree + ("." + path if path else "")
    if tree == "other":
        full = "root" + ("." + path if path else "")
    return f"({tree!r}, {full!r}), {rest}"


def flagset(tree, path, flags, vals):
    n = at(tree, path)
    if flags == ["readonly"]:
        OmegaConf.set_readonly(n, vals[0])
    elif flags == ["struct"]:
        OmegaConf.set_struct(n, vals[0])
    elif len(flags) == 1:
        n._set_flag(flags[0], vals[0])
    else:
        n._set_flag(flags, vals)


def at(tree, path):
    n = tree
    for k in path.split(".") if path else []:
        n = n._get_node(int(k) if k.isdigit() else k, validate_access=False) if n is not None and children(n) else None
    return n


def nav(ns, op):
    """The operation's target path must exist (flag operations and queries only)."""
    if op.startswith(("flagset(", "query(")):
        args = op.split("(", 1)[1]
        tree, rest = args.split(", ", 1)
        return at(ns[tree], eval(rest.split(", ", 1)[0]))
    return True


def query(tree, path, flag):
    n = at(tree, path)
    return (OmegaConf.is_readonly(n) if flag == "readonly" else OmegaConf.is_struct(n) if flag == "struct"
            else n._get_flag(flag))


STRUCT_OPS = [
    "root.a = other.q", "root['z'] = root.a", "root.a.b = held", "other.q.w = root.a", "other.q = held", "root.l[0] = held",
    "root.l.append(root.a)", "root.l.insert(0, other.q)", "del root['a']", "root.pop('a')", "del root.l[0]", "root.l.pop(0)",
    "root.v = {'n': 1}", "root.a = {'b': {'c': 2}}", "root.a.b.c = 5", "root.v = 2", "root.l = [{'k': 2}]", "root.a.b = '${l.0}'",
    "root = copy.deepcopy(root)", "root = copy.copy(root)", "root = pickle.loads(pickle.dumps(root))", "root.a = copy.deepcopy(other.q)",
    "held = root.a", "root.merge_with({'a': {'b': {'c': 3}}})", "root.merge_with(other)", "other.merge_with({'q': root.a})",
    "OmegaConf.update(root, 'a.b', {'d': 1}, force_add=True)", "OmegaConf.resolve(root)", "root.l[0:1] = [other.q]", "root.l.sort(key=str)",
    "root.l.reverse()", "root.clear()", "root = OmegaConf.create(root)", "root = OmegaConf.merge(root, other)",
]


def alphabet(flags, paths, opaths):
    ops = []
    for p in paths:
        for f in flags:
            ops += [f"flagset(root, {p!r}, [{f!r}], [{v}])" for v in (True, False, None)]
            ops.append(f"query(root, {p!r}, {f!r})")
    for p in opaths:
        for f in flags:
            ops += [f"flagset(other, {p!r}, [{f!r}], [{v}])" for v in (True, False, None)]
            ops.append(f"query(other, {p!r}, {f!r})")
    return ops


def fullops():
    return (alphabet(("struct", "readonly", "foo"), ("", "a", "a.b", "l"), ("", "q")) +
            alphabet(("struct",), ("a.b.c", "l.0", "l.0.k", "v", "z"), ()) +
            ["flagset(root, 'a', ['readonly', 'struct'], [True, False])", "flagset(root, '', ['readonly', 'struct'], [None, True])",
             "root._get_node('a')._set_flags_root(True)", "root._get_node('a')._set_flags_root(False)"] +
            STRUCT_OPS)


def redops():
    return (alphabet(("struct",), ("", "a", "a.b"), ("q",)) +
            ["root.a = other.q", "other.q.w = root.a", "root = copy.deepcopy(root)", "root.a.b = held", "del root['a']",
             "root['a'] = held", "root = pickle.loads(pickle.dumps(root))", "root.l.append(root.a)"])


def one(w, res):
    kind, only, d, deadline = w
    world = FlagWorld({"full": fullops, "red": redops}[kind]())
    b = world.build
    world.build = lambda: dict(b(), query=query)
    bfs(world, d, res, only=[only])
    res.sample(f"all histories of {d} of {len(world.ops)} operations starting with: {only}")


def check(tier):
    q = tier == "quick"
    work = [("red", o, 4 if q else 5, None) for o in redops()] + [("full", o, 2 if q else 3, None) for o in fullops()]
    res = parallel(one, work)
    res.n["validated"] = res.n.get("transitions", 0)
    return res


def replay(case, res):
    w = FlagWorld([])
    ns = dict(w.build(), query=query)
    for o in case["hist"]:
        w.step(ns, o, (), res)
