"""C10: every node's key, parent and full key are those of its real position, after every history."""
from .core import DictConfig, ListConfig, OmegaConf, children, clone, enc, plain, run, show_exc, snap
from .ops import Box, Gen, UnionNode, all_ops, attr_ok, node_paths, replay_gen, simple_ops, sweep, tree_bad

LEVEL = "model_checking"
ASSUMPTIONS = ["keys without dots and brackets when the full key is selected back"]

# relative and absolute references inside, so that wrong keys or parents are observable through reads as well
SRC = {
    "R": "OmegaConf.create({'a': 1, 'd': {'x': 2, 'r': '${.x}', 'e': {'y': '${..x}', 'z': '${...a}'}}, 'l': [3, {'k': 4, 's': '${.k}', 't': '${..0}'}, ['${.1}', 5]]})",
    "L": "OmegaConf.create([1, '${.0}', {'q': 2, 'r': '${.q}', 's': '${..0}'}, [7, '${.0}']])",
    "RI": "OmegaConf.create({'d': {'x': 1, 'e': {'y': '${..x}'}}, 'l': ['${d}', {'k': '${d.e}'}, ['${l2}']], 'l2': [1, 2], 'i': '${d}'})",
    "Nest": "OmegaConf.structured(Nest)",
    "Cont": "OmegaConf.structured(Cont)",
    "Mix": "OmegaConf.create({'s': Pt, 'l': [Pt3(x=4)], 'n': None, 'm': '???', 3: {True: 1, b'b': {Color.RED: 2}}})",
}
VALS = ["5", "'foo'", "None", "'???'", "'${a}'", "{'q': {'w': '${..q}'}}", "[1, ['${..0}']]", "Pt(3)", "at(c, 'd')", "at(c, 'l')", "at(c, 'l|1')",
        "o.n", "o.l", "o.l[0]", "DictConfig(o.n)", "c", "IntegerNode(3)"]
MID = ["5", "{'q': '${.w}', 'w': 1}", "[1, '${.0}']", "o.l", "at(c, 'd')", "at(c, 'l')"]
MODES = ["REPLACE", "EXTEND", "EXTEND_UNIQUE"]
ROOT = ["OmegaConf.resolve(c)", "c = copy.deepcopy(c)", "c = copy.copy(c)", "c = pickle.loads(pickle.dumps(c))", "c = OmegaConf.create(c)",
        "c = OmegaConf.masked_copy(c, ['d', 'l'])", "c = OmegaConf.unsafe_merge(c, c)", "c.merge_with(c)"]
ROOT += [f"c = OmegaConf.merge(c, {v}, list_merge_mode=ListMergeMode.{m})" for m in MODES for v in ("c", "o", "{'l': [9, 3]}", "{'l': [{'k': 7}]}", "{'d': {'e': [1]}}", "[2, 1]", "{'li': [2, 5]}", "{'lp': [Pt(), {'x': 8}]}", "{'n': [1]}", "{'m': [1]}")]
ROOT += [f"c.merge_with({v}, list_merge_mode=ListMergeMode.{m})" for m in MODES[1:] for v in ("{'l': [9, 3]}", "o", "[2, 1]", "{'li': [2, 5]}")]
ROOT += ["at(c, 'l').sort(key=str)", "at(c, 'l').sort(key=str, reverse=True)", "at(c, '').sort(key=str)", "at(c, 'li').sort(reverse=True)",
         "at(c, 'l').__setitem__(slice(0, 1), [1, {'k': '${..0}'}, 3])", "at(c, 'l').__setitem__(slice(None, None, 2), [8, 9])",
         "at(c, 'l').__setitem__(slice(1, 1), o.l)", "at(c, 'l').__delitem__(slice(0, 2))", "at(c, 'l').__iadd__(o.l)", "at(c, 'l').extend(at(c, 'l'))",
         "at(c, '').__iadd__([{'k': 1}])", "c.merge_with_dotlist(['l.0=8', 'd.e.y=3'])", "c = c + [1, [2]]", "c = [{'p': 1}] + c",
         "at(c, 'd').update(o)", "at(c, '').update(o, z={'y': 1})", "at(c, 'd')['e'] = at(c, 'd')", "c = c.copy()",
         "at(c, 'l')[0], at(c, 'l')[1] = at(c, 'l')[1], at(c, 'l')[0]"]


def fullkey(path):
    s = ""
    for parent, k in path:
        if isinstance(parent, ListConfig):
            s += f"[{k}]"
        else:
            k = k.name if hasattr(k, "name") else str(k)
            s += f".{k}" if s else k
    return s


def walk(n, path=()):
    yield path, n
    if isinstance(n, Box) and not isinstance(n, UnionNode):
        for k, x in children(n):
            yield from walk(x, path + ((n, k),))


class W(Gen):
    roots = ("c", "o")

    def build(self):
        ns = super().build()
        ns["o"] = OmegaConf.create({"n": {"y": {"z": 1}}, "l": [{"k": 8}, 9]})
        return ns

    def canon(self, ns):
        return snap(ns["c"])

    def pre(self, ns, op):
        return ns["c"]

    def mon(self, ns, op, pre, r):
        for name in ("c", "o"):
            b = tree_bad(ns[name])
            if b:
                return f"{name}: " + b + (f" (raised {show_exc(r[1])})" if r[0] == "exc" else "")
        b = self.keys(ns["c"])
        if b:
            return b
        if r[0] == "ok" and "OmegaConf.structured" not in self.src and "Pt" not in self.src:
            return self.reads(ns["c"])

    def keys(self, c):
        for path, n in walk(c):
            want = fullkey(path)
            got = n._get_parent()._get_full_key(n._key()) if path else ""
            if got != want:
                return f"full key of the node at {want!r} is {got!r}"
            if path and isinstance(n, (DictConfig, ListConfig)) and not n._is_interpolation() and not n._is_missing():
                if all(isinstance(k, str) and k.isidentifier() or isinstance(p, ListConfig) for p, k in path):
                    inter = any(p._is_interpolation() for p, _ in path)
                    s = OmegaConf.select(c, want)
                    if not inter and not (s is n or (s is None and n._is_none())):
                        return f"select({want!r}) does not return the node there"
        return None

    def reads(self, c):
        """Every interpolation reads as it does in a config freshly built from the same content."""
        if not any(not isinstance(n, Box) and n._is_interpolation() for _, n in walk(c)):
            return None
        fresh = OmegaConf.create(OmegaConf.to_container(c, resolve=False))
        for (path, n), (_, f) in zip(walk(clone(c)), walk(fresh)):
            if isinstance(n, Box) or not n._is_interpolation():
                continue
            a = run("p._resolve_with_default(key=k, value=n)", {"p": n._get_parent(), "k": n._key(), "n": n})
            b = run("p._resolve_with_default(key=k, value=n)", {"p": f._get_parent(), "k": f._key(), "n": f})
            if a[0] != b[0] or (a[0] == "ok" and enc(plain(a[1])) != enc(plain(b[1]))) or (a[0] == "exc" and type(a[1]) is not type(b[1])):
                return (f"{n._value()!r} at {fullkey(path)} reads {a[1]!r}; in a fresh config with the same content it reads {b[1]!r}")
        return None


def check(tier):
    q = tier == "quick"
    plan = []
    for name, src in SRC.items():
        ops = all_ops(src, VALS) + ROOT
        small = simple_ops(src, MID[:4] if q else MID) + ROOT
        plan.append((src, 1, ops))
        if q:
            plan.append((src, 2, simple_ops(src, MID[:3]) + ROOT, simple_ops(src, MID[:2]) + ROOT))
        else:
            plan.append((src, 2, ops, small))
            sm = simple_ops(src, MID[:2]) + ROOT[::2]
            plan.append((src, 3, sm, sm, sm))
    res = sweep(W, plan)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    replay_gen(W, case, res)
