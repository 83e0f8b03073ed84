"""Operation alphabets (as source text) over the nodes of a config `c`, shared by several checks."""
import copy
import pickle

from . import fix
from .core import (Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, World, bfs, children, clone, enc, parallel, plain,
                   run, show_exc, snap)
from omegaconf import ListMergeMode  # noqa: E402
from omegaconf import (AnyNode, BooleanNode, BytesNode, EnumNode, FloatNode, IntegerNode, PathNode, StringNode, flag_override,
                       open_dict, read_write)


def at(c, path):
    """The raw node at a path (no access checks, no resolution), navigating containers only."""
    n = c
    for k in path.split("|") if path else []:
        if not isinstance(n, Box):
            return None
        d = dict(children(n))
        if isinstance(n, ListConfig):
            k = int(k)
        if k not in d:
            m = [x for x in d if getattr(x, "name", None) == k or str(x) == k]
            if not m:
                return None
            k = m[0]
        n = d[k]
    return n


NS = dict(fix.NS)
NS.update({k: v for k, v in globals().items() if not k.startswith("__")})


def attr_ok(k):
    return k.startswith("'") and k[1:-1].isidentifier()


def dict_ops(path, keys, vals, single=True, multi=True):
    """keys, vals: source text"""
    X = f"at(c, {path!r})"
    o = []
    for k in keys:
        o += [f"{X}.__delitem__({k})", f"{X}.pop({k})", f"{X}.pop({k}, 'dflt')"]
        if attr_ok(k):
            o.append(f"delattr({X}, {k})")
        for v in vals:
            if single:
                o += [f"{X}[{k}] = {v}", f"{X}.setdefault({k}, {v})"]
                if attr_ok(k):
                    o += [f"{X}.{k[1:-1]} = {v}", f"OmegaConf.update({X}, {k}, {v}, merge=False)",
                          f"OmegaConf.update({X}, {k}, {v}, merge=False, force_add=True)"]
            if multi:
                o += [f"{X}.update({{{k}: {v}}})", f"{X}.merge_with({{{k}: {v}}})"]
                if attr_ok(k):
                    o += [f"OmegaConf.update({X}, {k}, {v}, merge=True)"]
    o += [f"{X}.popitem()", f"{X}.clear()"]
    return o


def list_ops(path, idx, vals, single=True, multi=True):
    X = f"at(c, {path!r})"
    o = []
    for i in idx:
        o += [f"{X}.__delitem__({i})", f"{X}.pop({i})"]
        for v in vals:
            if single:
                o += [f"{X}[{i}] = {v}", f"{X}.insert({i}, {v})"]
                if i >= 0:
                    o += [f"OmegaConf.update({X}, '{i}', {v}, merge=False)"]
            if multi and i >= 0:
                o += [f"OmegaConf.update({X}, '{i}', {v}, merge=True)"]
    for v in vals:
        if single:
            o.append(f"{X}.append({v})")
            o.append(f"{X}.remove({v})")
        if multi:
            o += [f"{X}.extend([{v}])", f"{X}.__setitem__(slice(0, 1), [{v}, {v}])", f"{X}.merge_with([{v}])", f"{X}.__iadd__([{v}])"]
    o += [f"{X}.pop()", f"{X}.clear()", f"{X}.reverse()", f"{X}.sort()", f"{X}.pop(-2)", f"{X}.__delitem__(-2)"]
    if single and vals:
        o += [f"{X}.insert(-1, {vals[0]})", f"{X}.insert(9, {vals[-1]})", f"{X}[-1] = {vals[-1]}", f"{X}[-2] = {vals[0]}"]
    if multi:
        o += [f"{X}.__delitem__(slice(None, None, 2))"]
        o += [f"{X}.__delitem__(slice(0, 2))", f"{X}.__setitem__(slice(0, 2), [])", f"{X}.merge_with([])"]
    return o


def node_paths(n, path=()):
    yield "|".join(str(getattr(x, "name", x)) for x in path), n
    if isinstance(n, Box) and not isinstance(n, UnionNode):
        for k, x in children(n):
            yield from node_paths(x, path + (k,))


def src_key(k):
    import enum
    return f"{type(k).__name__}.{k.name}" if isinstance(k, enum.Enum) else repr(k)


def all_ops(src, vals, newkeys=("'zz'",), nkeys=3, skip=(), **kw):
    """Every operation of the alphabet at every container node of the config built from `src`."""
    c = eval(src, dict(NS))
    out = []
    for path, n in node_paths(c):
        if path in skip:
            continue
        if isinstance(n, DictConfig):
            keys = [src_key(k) for k in (list(n.__dict__["_content"]) if isinstance(n.__dict__["_content"], dict) else [])]
            out += dict_ops(path, keys[:nkeys] + list(newkeys), vals, **kw)
        elif isinstance(n, ListConfig):
            ln = len(n.__dict__["_content"]) if isinstance(n.__dict__["_content"], list) else 0
            out += list_ops(path, sorted({0, ln - 1, -1, ln} if ln else {0}), vals, **kw)
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ structural invariant
def tree_bad(root):
    """Every node's parent and key are those of its position; no node occurs twice."""
    seen = {}
    root_parent = root._get_parent()
    if root_parent is not None:
        return f"root has parent {root_parent!r}"

    def go(n, path):
        if id(n) in seen:
            return f"same node object at {seen[id(n)]} and {path}"
        seen[id(n)] = path
        for k, x in children(n):
            p = f"{path}.{k}" if k is not None else path + "<union>"
            if not isinstance(x, Node):
                return f"{p}: not a node: {x!r}"
            par = x._metadata and x.__dict__.get("_parent")
            if par is not n:
                return f"{p}: parent is {'None' if par is None else 'another node'}"
            key = x._metadata.key
            if isinstance(n, UnionNode):
                pass
            elif not (key == k and type(key) is type(k)):
                # 1 and True are the same dict key
                if not (key == k and isinstance(n, DictConfig)):
                    return f"{p}: stored key is {key!r}"
            b = go(x, p)
            if b:
                return b
        return None

    return go(root, "root")


class Gen(World):
    """World over one config `c` (source text) and an op alphabet; subclasses override `mon`."""

    roots = ("c",)

    def __init__(self, src, *layers):
        """layers: the op alphabet of the first, second, ... operation of a history (the last one repeats)"""
        self.src, self.layers = src, layers

    def ops_at(self, d):
        return self.layers[min(d, len(self.layers) - 1)]

    def build(self):
        ns = dict(NS)
        ns["c"] = eval(self.src, ns)
        return ns

    def clone(self, ns):
        out = dict(ns)
        memo = {}
        for r in self.roots:
            out[r] = clone(ns[r], memo)
        return out

    def canon(self, ns):
        return snap(ns["c"])

    def pre(self, ns, op):
        return None

    def mon(self, ns, op, pre, r):
        """-> None or message"""

    def step(self, ns, op, hist, res):
        pre = self.pre(ns, op)
        r = run(op, ns)
        if r[0] == "exc" and isinstance(r[1], NameError):
            raise r[1]
        bad = self.mon(ns, op, pre, r)
        if bad and hist is not None:
            h = list(hist) + [op]
            res.violation(self.sig(h, bad), f"c = {self.src}\n" + "\n".join(h) + f"\n{bad}",
                          dict(src=self.src, hist=h, program="# from mc.ops import *\n" + f"c = {self.src}\n" + "\n".join(h)))
        if r[0] == "exc" and res is not None:
            res.count("failing_ops")
        return not bad and r[0] == "ok"

    def sig(self, h, bad):
        return f"{self.src} ;; " + " ;; ".join(h)


CFGS = {
    "U": "OmegaConf.create({'a': 1, 'd': {'x': 1, 'e': {'y': 2}}, 'l': [1, {'k': 2}, [3]], 'm': '???', 'n': None, 'i': '${a}'})",
    "Nest": "OmegaConf.structured(Nest)",
    "NestI": "OmegaConf.structured(Nest(pt=Pt3(x=2), opt=Pt(3), a={'q': [1]}, m=3))",
    "Cont": "OmegaConf.structured(Cont)",
    "Prim": "OmegaConf.structured(Prim)",
    "Opt": "OmegaConf.structured(Opt)",
    "Td": "DictConfig({'k': 1}, key_type=str, element_type=int)",
    "Tl": "ListConfig([1, 2], element_type=int)",
    "Emb": "OmegaConf.create({'s': Pt, 'l': [Pt3(x=4)], 'v': 1})",
}
VALS = ["5", "'foo'", "None", "'???'", "'${a}'", "{'q': 1}", "[1]", "Pt(3)"]


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def sweep(cls, plan, extra=None, chunk=16):
    """plan: [(src, depth, layers...)]: all histories up to `depth`, the i-th operation drawn from the i-th layer."""
    work = []
    for src, depth, *layers in plan:
        for ch in chunks(layers[0], chunk if depth == 1 else max(1, chunk // 4)):
            work.append((src, depth, layers, ch))

    def one(w, res):
        src, depth, layers, ch = w
        world = cls(src, *layers)
        bfs(world, depth, res, only=ch)
        res.sample(f"c = {src}: all histories up to length {depth} of {'/'.join(str(len(x)) for x in layers)} operations; first e.g. {ch[0]}")

    return parallel(one, work)


def replay_gen(cls, case, res):
    w = cls(case["src"], [])
    ns = w.build()
    for o in case["hist"]:
        w.step(ns, o, (), res)


def simple_ops(src, vals, newkeys=("'zz'",)):
    """A reduced alphabet: one assignment form and one removal per node."""
    c = eval(src, dict(NS))
    out = []
    for path, n in node_paths(c):
        X = f"at(c, {path!r})"
        if isinstance(n, DictConfig):
            cont = n.__dict__["_content"]
            keys = [src_key(k) for k in (list(cont) if isinstance(cont, dict) else [])] + list(newkeys)
            out += [f"{X}[{k}] = {v}" for k in keys for v in vals] + [f"{X}.__delitem__({k})" for k in keys[:-1]]
        elif isinstance(n, ListConfig):
            cont = n.__dict__["_content"]
            ln = len(cont) if isinstance(cont, list) else 0
            out += [f"{X}[{i}] = {v}" for i in range(ln) for v in vals] + [f"{X}.append({v})" for v in vals]
            out += [f"{X}.insert(0, {v})" for v in vals[:2]] + ([f"{X}.__delitem__(0)"] if ln else [])
    return list(dict.fromkeys(out))
