"""C11: copies and inputs are never aliased.  All (copying operation, later mutation on either side at any node)."""
import attr
import copy
import itertools
import pickle
from dataclasses import dataclass, field
from typing import Any, Dict, List

from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, children, clone, enc, parallel, plain, run, sdiff, show_exc, snap
from .ops import CFGS, NS, at, chunks, node_paths, src_key
from omegaconf import ListMergeMode, SCMode

LEVEL = "model_checking"
ASSUMPTIONS = ["unsafe_merge is documented to destroy its inputs and is not a copying operation here",
               "a copy of a node below the root keeps the parent of the original (documented by the implementation), so it inherits flags and resolves interpolations there"]


@dataclass
class HAny:
    v: Any = None
    w: Any = None


@dataclass
class HD:
    v: Dict[str, Any] = field(default_factory=dict)


@dataclass
class HL:
    v: List[Any] = field(default_factory=list)


@attr.s(auto_attribs=True)
class HAttr:
    v: Any = None


ENV = dict(NS, HAny=HAny, HD=HD, HL=HL, HAttr=HAttr, copy=copy, pickle=pickle, SCMode=SCMode)


def flagged(src, *fl):
    c = eval(src, ENV)
    for p, f, v in fl:
        at(c, p)._set_flag(f, v)
    return c


def scramble(v):
    """change every part of a value in place"""
    if isinstance(v, Node):
        todo = list(nodes(v))
        for n in todo:
            n._set_flag("other", not n._get_node_flag("other"))
            n._set_flag(["readonly", "struct"], [False, False])
            if n is not v:
                n._set_key("changed")
        for n in todo:
            if isinstance(n, DictConfig) and isinstance(n.__dict__["_content"], dict):
                n.__dict__["_content"]["zz9"] = 1
            elif isinstance(n, ListConfig) and isinstance(n.__dict__["_content"], list):
                n.__dict__["_content"].append(1)
            elif isinstance(n, UnionNode):
                n.__dict__["_content"] = None
            elif not isinstance(n, Box):
                n._val = None
        for n in reversed(todo):
            if isinstance(n, Box):
                n.__dict__["_content"] = None
    elif isinstance(v, dict):
        for x in list(v.values()):
            scramble(x)
        v["zz9"] = 1
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.append(99)
    elif hasattr(v, "__dataclass_fields__") or hasattr(v, "__attrs_attrs__"):
        for k, x in list(v.__dict__.items()):
            scramble(x)
            object.__setattr__(v, k, 99)


ENV["flagged"] = flagged
ENV["scramble"] = scramble
SRC = dict(CFGS)
SRC.update({
    "Flag": "flagged(\"OmegaConf.create({'a': 1, 'd': {'x': 1, 'e': {'y': '${a}'}}, 'l': [1, {'k': 2}]})\", ('d', 'struct', True), ('l', 'other', False), ('d|e', 'other', True), ('a', 'other', True))",
    "RO": "flagged(\"OmegaConf.create({'d': {'x': [1, 2]}, 'l': [[1], {'k': 2}]})\", ('', 'readonly', True))",
    "Frozen": "OmegaConf.create({'f': Frozen, 'l': [Frozen()]})",
    "Special": "OmegaConf.create({'dn': DictConfig(None), 'dm': DictConfig('???'), 'di': DictConfig('${u}'), 'u': {'q': [1]}, 'li': ListConfig('${u.q}'), 'ln': ListConfig(None)})",
    "L": "OmegaConf.create([[1, [2]], {'k': [1]}, 3, '${2}'])",
})
PLAIN = {
    "p1": "{'a': 1, 'd': {'x': [1, {'y': 2}]}, 'l': [[1], {'k': {}}]}",
    "p2": "[1, [2, [3]], {'k': [4]}]",
    "p3": "{'d': {}, 'l': []}",
    "i1": "Nest(pt=Pt3(5), a={'q': [1]}, li=[7], ds={'k': 3})",
    "i2": "Cont()",
    "i3": "HAny(v=[1, {'k': [2]}], w={'q': {}})",
    "i4": "HAttr(v={'a': [1]})",
    "m1": "{'a': OmegaConf.create({'x': [1]}), 'l': [OmegaConf.create([1, {'k': 2}]), ListConfig([5], element_type=int)], 'i': Pt(4), 'h': HAny(v=[1])}",
    "m2": "HAny(v=OmegaConf.create({'x': [1]}), w=[OmegaConf.create({'q': 1})])",
    "m3": "[{'k': OmegaConf.create({'x': '${y}', 'y': 1})}, OmegaConf.structured(Pt)]",
}

# operations producing r from the node n (of config c) or a plain value n
COPIES = ["copy.copy(n)", "copy.deepcopy(n)", "pickle.loads(pickle.dumps(n))"]
BOTH = ["OmegaConf.create({'w': n})", "OmegaConf.create([n, n])", "OmegaConf.merge({'w': {}}, {'w': n})", "OmegaConf.merge({'w': n}, {})", "OmegaConf.merge({'w': n}, {'w': n})",
        "OmegaConf.structured(HAny(v=n, w=n))", "OmegaConf.create(HAny(v=n))", "OmegaConf.structured(HAttr(v=n))", "DictConfig({'w': n})", "ListConfig([n])", "OmegaConf.structured(HD(v={'k': n}))", "OmegaConf.structured(HL(v=[n]))"]
INTO = ["t.k = n", "t['k'] = n", "t.update({'k': n})", "t.update(k=n)", "t.setdefault('k', n)", "OmegaConf.update(t, 'k', n)", "OmegaConf.update(t, 'k', n, merge=False)", "OmegaConf.update(t, 'x.y', n, force_add=True)",
        "t.merge_with({'k': n})", "t.merge_with(OmegaConf.create({'k': n}))", "t.l.append(n)", "t.l.insert(0, n)", "t.l.extend([n, n])", "t.l += [n]", "t.l[0] = n", "t.l[0:0] = [n]", "t.l[:] = [n, n]", "t.l.merge_with([n])",
        "t.l.merge_with([n], list_merge_mode=ListMergeMode.EXTEND)", "t.l.merge_with([n], list_merge_mode=ListMergeMode.EXTEND_UNIQUE)", "OmegaConf.update(t, 'l', [n])", "t.d = n", "t.d.update({'e': n})", "t.merge_with({'d': {'e': n}})",
        "t.h.v = n", "t.td['k'] = n", "t.tl.append(n)", "t.h.w = [n]", "t.n = n", "t.m = n"]
CONT_ONLY = ["OmegaConf.create(n)", "OmegaConf.merge(n)", "OmegaConf.merge(n, {})", "OmegaConf.merge({}, n)", "OmegaConf.merge(n, n)", "OmegaConf.merge([], n)", "OmegaConf.merge(n, [])", "OmegaConf.structured(HD(v=n))",
             "OmegaConf.structured(HL(v=n))", "OmegaConf.merge([5], n, list_merge_mode=ListMergeMode.EXTEND)", "OmegaConf.merge(n, [5], list_merge_mode=ListMergeMode.EXTEND)", "OmegaConf.merge(n, n, list_merge_mode=ListMergeMode.EXTEND)",
             "OmegaConf.merge(n, n, list_merge_mode=ListMergeMode.EXTEND_UNIQUE)", "DictConfig(n)", "ListConfig(n)", "OmegaConf.merge({'zz': {'q': 1}}, n)", "ListConfig([]) + n", "OmegaConf.create([]) + [n]"]
CFG_ONLY = ["n.copy()", "n + n", "n + [5]", "OmegaConf.masked_copy(n, list(n))", "OmegaConf.to_container(n)", "OmegaConf.to_container(n, resolve=True)",
            "OmegaConf.to_container(n, structured_config_mode=SCMode.INSTANTIATE)", "OmegaConf.to_object(n)", "OmegaConf.create(OmegaConf.to_yaml(n))",
            "[5] + n", "dict(OmegaConf.to_container(n))", "OmegaConf.create({'s': n, 'c': '${oc.create:${s}}'}).c", "OmegaConf.create({'s': n, 'c': '${oc.dict.values:s}'}).c"]
CFG_INTO = ["t.merge_with(n)", "t.l.extend(n)", "t.l += n", "t.l[1:1] = n", "t.l.merge_with(n)", "t.update(n)", "t.l.merge_with(n, list_merge_mode=ListMergeMode.EXTEND)", "t.d.merge_with(n)", "t._set_value(n)", "t.l._set_value(n)", "t.l = n"]
FULL = ["copy.deepcopy(n)", "OmegaConf.merge(n, {})"]
TARGET = "OmegaConf.create({'l': [0, 7], 'd': {'e': 1}, 'n': None, 'm': '???', 'h': HAny, 'td': DictConfig({}, element_type=Any, key_type=str), 'tl': ListConfig([], element_type=Any)})"


def nodes(n):
    yield n
    for _, x in children(n):
        yield from nodes(x)


def objects(v, out):
    """ids of every mutable object that belongs to a value: nodes, their metadata, flags, caches and contents; plain containers; instances"""
    if isinstance(v, Node):
        for n in nodes(v):
            out[id(n)] = n
            out[id(n._metadata)] = n._metadata
            for o in (n._metadata.flags, n.__dict__.get("_flags_cache"), n.__dict__.get("_content")):
                if isinstance(o, (dict, list)):
                    out[id(o)] = o
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            objects(x, out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            objects(x, out)
    elif hasattr(v, "__dict__") and not isinstance(v, type) and (hasattr(v, "__dataclass_fields__") or hasattr(v, "__attrs_attrs__")):
        out[id(v)] = v
        for x in v.__dict__.values():
            objects(x, out)
    return out


def state(v, up=True):
    """Everything observable of a value, including identities of nodes and parents"""
    if isinstance(v, Node):
        root = v
        while up and root._get_parent() is not None:
            root = root._get_parent()
        return (snap(root), tuple((id(n), id(n._get_parent()) if n._get_parent() is not None else 0) for n in nodes(root)))
    if isinstance(v, dict):
        return ("dict", id(v), tuple((enc(k), state(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list", id(v), tuple(map(state, v)))
    if hasattr(v, "__dict__") and not isinstance(v, type) and (hasattr(v, "__dataclass_fields__") or hasattr(v, "__attrs_attrs__")):
        return (type(v).__name__, id(v), tuple((k, state(x)) for k, x in v.__dict__.items()))
    return enc(v)


def mutations(v, name, full=True):
    """source texts mutating v everywhere; `name` evaluates to v"""
    if not full:
        # one composite step that rewrites every node (the order makes every node reachable until it is changed)
        return [f"scramble({name})"]
    out = []
    if isinstance(v, (DictConfig, ListConfig)):
        for p, n in node_paths(v):
            X = f"at({name}, {p!r})"
            if isinstance(n, DictConfig):
                c = n.__dict__["_content"]
                for k in list(c)[:3] if isinstance(c, dict) else []:
                    out += [f"{X}[{src_key(k)}] = 99", f"{X}._get_node({src_key(k)})._set_value(None)", f"{X}.__delitem__({src_key(k)})"]
                out += [f"{X}.zz9 = 99", f"{X}.merge_with({{'zz9': 1}})"]
            elif isinstance(n, ListConfig):
                out += [f"{X}[0] = 99", f"{X}.append(99)", f"{X}.reverse()", f"{X}.insert(0, 98)", f"{X}.__delitem__(0)"]
            out += [f"OmegaConf.set_readonly({X}, True)", f"OmegaConf.set_struct({X}, True)", f"{X}._set_flag('other', None)", f"{X}._set_key('changed')"]
            if isinstance(n, (DictConfig, ListConfig)):
                out += [f"{X}._set_value(None)"]
    elif isinstance(v, dict):
        for k, x in v.items():
            out += [f"{name}[{src_key(k)}] = 99"] + mutations(x, f"{name}[{src_key(k)}]")
        out.append(f"{name}['zz9'] = 1")
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out += [f"{name}[{i}] = 99"] + mutations(x, f"{name}[{i}]")
        out += [f"{name}.append(99)", f"{name}.clear()"]
    elif hasattr(v, "__dataclass_fields__") or hasattr(v, "__attrs_attrs__"):
        for k, x in v.__dict__.items():
            out += [f"object.__setattr__({name}, {k!r}, 99)"] + mutations(x, f"{name}.{k}")
    return out


def execute(src, path, op, muts, res, only=None):
    """-> None or message"""
    def setup():
        ns = dict(ENV)
        s = ns["c"] = eval(src, ENV)
        if isinstance(s, Node):
            for n in nodes(s):
                n._get_flag("readonly")  # fill the caches
        ns["n"] = at(s, path) if isinstance(s, Node) else s
        if "t." in op:
            ns["t"] = eval(TARGET, ENV)
        return ns

    def do(ns):
        r = run(("r = " if "t." not in op else "") + op, ns)
        out = ns["t"] if "t." in op else ns.get("r")
        return r, out

    ns = setup()
    before = state(ns["c"])
    r, out = do(ns)
    res.count("transitions")
    res.count("states")
    after = state(ns["c"])
    if after != before:
        return f"the operand changed ({show_exc(r[1]) if r[0] == 'exc' else 'succeeded'}): {sdiff(before, after)}"
    if r[0] == "exc":
        res.count("failed_copies")
        return None
    if out is None:
        return None
    a, b = objects(ns["c"], {}), objects(out, {})
    if isinstance(out, Node) and out._get_parent() is not None:
        b.pop(id(out._get_parent()), None)
    shared = [a[i] for i in a if i in b]
    if shared:
        return f"shares {len(shared)} mutable objects with its input, e.g. {type(shared[0]).__name__} {str(shared[0])[:80]!r}"
    if op in COPIES or op == "n.copy()":
        s1, s2 = snap(ns["n"], keys=False), snap(out, keys=False)
        if s1 != s2:
            return f"the copy differs from its source: {sdiff(s1, s2)}"
        if isinstance(out, (DictConfig, ListConfig)) and isinstance(plain(out), (dict, list)) and not (out == ns["n"]):
            return "the copy does not equal its source"
    if not muts:
        return None
    full = muts == "full"
    sides = [("out", m) for m in mutations(out, "out", full)] + [("c", m) for m in mutations(ns["c"], "c", full)]
    for side, m in sides:
        ns = setup()
        _, out = do(ns)
        ns["out"] = out
        other = ns["c"] if side == "out" else out
        # a result that keeps the parent of its source is compared by itself: its ancestors belong to the source
        up = other is ns["c"]
        b4 = state(other, up)
        run(m, ns)
        res.count("transitions")
        res.count("mutations")
        now = state(other, up)
        if now != b4:
            return f"then {m} is visible on the other side: {sdiff(b4, now)}"
    return None


def opnames(src, path, tier):
    v = eval(src, ENV)
    n = at(v, path) if isinstance(v, Node) else v
    iscont = isinstance(n, (DictConfig, ListConfig, dict, list)) or not isinstance(n, Node)
    ops = list(BOTH) + list(INTO)
    if isinstance(v, Node):
        ops += COPIES
    if iscont:
        ops += CONT_ONLY + CFG_INTO
    if isinstance(n, (DictConfig, ListConfig)):
        ops += CFG_ONLY
    return ops


def one(w, res):
    src, path, ops, second, full = w
    for op in ops:
        bad = execute(src, path, op, "full" if full or op in FULL else "quick", res)
        if not bad and second:
            bad = chain(src, path, op, res)
        if bad:
            res.violation(f"{src} {path} {op}", f"c = {src}\nn = node {path!r}\n{op}\n{bad}", dict(src=src, path=path, op=op))
            if len(res.viol) >= Result.MAXV:
                return
    res.sample(f"{src}, node {path!r}: {ops[0]}; then every mutation of either side")


SECOND = ["copy.deepcopy(r)", "OmegaConf.create({'z': r})", "OmegaConf.merge({'z': 1}, {'w': r})", "r.copy()", "OmegaConf.merge(r, r)", "pickle.loads(pickle.dumps(r))"]


def chain(src, path, op, res):
    """the result of one copying operation is the input of a second one"""
    for op2 in SECOND:
        ns = dict(ENV)
        s = ns["c"] = eval(src, ENV)
        ns["n"] = at(s, path) if isinstance(s, Node) else s
        if "t." in op:
            ns["t"] = eval(TARGET, ENV)
        r = run(("r = " if "t." not in op else "") + op, ns)
        if r[0] == "exc":
            return None
        if "t." in op:
            ns["r"] = ns["t"]
        if not isinstance(ns.get("r"), (DictConfig, ListConfig)):
            return None
        b4 = (state(ns["c"]), snap(ns["r"]), [id(x) for x in nodes(ns["r"])])
        r2 = run("r2 = " + op2, ns)
        res.count("transitions")
        if (state(ns["c"]), snap(ns["r"]), [id(x) for x in nodes(ns["r"])]) != b4:
            return f"then {op2} changes its operand"
        if r2[0] == "exc":
            continue
        objs = [objects(ns[k], {}) for k in ("c", "r", "r2")]
        for (i, a), (j, b) in itertools.combinations(enumerate(objs), 2):
            sh = [a[x] for x in a if x in b]
            if sh:
                return f"then {op2}: the results share {type(sh[0]).__name__} {str(sh[0])[:80]!r}"
    return None


def check(tier):
    work = []
    for src in SRC.values():
        c = eval(src, ENV)
        for p, n in node_paths(c):
            if isinstance(n, UnionNode) and tier == "quick":
                continue
            if not isinstance(n, (DictConfig, ListConfig)) and tier == "quick" and "|" in p:
                continue
            ops = opnames(src, p, tier)
            heavy = [o for o in ops if o in FULL]
            for ch in [[o] for o in heavy] + chunks([o for o in ops if o not in heavy], 12):
                work.append((src, p, ch, tier != "quick", tier != "quick"))
    for src in PLAIN.values():
        for ch in chunks(opnames(src, "", tier), 12):
            work.append((src, "", ch, True, tier != "quick"))
    work.sort(key=lambda w: (w[2][0] not in FULL, len(w[1])))
    res = parallel(one, work)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    one((case["src"], case["path"], [case["op"]], True, True), res)
