"""C08: every node of a typed config conforms to its declared type after every history of operations."""
import dataclasses
import enum
import typing
from pathlib import Path
from typing import Any, Dict, List, Union, get_args, get_origin, get_type_hints

import attr

from . import fix
from .core import Box, DictConfig, ListConfig, Node, OmegaConf, UnionNode, ValueNode, children, show_exc, sdiff, snap
from .ops import Gen, all_ops, replay_gen, simple_ops, sweep

LEVEL = "model_checking"
ASSUMPTIONS = ["declared types are read from the classes' annotations with typing.get_type_hints, not from omegaconf's metadata"]
NoneT = type(None)


def isclass(t):
    return isinstance(t, type) and (dataclasses.is_dataclass(t) or attr.has(t))


_hints = {}


def hints(cls):
    if cls not in _hints:
        h = get_type_hints(cls)
        names = ([f.name for f in dataclasses.fields(cls)] if dataclasses.is_dataclass(cls)
                 else [a.name for a in attr.fields(cls)])
        _hints[cls] = {n: h[n] for n in names}
    return _hints[cls]


def split_opt(t):
    """-> (is optional, type without None)"""
    if t is Any:
        return True, Any
    if get_origin(t) is Union:
        args = get_args(t)
        rest = tuple(a for a in args if a is not NoneT)
        return NoneT in args, rest[0] if len(rest) == 1 else Union[rest]
    return False, t


def special(v):
    return isinstance(v, str) and (v == "???" or "${" in v)


def bad_value(v, t):
    """v: plain non-None, non-special value; t: primitive type"""
    if t is Any:
        return None
    if t is Path:
        return None if isinstance(v, Path) else "is not a Path"
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return None if isinstance(v, t) else f"is not a {t.__name__}"
    return None if type(v) is t else f"is not exactly a {getattr(t, '__name__', t)}"


def bad(n, t, path):
    """None when the node conforms to the annotation t, else a message."""
    opt, r = split_opt(t)
    m = n._metadata
    org = get_origin(r)
    # the declared type of the node itself must still be the annotation
    mo, mr = m.optional, m.ref_type
    if r is not Any:  # a node put into an Any field keeps its own type
        if mr is not r and mr != r:
            return f"{path}: declared type is now {mr}, annotation {t}"
    if mo != opt and not (r is Any):
        return f"{path}: optional is now {mo}, annotation {t}"
    if isinstance(n, UnionNode):
        c = n.__dict__["_content"]
        if get_origin(r) is not Union:
            return f"{path}: union node for {t}"
        if c is None:
            return None if opt else f"{path}: None in {t}"
        if isinstance(c, str):
            return None if special(c) else f"{path}: raw string {c!r} in union node"
        v = c._value()
        if v is None:
            return f"{path}: None inside the union member"
        if not any(bad_value(v, a) is None for a in get_args(r)):
            return f"{path}: {v!r} is not a member of {t}"
        return None
    if isinstance(n, ValueNode):
        v = n._value()
        if v is None:
            return None if opt else f"{path}: None in {t}"
        if special(v):
            return None
        if org is not None and org is not Union or isclass(r):
            return f"{path}: plain value {v!r} in {t}"
        if org is Union:
            return f"{path}: value node in {t}"
        b = bad_value(v, r)
        return f"{path}: {v!r} ({type(v).__name__}) {b}" if b else None
    c = n.__dict__["_content"]
    if c is None:
        return None if opt else f"{path}: None in {t}"
    if isinstance(c, str):
        return None if special(c) and (r is Any or org is not None or isclass(r)) else f"{path}: {c!r} in {t}"
    if r is Any:
        return bad_tree(n, path)
    if isclass(r):
        if not isinstance(n, DictConfig) or not (isinstance(m.object_type, type) and issubclass(m.object_type, r)):
            return f"{path}: runtime type {m.object_type} in {t}"
        return bad_tree(n, path)
    if org is list:
        if not isinstance(n, ListConfig):
            return f"{path}: {type(n).__name__} in {t}"
        if m.element_type != get_args(r)[0]:
            return f"{path}: element type is now {m.element_type}, annotation {t}"
        for i, x in enumerate(c):
            b = bad(x, get_args(r)[0], f"{path}[{i}]")
            if b:
                return b
        return None
    if org is dict:
        if not isinstance(n, DictConfig):
            return f"{path}: {type(n).__name__} in {t}"
        kt, vt = get_args(r)
        if m.element_type != vt or m.key_type != kt:
            return f"{path}: key/element types are now {m.key_type}/{m.element_type}, annotation {t}"
        if isclass(m.object_type):
            return f"{path}: structured config in {t}"
        for k, x in c.items():
            b = bad(x, vt, f"{path}[{k!r}]")
            if b:
                return b
            if kt is not Any and bad_value(k, kt):
                return f"{path}: key {k!r} of {t}"
        return None
    return f"{path}: container in {t}"


def bad_tree(n, path):
    """Conformance of a node whose declared type is Any: what it contains must still conform."""
    if isinstance(n, DictConfig):
        c = n.__dict__["_content"]
        if not isinstance(c, dict):
            return None
        ot = n._metadata.object_type
        if isclass(ot):
            hs = hints(ot)
            missing = [f for f in hs if f not in c]
            if missing:
                return f"{path}: fields {missing} of {ot.__name__} are gone"
            for k, x in c.items():
                b = bad(x, hs[k], f"{path}.{k}") if k in hs else bad_tree(x, f"{path}.{k}")
                if b:
                    return b
            return None
        m = n._metadata
        for k, x in c.items():
            et = m.element_type
            b = bad_tree(x, f"{path}.{k}") if et in (None, Any) else bad(x, et, f"{path}.{k}")
            if b:
                return b
            if m.key_type not in (None, Any) and bad_value(k, m.key_type):
                return f"{path}: key {k!r} in a dict with keys {m.key_type}"
    elif isinstance(n, ListConfig) and isinstance(n.__dict__["_content"], list):
        et = n._metadata.element_type
        for i, x in enumerate(n.__dict__["_content"]):
            b = bad_tree(x, f"{path}[{i}]") if et in (None, Any) else bad(x, et, f"{path}[{i}]")
            if b:
                return b
    return None


class W(Gen):
    def build(self):
        ns = super().build()
        c = ns["c"]
        b = bad_tree(c, "root")
        assert b is None, b
        ns["types"] = (c._metadata.key_type, c._metadata.element_type)
        return ns

    def mon(self, ns, op, pre, r):
        c = ns["c"]
        if (c._metadata.key_type, c._metadata.element_type) != ns["types"]:
            return f"root element types changed from {ns['types']}"
        b = bad_tree(c, "root")
        if b:
            return (f"(raised {show_exc(r[1])}) " if r[0] == "exc" else "") + b


SRC = {
    "Nest": "OmegaConf.structured(Nest)",
    "NestI": "OmegaConf.structured(Nest(pt=Pt3(x=2), opt=Pt(3), a={'q': [1]}, m=3))",
    "Cont": "OmegaConf.structured(Cont)",
    "Prim": "OmegaConf.structured(Prim)",
    "Opt": "OmegaConf.structured(Opt)",
    "Td": "DictConfig({'k': 1}, key_type=str, element_type=int)",
    "Tde": "DictConfig({Color.RED: Pt()}, key_type=Color, element_type=Pt)",
    "Tl": "ListConfig([1, 2], element_type=int)",
    "Tlo": "ListConfig([Pt(), None], element_type=Optional[Pt])",
    "Tlu": "ListConfig([1, 'a'], element_type=Union[int, str])",
    "Emb": "OmegaConf.create({'s': Pt, 'l': [Pt3(x=4)], 'v': 1, 'a': APt})",
}
VALS = ["5", "True", "1.5", "'foo'", "'5'", "'1.5'", "None", "'???'", "b'x'", "Color.RED", "'RED'", "Size.S", "Path('q')", "'${x}'",
        "[1, 'x']", "[]", "{'k': 'x'}", "{'k': 7}", "{}", "Pt(3)", "Pt3(x=3)", "Pt", "Other()", "APt()", "{'x': 9}", "{'x': 'bad'}",
        "StringNode('foo')", "AnyNode('foo')", "IntegerNode(5)", "FloatNode(2.5)", "EnumNode(Color, Color.RED)", "BooleanNode(True)", "StringNode(None)", "IntegerNode('???')", "StringNode('${x}')",
        "DictConfig({'k': 'x'})", "DictConfig({'x': 8})", "ListConfig(['x'])", "ListConfig([3])", "DictConfig(None)", "ListConfig(None)",
        "DictConfig('???')", "ListConfig('???')", "DictConfig('${x}')", "OmegaConf.structured(Pt3)", "OmegaConf.structured(Other)", "object()",
        "[None]", "{'k': None}", "[[1]]", "[['x']]", "DictConfig({'k': 1}, element_type=int)", "ListConfig([1], element_type=int)",
        "DictConfig({'k': 'x'}, element_type=str)", "ListConfig(['x'], element_type=str)", "ListConfig([Other()], element_type=Other)",
        "[Pt(5)]", "[Other()]", "{'p': Pt3()}", "{'p': Other()}"]
MID = ["5", "'foo'", "None", "'???'", "'${x}'", "{'k': 7}", "[3]", "Pt3(x=3)", "StringNode('foo')", "{'x': 9}"]
ROOT = ["OmegaConf.resolve(c)", "c = copy.deepcopy(c)", "c = copy.copy(c)", "c = pickle.loads(pickle.dumps(c))", "c = OmegaConf.create(c)",
        "c.merge_with(c)", "c = OmegaConf.merge(c, c)", "c = OmegaConf.unsafe_merge(c, {})", "c.merge_with(Nest(m=1))", "c.merge_with(Cont())",
        "c.merge_with(Pt3())", "c.merge_with(Other())"]


def dotlist(src):
    out = []
    from .ops import NS, node_paths
    c = eval(src, dict(NS))
    for p, n in node_paths(c):
        if not p or isinstance(c, ListConfig):
            continue
        for v in ("5", "foo", "null", "???", "[x]", "[1]", "{k: x}", "{x: 4}", "true", "1.5", "${x}", "RED"):
            out.append(f"c.merge_with_dotlist([{(p.replace('|', '.') + '=' + v)!r}])")
    return out


EXTEND = ["OmegaConf.merge(c, %s, list_merge_mode=ListMergeMode.%s)" % (v, m) for v in ("{'li': ['x']}", "{'li': [7]}", "{'lp': [Other()]}", "{'lp': [{'x': 5}]}",
          "{'ll': [['x']]}", "{'lo': [None, 'y']}", "ListConfig(['x'])", "ListConfig([4])") for m in ("EXTEND", "EXTEND_UNIQUE")]
EXTEND = ["c = " + e for e in EXTEND]


def check(tier):
    q = tier == "quick"
    plan = []
    for name, src in SRC.items():
        # attribute deletion of a declared field is allowed by design (tested upstream): not an operation of this check
        ops = [o for o in all_ops(src, VALS) if not o.startswith('delattr')] + ROOT + dotlist(src) + EXTEND
        mid = all_ops(src, MID if not q else MID[:4] + MID[-2:]) + ROOT
        small = simple_ops(src, MID) + ROOT[:5]
        plan.append((src, 1, ops))
        if q:
            plan.append((src, 2, small, simple_ops(src, MID[:8]) + ROOT))
        else:
            plan.append((src, 2, small, ops))
            plan.append((src, 3, small, small, small))
    res = sweep(W, plan)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    replay_gen(W, case, res)
