"""C21: pickle and copy round trips preserve everything.  Configs x flag placements x routes; then every operation in lockstep on both."""
import copy
import itertools
import pickle
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple, Union

from . import c16
from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, children, clone, enc, parallel, plain, run, sdiff, show_exc, snap
from .fix import Color, Pt, Pt3
from .ops import VALS, all_ops, at, chunks, node_paths, simple_ops, src_key, tree_bad
from omegaconf import II, MISSING

LEVEL = "model_checking"
ASSUMPTIONS = ["copy.copy of a container shares its nodes only below the documented one level; it is compared as content and behaviour of the copy",
               "a copy of a node below the root keeps its parent (shared), so only whole configs are deep-copied; every node is pickled"]


@dataclass
class Deep:
    u: Union[int, str] = "a"
    uo: Optional[Union[int, float]] = None
    um: Union[int, bool] = MISSING
    ui: Union[int, str] = II("n")
    lu: List[Union[int, str]] = field(default_factory=lambda: [1, "a"])
    du: Dict[str, Optional[Union[int, str]]] = field(default_factory=lambda: {"k": None, "j": 3})
    dl: Dict[str, List[Pt]] = field(default_factory=lambda: {"k": [Pt(), Pt(3)]})
    ld: List[Dict[Color, int]] = field(default_factory=lambda: [{Color.RED: 1}])
    dd: Dict[str, Dict[str, int]] = field(default_factory=lambda: {"k": {"j": 1}})
    ol: Optional[List[int]] = None
    om: List[int] = MISSING
    od: Optional[Dict[str, Any]] = None
    olp: List[Optional[Pt]] = field(default_factory=lambda: [None, Pt()])
    t: Tuple[int, int] = (1, 2)
    n: int = 4
    a: Any = field(default_factory=lambda: {"x": [1, {"y": "${n}"}]})
    plain_d: dict = field(default_factory=lambda: {"z": 1})
    plain_l: list = field(default_factory=lambda: [1, [2]])


@dataclass
class DSub(Dict[str, int]):
    pass


@dataclass
class DSubF(Dict[str, Any]):
    name: str = "n"


c16.ENV.update(Deep=Deep, DSub=DSub, DSubF=DSubF, all=all)
ENV = c16.ENV
BASE = dict(c16.BASE)
BASE.pop("sub")
BASE.update({
    "deep": "OmegaConf.structured(Deep)",
    "deep2": "OmegaConf.structured(Deep(u=5, uo=0.5, um=True, ol=[1], om=[2], od={'q': 1}))",
    "dsub": "OmegaConf.structured(DSub(q=1)) if False else OmegaConf.structured(DSub)",
    "dsubf": "OmegaConf.create({'s': DSubF})",
    "ddtyped": "DictConfig({'a': {'b': 1}}, key_type=str, element_type=__import__('typing').Dict[str, int])",
    "keyint": "DictConfig({1: 'a', 2: '???'}, key_type=int, element_type=str)",
    "keyenum": "DictConfig({Color.RED: 1}, key_type=Color, element_type=int)",
    "roflag": "OmegaConf.create({'a': {'b': {'c': [1, {'d': 2}]}}, 'e': None}, flags={'readonly': True, 'struct': True, 'custom': False})",
    "objs": "OmegaConf.create({'o': complex(1, 2)}, flags={'allow_objects': True})",
    "nodes": "OmegaConf.create({'i': IntegerNode(1), 's': StringNode('x', is_optional=False), 'e': EnumNode(Color, 'RED'), 'b': BytesNode(b'x'), 'p': PathNode('a/b'), 'f': FloatNode('nan'), 'bo': BooleanNode('yes')})",
})


def rt_pickle(p):
    return lambda c: pickle.loads(pickle.dumps(c, protocol=p))


ROUTES = {f"pickle{p}": rt_pickle(p) for p in range(pickle.HIGHEST_PROTOCOL + 1)}
ROUTES["deepcopy"] = copy.deepcopy
ROUTES["deepcopy of pickle"] = lambda c: copy.deepcopy(pickle.loads(pickle.dumps(c)))
ROUTES["pickle of deepcopy"] = lambda c: pickle.loads(pickle.dumps(copy.deepcopy(c)))
ROUTES["pickle twice"] = lambda c: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(c, protocol=2)), protocol=3))
ROUTES["pickle in tuple"] = lambda c: pickle.loads(pickle.dumps((c, c)))[1]
ROUTES["python pickler"] = lambda c: pickle._loads(pickle._dumps(c))
ROUTES["copy"] = copy.copy


def attrs(n):
    """every attribute of every node (beyond what snap shows)"""
    out = []
    m = n._metadata
    md = {k: (repr(v) if k not in ("resolver_cache", "flags") else dict(v) if v is not None else None) for k, v in m.__dict__.items()}
    out.append((type(n).__name__, type(m).__name__, tuple(sorted((k, str(v)) for k, v in md.items()))))
    for k, x in children(n):
        out.append(attrs(x))
    return tuple(out)


def differs(a, b, full=True):
    """-> text or None"""
    if type(a) is not type(b):
        return f"the type is {type(b)}"
    if snap(a) != snap(b):
        return sdiff(snap(a), snap(b))
    if full and attrs(a) != attrs(b):
        return sdiff(attrs(a), attrs(b))
    t = tree_bad(b)
    if t:
        return t
    try:
        eq = a == b
    except Exception:
        eq = True
    if not (eq or "nan" in repr(a)):
        return "it is not equal to the original"
    return None


def outcome(r):
    if r[0] == "exc":
        return ("exc", type(r[1]).__name__, str(r[1]))
    try:
        return ("ok", enc(r[1]))
    except Exception as e:
        return ("ok", f"unencodable {type(e).__name__}")


def go(c, op):
    ns = dict(ENV)
    ns["c"] = c
    return outcome(run(op, ns)), snap(c)


def same_nodes(a, b):
    sa = {id(x) for _, x in node_paths(a)}
    return [p for p, x in node_paths(b) if id(x) in sa]


def roundtrip(src, route, res, tag):
    """-> (original, copy) or None"""
    c = eval(src, dict(ENV))
    s0, a0 = snap(c), attrs(c)
    case = dict(src=src, route=route)
    try:
        d = ROUTES[route](c)
    except Exception as e:
        res.violation(f"{tag} {route}", f"c = {src}\n{route} raises {show_exc(e)}", case)
        return None
    bad = differs(c, d)
    if not bad and route != "copy" and same_nodes(c, d):
        bad = f"shares nodes {same_nodes(c, d)}"
    if not bad and (snap(c) != s0 or attrs(c) != a0):
        bad = "changed the original"
    if bad:
        res.violation(f"{tag} {route}", f"c = {src}\n{route} gives {d!r}: {bad}", case)
        return None
    return c, d


def lockstep(w, res):
    src, tag, route, ops, ops2 = w
    r = roundtrip(src, route, res, tag)
    if r is None:
        return
    c, d = r
    res.count("states")
    for op in ops:
        a, b = clone(c), clone(d)
        ra, rb = go(a, op), go(b, op)
        res.count("transitions")
        res.count("validated")
        if ra != rb:
            what = f"gives {ra[0]} before and {rb[0]} after" if ra[0] != rb[0] else "leaves " + sdiff(ra[1], rb[1])
            res.violation(f"{tag} {route} {op}", f"c = {src}\n{op} on the original and on its {route}: {what}"[:1500], dict(src=src, route=route, op=op))
            continue
        res.seen(ra[1])
        if ra[0][0] == "ok" and ops2:
            for op2 in ops2:
                a2, b2 = clone(a), clone(b)
                ra2, rb2 = go(a2, op2), go(b2, op2)
                res.count("transitions")
                if ra2 != rb2:
                    res.violation(f"{tag} {route} {op} {op2}", f"c = {src}\n{op}\n{op2} on the original and on its {route} differ: {ra2[0]} / {rb2[0]} {sdiff(ra2[1], rb2[1])}"[:1500], dict(src=src, route=route, op=op, op2=op2))
    res.sample(f"{tag} through {route}: {len(ops)} operations in lockstep")


def flagsweep(w, res):
    """every flag at every one and two nodes, then the routes; effective flags everywhere; a pickled inner node"""
    src, tag, tier, part, parts = w
    c0 = eval(src, dict(ENV))
    paths = [p for p, n in node_paths(c0)]
    settings = [(p, f, v) for p in paths for f in ("readonly", "struct", "custom") for v in (True, False, None)]
    pairs = [(s,) for s in settings] + [(a, b) for a, b in itertools.combinations([s for s in settings if s[1] != "custom" and s[2] is not None], 2) if a[0] != b[0]][:: 1 if tier == "thorough" else 29]
    for ss in pairs[part::parts]:
        c = clone(c0)
        for p, f, v in ss:
            at(c, p)._set_flag(f, v)
        if len(ss) == 2:
            # fill the flag caches before the round trip
            for _, n in node_paths(c):
                n._get_flag("readonly"), n._get_flag("struct")
        eff = [(p, f, n._get_flag(f)) for p, n in node_paths(clone(c)) for f in ("readonly", "struct", "custom")]
        for route in ("pickle5", "pickle1", "deepcopy", "copy"):
            res.count("evaluations")
            case = dict(src=src, flags=[list(s) for s in ss], route=route)
            try:
                d = ROUTES[route](c)
            except Exception as e:
                res.violation(f"{tag} flags {ss} {route}", f"c = {src} with flags {ss}: {route} raises {show_exc(e)}", case)
                continue
            bad = differs(c, d, False)
            eff2 = [(p, f, n._get_flag(f)) for p, n in node_paths(d) for f in ("readonly", "struct", "custom")]
            if not bad and eff != eff2:
                bad = f"effective flags {[(x, y) for x, y in zip(eff, eff2) if x != y][:2]}"
            if bad:
                res.violation(f"{tag} flags {ss} {route}", f"c = {src} with flags {ss}: {route} gives {bad}", case)
            elif route != "copy":
                # the copy's caches follow later changes of its own root only
                for f in ("readonly", "struct"):
                    d._set_flag(f, True)
                    for p, n in node_paths(d):
                        own = None
                        x = n
                        while own is None and x is not None:
                            own = x._get_node_flag(f)
                            x = x._get_parent()
                        if bool(n._get_flag(f)) != bool(own):
                            res.violation(f"{tag} flags {ss} {route}", f"c = {src} with flags {ss}: after {route} and setting {f} at the root, {p} reports {n._get_flag(f)}, not {own}", case)
                            break


def inner(w, res):
    """pickling any node of the tree brings the whole tree, with the node at its place"""
    src, tag = w
    c = eval(src, dict(ENV))
    for path, n in node_paths(c):
        if path == "":
            continue
        for p in (0, 2, 5):
            res.count("evaluations")
            case = dict(src=src, inner=path)
            try:
                m = pickle.loads(pickle.dumps(n, protocol=p))
            except Exception as e:
                res.violation(f"{tag} inner {path}", f"c = {src}\npickling the node at {path} (protocol {p}) raises {show_exc(e)}", case)
                continue
            root = m
            while root._get_parent() is not None:
                root = root._get_parent()
            bad = differs(c, root) or (None if snap(m) == snap(n) else sdiff(snap(n), snap(m))) or (None if at(root, path) is m else "the node is not at its place")
            if bad:
                res.violation(f"{tag} inner {path}", f"c = {src}\npickling the node at {path} (protocol {p}): {bad}", case)


def one(w, res):
    {"l": lockstep, "f": flagsweep, "i": inner}[w[0]](w[1:], res)


READS = ["OmegaConf.to_container(c)", "OmegaConf.to_container(c, resolve=True)", "OmegaConf.to_object(c)", "OmegaConf.to_yaml(c)", "OmegaConf.missing_keys(c)", "repr(c)", "hash(c)", "OmegaConf.resolve(c)", "c == copy.deepcopy(c)", "OmegaConf.get_type(c)", "copy.deepcopy(c)", "OmegaConf.merge(c, c)",
         "OmegaConf.merge(c, {'a': 1})", "OmegaConf.set_readonly(c, True)", "OmegaConf.set_struct(c, True)", "OmegaConf.clear_cache(c)", "list(c)", "c.zz", "c[0]", "OmegaConf.update(c, 'zz.y', 1, force_add=True)"]


def check(tier):
    th = tier == "thorough"
    work = []
    for tag, src in BASE.items():
        try:
            ops = all_ops_env(src)
        except Exception:
            raise
        for route in ROUTES:
            few = [] if not th and route in ("pickle0", "pickle1", "pickle3", "deepcopy of pickle", "pickle of deepcopy", "pickle in tuple") else ops
            if few and not th and route not in ("pickle5", "deepcopy"):
                few = ops[:: 12]
            if not th and route == "deepcopy":
                few = ops[1:: 2]
            for ch in chunks(READS + few, 120):
                work.append(("l", src, tag, route, ch, []))
        if th:
            s = simple_ops_env(src)
            for ch in chunks(s, 20):
                work.append(("l", src, tag, "pickle5", ch, s))
                work.append(("l", src, tag, "deepcopy", ch, s[::3]))
        for part in range(8):
            work.append(("f", src, tag, tier, part, 8))
        work.append(("i", src, tag))
    res = parallel(one, work)
    res.n["states"] = max(res.n.get("states", 0), len(res.hashes))
    return res


def all_ops_env(src):
    from . import ops
    ops.NS.update({k: v for k, v in ENV.items() if k not in ops.NS})
    return all_ops(src, VALS)


def simple_ops_env(src):
    return simple_ops(src, ["5", "'t'", "{'x': 2}"])


def replay(case, res):
    if "flags" in case:
        flagsweep((case["src"], "replay", "thorough", 0, 1), res)
    elif "inner" in case:
        inner((case["src"], "replay"), res)
    else:
        lockstep((case["src"], "replay", case["route"], [case["op"]] if "op" in case else [], [case["op2"]] if "op2" in case else []), res)
