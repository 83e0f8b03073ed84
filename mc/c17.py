"""C17: missing values are never mistaken for values.  All subsets of positions set missing x all readers x ways the config came about."""
import copy
import enum
import itertools
import pickle
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from .core import DictConfig, ListConfig, Node, OmegaConf, Result, children, enc, parallel, plain, show_exc, snap
from .fix import Color, Pt
from .ops import chunks
from omegaconf import MISSING, SCMode
from omegaconf.errors import ConfigAttributeError, ConfigKeyError, InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError, MissingMandatoryValue

LEVEL = "exploration"
ASSUMPTIONS = ["membership of the literal text '???' in a list is not a read of the missing element"]
M = "???"


@dataclass
class T:
    i: int = 1
    s: str = "s"
    f: Optional[float] = 0.5
    u: Union[int, str] = 1
    e: Color = Color.RED
    pt: Pt = field(default_factory=Pt)
    op: Optional[Pt] = None
    dd: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    ll: List[int] = field(default_factory=lambda: [1, 2])
    lp: List[Pt] = field(default_factory=lambda: [Pt()])
    a: Any = 1
    by: bytes = b"b"
    p: Path = Path("p")
    b: bool = True


def kids(v):
    return list(v.items()) if isinstance(v, dict) else list(enumerate(v)) if isinstance(v, list) else []


def paths(v, p=()):
    for k, x in kids(v):
        yield p + (k,), x
        yield from paths(x, p + (k,))


def put(v, p, x):
    for k in p[:-1]:
        v = v[k]
    v[p[-1]] = x


def node(c, p):
    for k in p:
        c = c._get_node(k)
    return c


def dotted(p):
    return ".".join(map(str, p))


def fullkey(p):
    s = ""
    for k in p:
        s += f"[{k}]" if isinstance(k, int) else (f".{k}" if s else str(k))
    return s


def has_missing(v):
    return v == M if isinstance(v, str) else any(has_missing(x) for _, x in kids(v))


def out(f):
    try:
        return ("ok", f())
    except RecursionError:
        raise
    except Exception as e:
        return ("exc", e)


def isexc(r, *ts):
    return r[0] == "exc" and isinstance(r[1], ts)


def show(r):
    return f"returns {r[1]!r}" if r[0] == "ok" else f"raises {show_exc(r[1])[:150]}"


class Bad(Exception):
    pass


def need(cond, what, r=None):
    if not cond:
        raise Bad(what + (f" {show(r)}" if r is not None else ""))


DFLT = object()


def readers(c, tree, res, typed):
    """raises Bad"""
    missing = {p for p, v in paths(tree) if v == M and isinstance(v, str)}
    root = c
    s0 = snap(c)
    need(OmegaConf.missing_keys(c) == {fullkey(p) for p in missing}, f"missing_keys gives {OmegaConf.missing_keys(c)}, expected { {fullkey(p) for p in missing} }")
    for p, v in [((), tree)] + list(paths(tree)):
        if not isinstance(v, (dict, list)):
            continue
        cont = node(c, p)
        direct = [k for k, x in kids(v) if p + (k,) in missing]
        isd = isinstance(v, dict)
        # whole-container reads
        r = out(lambda: OmegaConf.missing_keys(cont))
        need(r[0] == "ok" and r[1] == {fullkey(q) for q in missing if q[:len(p)] == p}, f"missing_keys of {p}", r)
        if isd:
            r = out(lambda: dict(cont.items()))
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"items() of {p} with missing {direct}", r)
            r = out(lambda: list(cont.values()))
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"values() of {p} with missing {direct}", r)
            r = out(lambda: dict(**cont))
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"** of {p} with missing {direct}", r)
            need(list(cont.keys()) == list(v) and len(cont) == len(v), f"keys() of {p}")
        else:
            r = out(lambda: list(cont))
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"iteration of {p} with missing {direct}", r)
            r = out(lambda: cont[0:len(v)])
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"the slice of {p} with missing {direct}", r)
            r = out(lambda: [x for x in zip(cont)])
            need(isexc(r, MissingMandatoryValue) if direct else r[0] == "ok", f"zip of {p} with missing {direct}", r)
            need(len(cont) == len(v), f"len of {p}")
            r = out(lambda: cont.index("nowhere"))
            need(r[0] == "exc", f"index of {p}", r)
            r = out(lambda: cont.count("???"))
            need(isexc(r, MissingMandatoryValue) if direct else r == ("ok", 0), f"count('???') of {p}", r)
        hm = has_missing(v)
        for resolve in (False, True):
            r = out(lambda: OmegaConf.to_container(cont, resolve=resolve, throw_on_missing=True))
            need(isexc(r, MissingMandatoryValue) if hm else r[0] == "ok" and enc(r[1]) == enc(v), f"to_container({p}, resolve={resolve}, throw_on_missing=True)", r)
            r = out(lambda: OmegaConf.to_container(cont, resolve=resolve))
            need(r[0] == "ok" and enc(r[1]) == enc(v), f"to_container({p}, resolve={resolve})", r)
        r = out(lambda: OmegaConf.to_object(cont))
        need(isexc(r, MissingMandatoryValue) if hm else r[0] == "ok", f"to_object({p})", r)
        r = out(lambda: OmegaConf.to_container(cont, structured_config_mode=SCMode.INSTANTIATE))
        if hm and r[0] == "exc":
            need(typed and isinstance(r[1], MissingMandatoryValue), f"to_container({p}, INSTANTIATE)", r)
        # single elements
        for k, x in kids(v):
            q = p + (k,)
            miss = q in missing
            res.count("reads", 8)
            r = out(lambda: cont[k])
            need(isexc(r, MissingMandatoryValue) if miss else r[0] == "ok", f"item {q}", r)
            r = out(lambda: cont.get(k))
            need(r == ("ok", None) if miss else r[0] == "ok", f"get {q}", r)
            r = out(lambda: cont.get(k, DFLT))
            need(r == ("ok", DFLT) if miss else r[0] == "ok" and r[1] is not DFLT, f"get {q} with default", r)
            if isd:
                r = out(lambda: getattr(cont, k))
                need(isexc(r, MissingMandatoryValue) if miss else r[0] == "ok", f"attribute {q}", r)
                need((k in cont) == (not miss), f"{q}: in is {k in cont}")
                r = out(lambda: getattr(cont, k, DFLT))
                need(isexc(r, MissingMandatoryValue) if miss else r[0] == "ok", f"getattr {q} with default", r)
            else:
                r = out(lambda: cont[k - len(v)])
                need(isexc(r, MissingMandatoryValue) if miss else r[0] == "ok", f"negative item {q}", r)
            need(OmegaConf.is_missing(cont, k) == miss, f"is_missing {q} is {OmegaConf.is_missing(cont, k)}")
            # pop on a copy
            cc = copy.deepcopy(root)
            n = node(cc, p)
            popped = out(lambda: n.pop(k))
            if isd:
                if not typed:
                    need(isexc(popped, MissingMandatoryValue) if miss else popped[0] == "ok", f"pop {q}", popped)
                    n = node(copy.deepcopy(root), p)
                    popped = out(lambda: n.pop(k, DFLT))
                    need(popped == ("ok", DFLT) if miss else popped[0] == "ok" and popped[1] is not DFLT, f"pop {q} with default", popped)
            elif miss:
                need(popped == ("ok", None), f"pop {q}", popped)
    # by path, including paths through missing containers
    allp = [p for p, _ in paths(tree)] + [p + (z,) for p in missing for z in ("x", "0")] + [p + ("x", "y") for p in list(missing)[:1]]
    for q in allp:
        miss = any(q[:j] in missing for j in range(1, len(q) + 1))
        through = miss and q not in missing
        for path in (dotted(q), fullkey(q)):
            res.count("reads", 5)
            r = out(lambda: OmegaConf.select(root, path))
            need(r == ("ok", None) if miss else r[0] == "ok", f"select {path}", r)
            r = out(lambda: OmegaConf.select(root, path, default=DFLT))
            need(r == ("ok", DFLT) if miss else r[0] == "ok" and r[1] is not DFLT, f"select {path} with default", r)
            r = out(lambda: OmegaConf.select(root, path, throw_on_missing=True))
            need(isexc(r, MissingMandatoryValue) if miss else r[0] == "ok", f"select {path} with throw_on_missing", r)
            r = out(lambda: OmegaConf.select(root, path, throw_on_missing=True, default=DFLT))
            if not miss:
                need(r[0] == "ok" and r[1] is not DFLT, f"select {path} with throw_on_missing and default", r)
            else:
                need(isexc(r, MissingMandatoryValue), f"select {path} with throw_on_missing and default", r)
        # interpolations
        path = dotted(q)
        for text, kind in ((f"${{{path}}}", "ref"), (f"x${{{path}}}", "str"), (f"${{.{path}}}", "ref"), (f"${{t:${{{path}}}}}", "str"), (f"${{oc.select:'{path}'}}", "sel"), (f"${{oc.select:'{path}',dflt}}", "seld"), (f"${{oc.select:'{path}',${{zzz}}}}", "bad")):
            holder = OmegaConf.create({"zz": text}) if not typed else None
            if holder is not None:
                holder = root
                holder.__dict__["_content"]["zz"] = OmegaConf.create({"zz": text})._get_node("zz")
                n = holder._get_node("zz")
                n._set_parent(root)
            else:
                # a typed config: an untyped config around it
                holder = root
                from omegaconf import AnyNode
                holder.__dict__["_content"]["zz"] = AnyNode(text, key="zz", parent=root)
            res.count("reads", 3)
            try:
                r = out(lambda: root["zz"] if not typed else root._get_node("zz")._dereference_node()._value())
                if kind in ("ref", "str"):
                    need(isexc(r, InterpolationToMissingValueError) if miss else r[0] == "ok", f"interpolation {text}", r)
                    r = out(lambda: OmegaConf.to_container(root, resolve=True)) if not typed else None
                    if r is not None and (miss or has_missing(tree) is False):
                        need(isexc(r, InterpolationToMissingValueError) if miss else r[0] == "ok", f"to_container(resolve=True) with {text}", r)
                    r = out(lambda: OmegaConf.select(root, "zz", throw_on_resolution_failure=False)) if not typed else None
                    if r is not None and miss:
                        need(r[0] == "ok" and r[1] is None, f"select of {text} without throw_on_resolution_failure", r)
                    need(OmegaConf.is_missing(root, "zz") is False, f"is_missing of {text}")
                    mk = OmegaConf.missing_keys(root)
                    need(mk == {fullkey(p) for p in missing}, f"missing_keys with {text} is {mk}")
                elif kind == "sel":
                    need(r == ("ok", None) if miss else r[0] == "ok", f"{text}", r)
                elif kind == "seld":
                    need(r == ("ok", "dflt") if miss else r[0] == "ok" and r[1] != "dflt", f"{text}", r)
                else:
                    need(isexc(r, InterpolationKeyError), f"{text}", r)
            finally:
                del root.__dict__["_content"]["zz"]
    need(snap(c) == s0, "reading changed the config")


# ---------------------------------------------------------------- spaces
UNTYPED = {"a": 1, "d": {"x": 1, "e": {"y": 2}}, "l": [1, {"k": 2}, [3]]}
UPOS = [p for p, _ in paths(UNTYPED)]
TPOS = [("i",), ("s",), ("f",), ("u",), ("e",), ("pt",), ("pt", "x"), ("op",), ("dd",), ("dd", "k"), ("ll",), ("ll", 1), ("lp",), ("lp", 0), ("lp", 0, "y"), ("a",), ("by",), ("p",), ("b",)]


def with_missing(base, sub):
    """None if one position is inside another"""
    if any(a != b and b[:len(a)] == a for a in sub for b in sub):
        return None
    t = copy.deepcopy(base)
    for p in sub:
        put(t, p, M)
    return t


def assign(c, sub):
    for p in sub:
        n = node(c, p[:-1])
        n[p[-1]] = M


def merge_over(base, sub):
    """a dict that sets the positions missing by structure"""
    o = {}
    for p in sub:
        if any(isinstance(k, int) for k in p):
            return None
        d = o
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = M
    return o


def build(kind, sub, route):
    """-> (config, plain tree) or None"""
    if kind == "untyped":
        t = with_missing(UNTYPED, sub)
        if t is None:
            return None
        if route == "create":
            return OmegaConf.create(t), t
        if route == "assign":
            c = OmegaConf.create(UNTYPED)
            assign(c, sub)
            return c, t
        if route == "merge":
            return OmegaConf.merge(OmegaConf.create({}), t), t
        if route == "nodes":
            def conv(v, key=None):
                if isinstance(v, dict):
                    return DictConfig({k: conv(x) for k, x in v.items()})
                if isinstance(v, list):
                    return ListConfig([conv(x) for x in v])
                return v
            t2 = copy.deepcopy(UNTYPED)
            for p in sub:
                put(t2, p, DictConfig(M) if p[-1] in ("d", "e") else ListConfig(M) if p[-1] in ("l", 2) else M)
            return OmegaConf.create(t2), t
    c = OmegaConf.structured(T(op=Pt(5)))
    base = OmegaConf.to_container(c)
    t = with_missing(base, sub)
    if t is None:
        return None
    assign(c, sub)
    if route == "pickle":
        c = pickle.loads(pickle.dumps(c))
    elif route == "copy":
        c = copy.deepcopy(c)
    elif route == "create":
        c = OmegaConf.create(c)
    elif route == "merge":
        c = OmegaConf.merge(c, {})
    return c, t


def one(w, res):
    kind, route, subs = w
    for sub in subs:
        r = build(kind, sub, route)
        if r is None:
            continue
        res.count("evaluations")
        c, tree = r
        try:
            readers(c, tree, res, kind == "typed")
        except Bad as e:
            res.violation(f"{kind} {route} {sub}", f"{kind} config made by {route}, missing at {[dotted(p) for p in sub]}: {c}\n{e}", dict(kind=kind, route=route, sub=sub))
    res.seen(w)
    res.sample(f"{kind}/{route}: missing at {[dotted(p) for p in subs[-1]]}: all readers")


def setup():
    OmegaConf.register_new_resolver("t", lambda *a: str(a), replace=True)


def check(tier):
    setup()
    work = []
    usubs = [s for n in range(len(UPOS) + 1) for s in itertools.combinations(UPOS, n) if with_missing(UNTYPED, s) is not None]
    tbase = OmegaConf.to_container(OmegaConf.structured(T(op=Pt(5))))
    k = 2 if tier == "quick" else 4
    tsubs = [s for n in range(k + 1) for s in itertools.combinations(TPOS, n) if with_missing(tbase, s) is not None]
    tops = tuple(p for p in TPOS if len(p) == 1)
    tsubs += [tops] + [tuple(q for q in tops if q != p) for p in tops]
    for route in ("create", "assign", "merge", "nodes"):
        for ch in chunks(usubs, 16):
            work.append(("untyped", route, ch))
    for route in ("assign", "pickle", "copy", "create", "merge"):
        for ch in chunks(tsubs if route == "assign" or tier == "thorough" else tsubs[:1 + len(TPOS)], 8):
            work.append(("typed", route, ch))
    res = parallel(one, work)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    setup()
    one((case["kind"], case["route"], [tuple(tuple(p) for p in case["sub"])]), res)
    OmegaConf.clear_resolvers()
