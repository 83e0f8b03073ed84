"""C12: merging follows the documented semantics.  All pairs (and triples) of small trees x list merge modes, against a reference merge."""
import itertools
import typing
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from .core import DictConfig, ListConfig, Node, OmegaConf, Result, enc, parallel, plain, run, show_exc
from .ops import chunks
from .fix import Color, Pt, Pt3, Other, NS
from omegaconf import ListMergeMode
from omegaconf.errors import OmegaConfBaseException

LEVEL = "exploration"
ASSUMPTIONS = ["an interpolation in the destination that leads to a container is replaced by a copy of that container (as it is when the key is merged) when a container is merged into it",
               "merging a list into a dict or a dict into a list is an error, as is merging them at the top level"]
MODES = [ListMergeMode.REPLACE, ListMergeMode.EXTEND, ListMergeMode.EXTEND_UNIQUE]


class Err(Exception):
    pass


class Unspec(Exception):
    pass


class Special:
    """a DictConfig or ListConfig node that is None, missing or an interpolation"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return f"{self.kind}({self.v!r})"


SPECIAL = [Special(k, v) for k in ("DictConfig", "ListConfig") for v in (None, "???", "${r}", "${l}", "${nope}")]


def raw(v):
    if isinstance(v, Special):
        return v.v
    if isinstance(v, dict):
        return {k: raw(x) for k, x in v.items()}
    if isinstance(v, list):
        return [raw(x) for x in v]
    return v


def inter(v):
    return isinstance(v, str) and v.startswith("${")


def lookup(root, path):
    """value of '${a.b}' in the root container being merged, following chains; Err if there is none"""
    for _ in range(8):
        v = root
        path = raw(path)
        for p in path[2:-1].split("."):
            for _ in range(8):
                if inter(raw(v)):
                    v = lookup(root, raw(v))
                else:
                    break
            if isinstance(v, dict) and p in v:
                v = v[p]
            elif isinstance(v, list) and p.isdigit() and int(p) < len(v):
                v = v[int(p)]
            else:
                raise Err
        if not inter(raw(v)):
            return v
        path = raw(v)
    raise Err


def kind(v):
    """the node kind: a None, missing or interpolation container node keeps its kind"""
    return v.kind if isinstance(v, Special) else "DictConfig" if isinstance(v, dict) else "ListConfig" if isinstance(v, list) else None


def merge_list(a, b, mode):
    if mode is ListMergeMode.REPLACE:
        return list(b)
    out = list(a)
    for x in b:
        if mode is ListMergeMode.EXTEND or not any(same(x, y) for y in out):
            out.append(x)
    return out


def ref_merge(y, x, mode, root):
    """the merge of x into y (a dict y is modified in place, so that interpolations see the partially merged tree)"""
    if raw(x) == "???":
        if kind(x) and kind(y) and kind(x) != kind(y):
            raise Err
        return y
    if kind(x) is None:
        return x
    if inter(raw(y)):
        try:
            t = lookup(root, raw(y))
        except Err:
            t = None
        if kind(t):
            y = deep(t)
    if kind(y) is None:
        return x
    if kind(y) != kind(x):
        raise Err
    if isinstance(x, Special):
        return x
    if isinstance(y, Special):
        y = {} if kind(y) == "DictConfig" else None
    if isinstance(x, list):
        return merge_list(y, x, mode) if y is not None else list(x)
    for k, v in x.items():
        y[k] = ref_merge(y[k], v, mode, root) if k in y else v
    return y


def same(x, y):
    return x == y


def deep(v):
    return {k: deep(x) for k, x in v.items()} if isinstance(v, dict) else [deep(x) for x in v] if isinstance(v, list) else v


def build(v):
    if isinstance(v, Special):
        return (DictConfig if v.kind == "DictConfig" else ListConfig)(v.v)
    if isinstance(v, dict):
        return {k: build(x) for k, x in v.items()}
    if isinstance(v, list):
        return [build(x) for x in v]
    return v


def untyped(trees, mode, res, route=0):
    res.count("evaluations")
    try:
        want = deep(trees[0])
        for t in trees[1:]:
            want = ref_merge(want, deep(t), mode, want)
        want = ("ok", raw(want))
    except Err:
        want = ("err",)
    try:
        cfgs = [OmegaConf.create(build(t)) for t in trees]
        if route == 1:
            got = cfgs[0]
            for c in cfgs[1:]:
                got.merge_with(c, list_merge_mode=mode)
        else:
            got = OmegaConf.merge(*cfgs, list_merge_mode=mode)
        got = ("ok", plain(got))
    except (OmegaConfBaseException, TypeError, ValueError, AttributeError, KeyError, AssertionError) as e:
        got = ("err", e)
    if got[0] != want[0] or (got[0] == "ok" and enc(got[1]) != enc(want[1])):
        return f"merge({', '.join(map(repr, trees))}, {mode.name}) is {show(got)}, the reference says {show(want)}"
    return None


def show(x):
    return repr(x[1]) if x[0] == "ok" else "an error" + (f" ({show_exc(x[1])})" if len(x) > 1 else "")


LEAF = [1, "x", None, "???", "${r}", "${r.z}", "${l}", "${s}", "${nope}", "${k}"]
CONTS = [[], [1], [2, 1], ["???", None], [{"x": 1}], [[1]], ["${s}", 1], {}, {"x": 1}, {"x": {"y": 1}}, {"x": "???"}, {"y": None}, {"x": None}, {"x": [1]}, {"x": "${s}"}, {"x": {}}, {"x": "${r}"}]
ENVT = {"r": {"x": 5, "z": 6}, "l": [7, 1], "s": 3}


def all_values():
    return LEAF + CONTS + SPECIAL


def wrap(i, va, tail):
    """the shapes a value under test is embedded in"""
    return [lambda v: dict({"k": v}, **tail), lambda v: dict(tail, **{"k": v}), lambda v: dict({"n": {"k": v}}, **tail), lambda v: dict({"n": {"k": v, "j": 1}, "k": 4}, **tail)][i]


def one(w, res):
    kind = w[0]
    if kind == "pairs":
        _, shape, va, vbs, modes = w
        a = wrap(shape, va, ENVT)(va)
        for vb in vbs:
            for mode in modes:
                for tb in (wrap(shape, vb, {})(vb),):
                    for route in (0, 1):
                        report(untyped([a, tb], mode, res, route), [a, tb], mode, route, res)
    elif kind == "triples":
        _, va, vbs, modes = w
        for vb in vbs:
            for vc in vbs:
                ts = [dict({"k": va}, **ENVT), {"k": vb}, {"k": vc}]
                for mode in modes:
                    report(untyped(ts, mode, res), ts, mode, 0, res)
    elif kind == "lists":
        _, a, bs = w
        for b in bs:
            for mode in MODES:
                report(untyped([a, b], mode, res), [a, b], mode, 0, res)
    elif kind == "trees":
        _, a, bs, modes = w
        for b in bs:
            for mode in modes:
                report(untyped([a, b], mode, res), [a, b], mode, 0, res)
    elif kind == "typed":
        typed(w, res)
    res.sample(f"{w[0]}: {w[1]!r} ... {str(w[2])[:60]}")
    res.seen(w)


def report(msg, trees, mode, route, res):
    if msg:
        res.violation(f"{trees} {mode.name} {route}", msg, dict(kind="untyped", trees=[src(t) for t in trees], mode=mode.name, route=route))


def src(t):
    return repr(t)


def trees(leaves, inner, keys):
    """all dicts over the keys (each absent, a leaf, a list or an inner dict) in both key orders"""
    inners = [dict(zip(keys, c)) for c in itertools.product(inner, repeat=len(keys))]
    inners = [{k: v for k, v in d.items() if v is not ABSENT} for d in inners]
    vals = [ABSENT] + leaves + [[1], [2]] + inners
    for c in itertools.product(vals, repeat=len(keys)):
        d = {k: v for k, v in zip(keys, c) if v is not ABSENT}
        yield d
        if len(d) == 2:
            yield dict(reversed(list(d.items())))


ABSENT = object()


# ---------------------------------------------------------------- typed destinations
@dataclass
class T:
    i: int = 1
    o: Optional[int] = 2
    s: str = "s"
    u: Union[int, str] = "u"
    a: Any = "a"
    m: int = "???"  # type: ignore
    pt: Pt = field(default_factory=Pt)
    op: Optional[Pt] = None
    mp: Pt = "???"  # type: ignore
    p3: Pt = field(default_factory=lambda: Pt3(4, 2.5, "q"))
    di: Dict[str, int] = field(default_factory=lambda: {"k": 1, "j": 2})
    ddi: Dict[str, Dict[str, int]] = field(default_factory=lambda: {"k": {"x": 1}})
    dp: Dict[str, Pt] = field(default_factory=lambda: {"k": Pt(7)})
    dc: Dict[Color, int] = field(default_factory=lambda: {Color.RED: 1})
    dop: Dict[str, Optional[Pt]] = field(default_factory=lambda: {"k": None})
    odi: Optional[Dict[str, int]] = None
    li: List[int] = field(default_factory=lambda: [1, 2])
    oli: Optional[List[int]] = None
    lp: List[Pt] = field(default_factory=lambda: [Pt(7)])
    mli: List[int] = "???"  # type: ignore
    r: int = "${i}"  # type: ignore
    rp: Pt = "${pt}"  # type: ignore


HINTS = typing.get_type_hints(T)
PTHINTS = {Pt: {"x": int, "y": float}, Pt3: {"x": int, "y": float, "z": Optional[str]}}
TENV = dict(NS, T=T)


class S:
    """reference value: a structured node"""

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return f"{self.cls.__name__}({self.f})"


def defaults(cls, obj=None):
    o = obj if obj is not None else cls()
    return S(cls, {k: getattr(o, k) for k in PTHINTS[cls]})


def strip(t):
    if typing.get_origin(t) is Union and type(None) in typing.get_args(t):
        a = [x for x in typing.get_args(t) if x is not type(None)]
        return (a[0] if len(a) == 1 else Union[tuple(a)]), True
    return t, t is Any


def conv(t, v):
    """a scalar v for the non-optional scalar type t"""
    if inter(v):
        return v
    if t is Any:
        return v
    if isinstance(v, (dict, list, type, Pt, Other)):
        raise Err
    if typing.get_origin(t) is Union:
        if type(v) in typing.get_args(t):
            return v
        raise Err
    try:
        if t is int and type(v) in (int, str):
            return int(v)
        if t is float and type(v) in (int, float, str):
            return float(v)
        if t is str and type(v) is not bytes:
            return v if isinstance(v, str) else str(v)
    except ValueError:
        raise Err
    raise Err


def keyconv(kt, k):
    if kt is str:
        if type(k) is str:
            return k
        raise Err
    if kt is Color:
        if isinstance(k, Color):
            return k
        if isinstance(k, str) and k in Color.__members__:
            return Color[k]
        if isinstance(k, int) and k in (1, 2):
            return Color(k)
        raise Err
    raise Unspec


def fresh(t, v):
    """the value stored when v is put where nothing was (or a value is replaced)"""
    t0, opt = strip(t)
    if v is None:
        if opt:
            return None
        raise Err
    if v == "???":
        return v
    o = typing.get_origin(t0)
    if t0 in PTHINTS:
        if inter(v):
            return v
        if isinstance(v, dict):
            return merge_s(defaults(t0), v)
        if is_pt(v):
            return inst(t0, v)
        raise Err
    if o is dict:
        if inter(v):
            return v
        if not isinstance(v, dict):
            raise Err
        kt, et = typing.get_args(t0)
        return {keyconv(kt, k): fresh(et, x) for k, x in v.items()}
    if o is list:
        if inter(v):
            return v
        if not isinstance(v, list):
            raise Err
        return [fresh(typing.get_args(t0)[0], x) for x in v]
    if t0 is Any:
        if is_pt(v):
            return inst(Pt, v) if not isinstance(v, Other) and v is not Other else Unsp()
        if isinstance(v, list):
            return [fresh(Any, x) for x in v]
        if isinstance(v, dict):
            return {k: fresh(Any, x) for k, x in v.items()}
        return v
    return conv(t0, v)


def Unsp():
    raise Unspec


def is_pt(v):
    return isinstance(v, (Pt, Pt3, Other)) or v in (Pt, Pt3, Other) if isinstance(v, (type, Pt, Other)) else False


def inst(t, v):
    cls = v if isinstance(v, type) else type(v)
    if not issubclass(cls, t):
        raise Err
    return defaults(cls, None if isinstance(v, type) else v)


def merge_s(a, b):
    """a: S; b: dict of plain values"""
    f = dict(a.f)
    for k, x in b.items():
        if k not in f:
            raise Err
        f[k] = merge_v(PTHINTS[a.cls][k], f[k], x)
    return S(a.cls, f)


def merge_v(t, a, b, mode=ListMergeMode.REPLACE):
    """the field of type t holds a (reference value), b is merged into it"""
    t0, opt = strip(t)
    if b == "???":
        return a
    o = typing.get_origin(t0)
    if b is None or inter(b):
        return fresh(t, b)
    if t0 in PTHINTS:
        if isinstance(a, str) and inter(a):
            if a == "${pt}":
                a = defaults(Pt)
            else:
                raise Unspec
        if isinstance(b, dict):
            if a is None or a == "???":
                a = defaults(t0)
            return merge_s(a, b)
        if is_pt(b):
            new = inst(t0, b)
            if isinstance(a, S):
                if not issubclass(new.cls, a.cls):
                    raise Err
                return S(new.cls, {**a.f, **{k: v for k, v in new.f.items() if v != "???"}})
            return S(new.cls, {**defaults(t0).f, **{k: v for k, v in new.f.items() if v != "???"}})
        raise Err
    if o is dict:
        if not isinstance(b, dict):
            raise Err
        if inter(a):
            raise Unspec
        kt, et = typing.get_args(t0)
        out = dict(a) if isinstance(a, dict) else {}
        for k, x in b.items():
            k = keyconv(kt, k)
            if k in out:
                out[k] = merge_v(et, out[k], x, mode)
            else:
                out[k] = fresh(et, x)
        return out
    if o is list:
        if not isinstance(b, list):
            raise Err
        if inter(a):
            raise Unspec
        new = fresh(t0, b)
        if mode is ListMergeMode.REPLACE or not isinstance(a, list):
            return new
        out = list(a)
        for x in new:
            if mode is ListMergeMode.EXTEND or not any(norm(x) == norm(y) for y in out):
                out.append(x)
        return out
    if t0 is Any:
        if a == "${pt}" and isinstance(b, (dict, list)) or isinstance(a, S):
            raise Unspec
        if kind(a) and is_pt(b):
            raise Unspec
        if kind(a) and kind(b):
            if kind(a) != kind(b):
                raise Err
            if mode is ListMergeMode.REPLACE and isinstance(a, list):
                return fresh(t, b)
            raise Unspec
        return fresh(t, b)
    return fresh(t, b)


def norm(v):
    if isinstance(v, S):
        return ("S", v.cls.__name__, norm(v.f))
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def real(n):
    """reference form of a real node"""
    if isinstance(n, DictConfig):
        c = n.__dict__["_content"]
        if not isinstance(c, dict):
            return c
        d = {k: real(x) for k, x in c.items()}
        ot = n._metadata.object_type
        return ("S", ot.__name__, d) if isinstance(ot, type) and ot is not dict and ot is not None and hasattr(ot, "__dataclass_fields__") else d
    if isinstance(n, ListConfig):
        c = n.__dict__["_content"]
        return [real(x) for x in c] if isinstance(c, list) else c
    v = n._value()
    return real(v) if isinstance(v, Node) else v


def initial():
    o = T()
    out = {}
    for k, t in HINTS.items():
        v = getattr(o, k)
        out[k] = lift(t, v)
    return out


def lift(t, v):
    t0, _ = strip(t)
    if is_pt(v):
        return defaults(type(v), v)
    o = typing.get_origin(t0)
    if isinstance(v, dict) and o is dict:
        return {k: lift(typing.get_args(t0)[1], x) for k, x in v.items()}
    if isinstance(v, list) and o is list:
        return [lift(typing.get_args(t0)[0], x) for x in v]
    return v


TVALS = [5, "5", "x", 2.5, True, None, "???", "${i}", "${pt}", "[5]", b"b"]
TCONT = [[], [3], ["4"], ["x"], [None], [1, 3], ["???"], [{"x": 3}], [{}], [{"zz": 1}], [[1]],
         {}, {"x": 3}, {"x": "4"}, {"x": "bad"}, {"x": "???"}, {"x": None}, {"zz": 1}, {"y": 1.5, "x": 3}, {"k": 5}, {"k": "6"}, {"n": 8}, {"k": "???"}, {"k": None}, {"n": None}, {"n": "???"}, {"k": {"x": 3}},
         {"k": {"zz": 3}}, {"n": {"x": 3}}, {"n": {}}, {"k": {}}, {"k": {"x": "???"}}, {"RED": 5}, {"GREEN": 6}, {"BLUE": 1}, {"z": "w"}, {"z": 1, "x": 8}, {"k": 1, "n": 2, "j": "???"}]
TOBJ = ["Pt", "Pt(3)", "Pt3(3)", "Pt3", "Other", "Other('q')", "[Pt(3)]", "[Pt3(3)]", "{'k': Pt(3)}", "{'n': Pt3(3)}", "{'k': Pt3}", "{'k': Other}", "{'n': Other()}", "{Color.GREEN: 2}", "{1: 2}", "[Other()]", "Pt(x='???')", "[Pt]"]
CHAIN2 = [5, "x", None, "???", "${pt}", {}, {"x": 3}, {"z": "w"}, {"k": {"x": 3}}, {"n": {"x": 3}}, {"n": 8}, [3], [{"x": 3}], "Pt(3)", "Pt3(3)"]


def tval(v):
    return eval(v, TENV) if isinstance(v, str) and any(c in v for c in "P(O:") or isinstance(v, str) and v in ("Pt", "Pt3", "Other") else v


def typed(w, res):
    _, fname, lists, modes = w
    t = HINTS[fname]
    for seq in lists:
        for mode in modes:
            res.count("evaluations")
            init = initial()
            vals = [tval(x) for x in seq]
            try:
                a = init[fname]
                for v in vals:
                    a = merge_v(t, a, v, mode)
                init[fname] = a
                want = ("ok", norm(init))
            except Err:
                want = ("err",)
            except Unspec:
                res.count("unspecified")
                continue
            for route in range(4):
                vals = [tval(x) for x in seq]
                cfg = OmegaConf.structured(T)
                try:
                    if route == 0:
                        cfg = OmegaConf.merge(cfg, *[{fname: v} for v in vals], list_merge_mode=mode)
                    elif route == 1:
                        for v in vals:
                            cfg.merge_with(OmegaConf.create({fname: v}), list_merge_mode=mode)
                    elif route == 2:
                        cfg = OmegaConf.merge({"w": T}, *[{"w": {fname: v}} for v in vals], list_merge_mode=mode).w
                    else:
                        if mode is not ListMergeMode.REPLACE:
                            continue
                        for v in vals:
                            if isinstance(v, (dict, list)):
                                OmegaConf.update(cfg, fname, v, merge=True)
                            elif v == "???" or isinstance(v, (type, Pt, Other)):
                                raise Unspec  # update assigns values
                            else:
                                OmegaConf.update(cfg, fname, v)
                    got = ("ok", real(cfg)[2])
                except Unspec:
                    continue
                except (OmegaConfBaseException, TypeError, ValueError, AttributeError, KeyError, AssertionError) as e:
                    got = ("err", e)
                res.count("routes")
                if got[0] != want[0] or (got[0] == "ok" and enc(got[1]) != enc(want[1])):
                    d = ""
                    if got[0] == "ok" == want[0]:
                        d = "; ".join(f"{k}: {got[1][k]!r} instead of {want[1][k]!r}" for k in got[1] if enc(got[1][k]) != enc(want[1].get(k)))
                    else:
                        d = f"{show(got)[:200] if got[0] == 'err' else 'succeeds: ' + repr(got[1][fname])}, the reference says {'an error' if want[0] == 'err' else repr(want[1][fname])}"
                    res.violation(f"typed {fname} {seq} {mode.name}", f"{fname}: {t} = {getattr(T(), fname)!r}; merging {seq!r} ({mode.name}, route {route}): {d}",
                                  dict(kind="typed", field=fname, seq=list(seq), mode=mode.name))
                    break


def check(tier):
    vals = all_values()
    work = []
    for shape in range(4):
        for va in vals:
            work.append(("pairs", shape, va, vals, MODES))
    small = [v for v in vals if not isinstance(v, Special) or v.v in (None, "${r}")] if tier == "quick" else vals
    for va in vals:
        for ch in chunks(small, 8):
            work.append(("triples", va, ch, MODES[:1] if tier == "quick" else MODES))
    items = [1, None, "???", "${0}", {"x": 1}, [1], True, "x"]
    lists = [list(c) for n in range(0, 3 if tier == "quick" else 4) for c in itertools.product(items, repeat=n)]
    for a in lists:
        work.append(("lists", a, lists + [{}, {"a": 1}]))
    ts = list(trees([1, None, "???", "${b}"], [ABSENT, 1, "???"] if tier == "quick" else [ABSENT, 1, 2, "???", "${a}"], ["a", "b"]))
    bs = ts
    if tier == "quick":
        ts = [t for t in ts if list(t) != ["b", "a"]]
        bs = list(trees([1, "???", "${b}"], [ABSENT, 1], ["a", "b"]))
    for a in ts:
        work.append(("trees", a, bs, MODES[:1]))
    tv = [[v] for v in TVALS + TCONT + TOBJ]
    pairs = [[x, y] for x in (CHAIN2 if tier == "quick" else TVALS + TCONT + TOBJ) for y in (CHAIN2 if tier == "quick" else TVALS + TCONT + TOBJ)]
    for fname in HINTS:
        for ch in chunks(tv, 30) + chunks(pairs, 60):
            work.append(("typed", fname, ch, MODES if fname in ("li", "oli", "lp", "mli") else MODES[:1]))
    work.sort(key=lambda w: w[0] != "typed")
    res = parallel(one, work)
    return res


def replay(case, res):
    if case["kind"] == "typed":
        typed((0, case["field"], [case["seq"]], [ListMergeMode[case["mode"]]]), res)
    else:
        ts = [eval(t, dict(Special=Special, DictConfig=lambda v: Special("DictConfig", v), ListConfig=lambda v: Special("ListConfig", v))) for t in case["trees"]]
        m = ListMergeMode[case["mode"]]
        report(untyped(ts, m, res, case["route"]), ts, m, case["route"], res)
