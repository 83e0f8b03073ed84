"""C15: reading, to_container, resolve and YAML agree on resolved values.  All assignments of values to the slots of small config shapes, typed and untyped."""
import copy
import enum
import re
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, children, enc, parallel, show_exc, snap
from .ops import NS, chunks
from omegaconf import MISSING
from omegaconf._utils import get_yaml_loader
from omegaconf.errors import InterpolationToMissingValueError, MissingMandatoryValue, OmegaConfBaseException
import yaml

LEVEL = "exploration"
ASSUMPTIONS = ["configs whose containers contain themselves through interpolations have no finite resolved value and are skipped",
               "containers returned by resolvers are compared by content only; text that looks like an interpolation inside them is unspecified"]


class Col(enum.Enum):
    RED = 1
    GREEN = 2


@dataclass
class T:
    i: int = 1
    f: float = 0.5
    s: str = "s"
    oi: Optional[int] = None
    e: Col = Col.RED
    u: Union[int, bool, str] = 1
    li: List[int] = field(default_factory=lambda: [1])
    ds: Dict[str, str] = field(default_factory=lambda: {"k": "v"})
    b: bool = True


@dataclass
class H:
    t: T = field(default_factory=T)
    o: Optional[T] = None
    a: Any = None
    l: List[Any] = field(default_factory=list)


DEPTH = 7


class Deep(Exception):
    pass


def follow(c, k, depth):
    """value read at key k of container c, as a plain structure; leaves: ('ok', v) | ('err',) | ('missing',) | ('imissing',)"""
    if depth > DEPTH:
        raise Deep
    try:
        v = c[k]
    except MissingMandatoryValue:
        return ("missing",)
    except InterpolationToMissingValueError:
        return ("imissing",)
    except RecursionError:
        raise Deep
    except OmegaConfBaseException:
        return ("err",)
    return deepread(v, depth)


def deepread(v, depth):
    if isinstance(v, DictConfig):
        if v._is_none():
            return ("ok", None)
        return ("dict", [(k, follow(v, k, depth + 1)) for k in v.keys()])
    if isinstance(v, ListConfig):
        if v._is_none():
            return ("ok", None)
        return ("list", [follow(v, i, depth + 1) for i in range(len(v))])
    return ("ok", v)


def text_of_container(t):
    """the text of a container inside a string interpolation or resolver argument is not specified"""
    if t[0] == "ok":
        return isinstance(t[1], str) and any(x in re.sub(r"\$\{[^{}]*\}", "", t[1]) for x in "{[")
    if t[0] in ("dict", "list"):
        return any(text_of_container(x[1] if t[0] == "dict" else x) for x in t[1])
    return False


class Fails(Exception):
    pass


def full(t, imissing):
    """resolved plain value of a read tree, or Fails"""
    if t[0] == "ok":
        return t[1]
    if t[0] == "missing":
        return "???"
    if t[0] == "imissing":
        if imissing:
            return "???"
        raise Fails
    if t[0] == "err":
        raise Fails
    if t[0] == "dict":
        return {k: full(x, imissing) for k, x in t[1]}
    return [full(x, imissing) for x in t[1]]


def attempt(f):
    try:
        return ("ok", f())
    except RecursionError:
        raise Deep
    except OmegaConfBaseException as e:
        return ("err", e)


def walk(n):
    yield n
    for _, x in children(n):
        yield from walk(x)


def names(v):
    if isinstance(v, enum.Enum):
        return v.name
    if isinstance(v, dict):
        return {names(k): names(x) for k, x in v.items()}
    if isinstance(v, list):
        return [names(x) for x in v]
    return v


def leafenc(r):
    """what a reader gave, comparable"""
    if r[0] == "err":
        e = r[1]
        return ("missing",) if isinstance(e, MissingMandatoryValue) else ("imissing",) if isinstance(e, InterpolationToMissingValueError) else ("err",)
    try:
        return deepread(r[1], 0)
    except Deep:
        return ("deep",)


def readers(c, k, path):
    """other ways to read key k of container c"""
    if isinstance(c, DictConfig):
        if isinstance(k, str) and k.isidentifier():
            yield "attribute", lambda: getattr(c, k), False
        yield "items()", lambda: dict(c.items())[k], None
        yield "get", lambda: c.get(k), True
    else:
        yield "iteration", lambda: list(c)[k], None
        yield "negative index", lambda: c[k - len(c)], False
        yield "get", lambda: c.get(k), True
        yield "slice", lambda: c[k:k + 1][0], False
    if path is not None:
        yield "select", lambda: OmegaConf.select(path[0], path[1]), True


def legal(f, v):
    """whether a value may be stored in the container or union field f of T without conversion"""
    if v == "???":
        return True
    if f == "u":
        return type(v) in (int, bool, str)
    if f == "li":
        return type(v) is list and all(type(x) is int for x in v)
    return type(v) is dict and all(type(x) is str for k, x in v.items())


def routes(make, raw, res, loose=None):
    """-> message or None"""
    cfg = make()
    s0 = snap(cfg)
    try:
        t = deepread(cfg, 0)
    except Deep:
        res.count("infinite")
        return None
    if text_of_container(t):
        res.count("text_of_container")
        return None
    res.count("evaluations")
    # individual readers of every container in place
    bad = None

    def go(n, t, real, keys):
        nonlocal bad
        subs = [x for _, x in t[1]] if t[0] == "dict" else t[1]
        sibs_ok = all(x[0] not in ("missing", "imissing", "err") for x in subs)
        for (k, x), want in zip(children(n), subs):
            if bad:
                return
            path = None
            kk = keys + [k]
            if all(isinstance(q, (str, int)) for q in kk):
                path = (real, ".".join(str(q) for q in kk))
            for nm, f, missing_is_none in readers(n, k, path):
                if missing_is_none is None and not sibs_ok:
                    continue
                r = leafenc(attempt(f))
                w = want
                if missing_is_none and want == ("missing",):
                    w = ("ok", None)
                if enc_t(r) != enc_t(w):
                    bad = f"{path[1] if path else kk}: item access gives {want}, {nm} gives {r}"
                    return
                res.count("reads")
            if isinstance(x, Box) and not isinstance(x, UnionNode) and not (x._is_none() or x._is_missing() or x._is_interpolation()):
                go(x, want, real, kk)
    try:
        go(cfg, t, cfg, [])
    except Deep:
        res.count("infinite")
        return None
    if bad:
        return bad

    def expect(imissing):
        try:
            return ("ok", full(t, imissing))
        except Fails:
            return ("err",)

    def differs(r, want, tr=lambda x: x):
        if r[0] != want[0]:
            return f"gives {r[1]!r:.300}, reading gives {want}" if r[0] == "ok" else f"fails: {show_exc(r[1])[:200]}, reading gives {want}"
        if r[0] == "ok" and enc(tr(r[1])) != enc(tr(want[1])):
            return f"gives {r[1]!r:.300}, reading gives {want[1]!r}"

    try:
        d = differs(attempt(lambda: OmegaConf.to_container(cfg, resolve=True)), expect(False))
        if d:
            return f"to_container(resolve=True) {d}"
        d = differs(attempt(lambda: OmegaConf.to_container(cfg, resolve=True, enum_to_str=True)), expect(False), names)
        if d:
            return f"to_container(resolve=True, enum_to_str=True) {d}"
        d = differs(attempt(lambda: yaml.load(OmegaConf.to_yaml(cfg, resolve=True), Loader=get_yaml_loader())), expect(False), names)
        if d:
            return f"to_yaml(resolve=True) {d}"
        r = attempt(lambda: OmegaConf.to_container(cfg, resolve=False))
        if r[0] != "ok" or raw is not None and enc(r[1]) != enc(raw):
            return f"to_container(resolve=False) gives {r[1]!r}, the raw content is {raw!r}"
        unres = r[1]
        r = attempt(lambda: yaml.load(OmegaConf.to_yaml(cfg), Loader=get_yaml_loader()))
        if r[0] != "ok" or enc(r[1]) != enc(names(unres)):
            return f"to_yaml gives {r[1]!r}, the raw content is {unres!r}"
        if snap(cfg) != s0:
            return "reading changed the config"
        want = expect(True)
        if loose and want[0] == "ok" and not legal(loose, want[1]["t"][loose]):
            res.count("mismatched")
            return None
        r = attempt(lambda: OmegaConf.resolve(cfg))
        if r[0] != want[0]:
            return f"resolve {'succeeds' if r[0] == 'ok' else 'fails: ' + show_exc(r[1])[:200]}, reading gives {want}"
        if r[0] == "err":
            return None
        # afterwards
        res.count("resolved")
        for n in walk(cfg):
            if n._is_interpolation():
                v = n._value()
                live = not isinstance(v, str) or re.search(r"(?<!\\)(\\\\)*\$\{", v)
                if live:
                    return f"after resolve {n._get_full_key(None)} is still an interpolation: {v!r}"
        d = differs(attempt(lambda: OmegaConf.to_container(cfg, resolve=True)), want)
        if d:
            return f"after resolve: to_container {d}"
        t2 = deepread(cfg, 0)
        try:
            v2 = full(t2, False)
        except Fails:
            return f"after resolve, reading fails: {t2}"
        if enc(v2) != enc(want[1]):
            return f"after resolve, reading gives {v2!r}, before {want[1]!r}"
        s1 = snap(cfg)
        OmegaConf.resolve(cfg)
        if snap(cfg) != s1:
            return "resolving again changes the config"
        # resolving every sub-config alone
        for k, x in list(children(make())):
            if isinstance(x, (DictConfig, ListConfig)):
                c2 = make()
                sub = c2._get_node(k)
                r = attempt(lambda: OmegaConf.resolve(sub))
                if r[0] != "ok":
                    return f"resolve of the part {k} fails: {show_exc(r[1])[:200]}"
                t3 = deepread(c2, 0)
                try:
                    if enc(full(t3, True)) != enc(want[1]):
                        return f"resolving the part {k} changes what is read: {full(t3, True)!r} instead of {want[1]!r}"
                except Fails:
                    return f"resolving the part {k} breaks reading: {t3}"
    except Deep:
        res.count("infinite")
    return None


def enc_t(t):
    if t[0] == "ok":
        return ("ok", enc(t[1]))
    if t[0] == "dict":
        return ("dict", tuple((enc(k), enc_t(x)) for k, x in t[1]))
    if t[0] == "list":
        return ("list", tuple(enc_t(x) for x in t[1]))
    return t


# ---------------------------------------------------------------- the space
COMMON = [5, None, "???", "x", True, 1.5, "${b}", "${c}", "${d}", "${d.x}", "${d.n.z}", "${l}", "${l.0}", "${l[1]}", "${zz}", "${d.zz}", "x${b}", "${b}-${c}", "\\${b}", "a \\${b} ${c}", "\\\\${b}", "${t:${b}}", "${t:'\\${b}'}", "${lit:}", "${dct:}", "${lst:}", "${cfg:}", "${oc.create:{x:${b},y:1}}", "${nosuch:1}",
          "${.b}", "${..b}", "${.x}", "${m}", "${i}", "${d.n}", "${l.2}"]
CONT = [{"q": "${b}"}, ["${c}", "${.0}"], {}, []]
CONT2 = [{"q": "${.r}", "r": "\\${c}"}, ["${d}"]]


def s_flat(a, b, c):
    return {"a": a, "b": b, "c": c, "d": {"x": "${b}", "n": {"z": "${..x}"}}, "l": [1, "${.0}", ["${c}"]], "m": "???", "i": "${m}"}


def s_nest(x, z, b):
    return {"d": {"x": x, "n": {"z": z, "x": 0}, "b": 2}, "b": b, "c": "c", "l": ["${d.n}", "${d.x}"], "m": "???"}


def s_list(p, q, b):
    return {"l": [p, q, ["${b}"]], "b": b, "c": 3, "d": {"x": "${l.0}", "n": {"z": 4}}}


SHAPES = {"flat": s_flat, "nest": s_nest, "list": s_list}
TF = ["i", "f", "s", "oi", "e", "u", "li", "ds", "b"]
LOOSE = {"u": "u", "li": "li", "ds": "ds"}  # the target of an interpolation in a container or union field is only validated when it is stored
TV = ["${a}", "${t.i}", "${t.s}", "${o}", "${t.li}", "${t.ds}", "${t.e}", "${t.u}", "${l.0}", "${a.q}", "???", "${lit:}", "\\${a}", "${t.f}", "${t.b}", "x${t.i}", "${zz}", "${five:}", "${lst:}", "${dct:}"]
AV = [7, "8", "z", None, "RED", 1.5, True, "???", "${t.i}", "${t}", {"q": 3}, [1, "2"], "${t.li}", {"k": "w"}, "${l}", "${o}", "\\${t.i}", Col.GREEN, "${cfg:}"]


def typed(f, v, a, l0):
    def make():
        c = OmegaConf.structured(H)
        c.t._set_item_impl(f, v) if False else c.t.__setitem__(f, v)
        c.a = a
        c.l = [l0]
        return c
    return make


def setup():
    OmegaConf.register_new_resolver("t", lambda *a: "|".join(f"{type(x).__name__}:{x}" for x in a), replace=True)
    OmegaConf.register_new_resolver("lit", lambda: "${b}", replace=True)
    OmegaConf.register_new_resolver("five", lambda: 5, replace=True)
    OmegaConf.register_new_resolver("dct", lambda: {"x": 1, "y": [2]}, replace=True)
    OmegaConf.register_new_resolver("lst", lambda: [1, {"w": 2}], replace=True)
    OmegaConf.register_new_resolver("cfg", lambda: OmegaConf.create({"x": 1, "q": "${.x}"}), replace=True)


def one(w, res):
    kind = w[0]
    if kind == "typed":
        _, f, vs, avs, ls = w
        for v in vs:
            for a in avs:
                for l0 in ls:
                    try:
                        typed(f, v, a, l0)()
                    except OmegaConfBaseException:
                        continue  # not assignable
                    msg = routes(typed(f, v, a, l0), None, res, LOOSE.get(f))
                    if msg:
                        res.violation(f"typed t.{f} = {v!r}, a = {a!r}, l = {[l0]!r}", f"H with t.{f} = {v!r}, a = {a!r}, l = {[l0]!r}: {msg}", dict(field=f, v=v, a=a, l0=l0))
        res.sample(f"structured config with t.{f} = {vs[0]!r}, all values of a and l[0]")
    else:
        _, name, first, seconds, thirds = w
        for b in seconds:
            for c in thirds:
                tree = SHAPES[name](first, b, c)
                msg = routes(lambda: OmegaConf.create(tree), tree, res)
                if msg:
                    res.violation(f"{tree}", f"{tree!r}: {msg}", dict(tree=tree))
        res.sample(f"{SHAPES[name](first, seconds[0], thirds[0])}")
    res.seen(w)


def check(tier):
    setup()
    work = []
    quick = tier == "quick"
    al = COMMON + CONT + CONT2
    for name in SHAPES:
        for i, a in enumerate(al):
            for j, ch in enumerate(chunks(al, 7)):
                th = al[(3 * i + j) % 41::41] if quick else al
                work.append(("shape", name, a, ch, th))
    for i, f in enumerate(TF):
        for j, ch in enumerate(chunks(TV, 2)):
            work.append(("typed", f, ch, AV, [[1, "${a}", "${t}"][(i + j) % 3]] if quick else [1, "${a}", "${t}", "???", {"x": "${t.s}"}, "${t.li}", "${lit:}"]))
    res = parallel(one, work)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    setup()
    if "tree" in case:
        msg = routes(lambda: OmegaConf.create(case["tree"]), case["tree"], res)
    else:
        msg = routes(typed(case["field"], case["v"], case["a"], case["l0"]), None, res, LOOSE.get(case["field"]))
    if msg:
        res.violation("replay", msg, case)
    OmegaConf.clear_resolvers()
