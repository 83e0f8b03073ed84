"""C28: structured configs convert faithfully to and from objects.  Classes generated from all pairs of field types and field kinds (dataclasses and attrs classes), all small instances of them and of a hand-written family, every way of creating a config from them."""
import copy
import dataclasses
import itertools
import warnings
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, ClassVar, Dict, List, Optional, Tuple, Union

import attr

from .core import DictConfig, ListConfig, OmegaConf, enc, parallel, show_exc
from .fix import APt, Color, Pt, Pt3, Size
from .ops import chunks
from omegaconf import MISSING, SCMode
from omegaconf.base import Node
from omegaconf.errors import MissingMandatoryValue, OmegaConfBaseException

LEVEL = "model_checking"
ASSUMPTIONS = ["instances hold values of their annotated types (a tuple in a container field becomes a list, so tuples are left out)"]


@dataclass
class Deep:
    pt: Pt = field(default_factory=Pt)
    lp: List[Pt] = field(default_factory=list)
    dp: Dict[str, Pt] = field(default_factory=dict)


@dataclass(frozen=True)
class Froz:
    a: int = 1
    p: Optional[Pt] = None


@attr.s(auto_attribs=True, frozen=True)
class AFroz:
    a: int = 1
    p: Optional[APt] = None


@attr.s(auto_attribs=True)
class ADeep:
    pt: APt = attr.Factory(APt)
    lp: List[APt] = attr.Factory(list)
    mixed: Pt = attr.Factory(Pt)


@dataclass
class Sub(Deep):
    extra: int = 5


@dataclass
class InitFalse:
    a: int = 1
    b: int = field(default=2, init=False)
    c: List[int] = field(default_factory=lambda: [1], init=False)
    d: Optional[Pt] = field(default=None, init=False)


@dataclass
class Ignored:
    a: int = 1
    ig: Any = field(default=7, metadata={"omegaconf_ignore": True})
    igl: List[Any] = field(default_factory=list, metadata={"omegaconf_ignore": True})
    cv: ClassVar[int] = 3
    z: str = "z"


@attr.s(auto_attribs=True)
class AIgnored:
    a: int = 1
    ig: Any = attr.ib(default=7, metadata={"omegaconf_ignore": True})
    nf: int = attr.ib(default=4, init=False)
    z: str = "z"


@attr.s(auto_attribs=True)
class Private:
    _a: int = 1
    __b: int = 2
    c: int = attr.ib(default=3, alias="see")


@dataclass
class Post:
    a: int = 1
    total: int = field(init=False, default=0)

    def __post_init__(self):
        self.total = self.a + 1


@dataclass
class Kw:
    req: int
    b: str = field(default="b", kw_only=True)
    e: Color = field(default=Color.RED, kw_only=True)


@dataclass
class Req:
    a: int
    p: Pt
    l: List[int]
    o: Optional[int]


@dataclass
class Recur:
    v: int = 0
    nxt: Optional["Recur"] = None
    kids: List["Recur"] = field(default_factory=list)


@dataclass(eq=True, order=True)
class Slots:
    __slots__ = ("a", "p")
    a: int
    p: Optional[str]


BIG = 2 ** 70
# name -> (annotation, values, default value)
KINDS = {
    "int": (int, [0, -1, BIG]),
    "float": (float, [0.5, float("inf"), -0.0, 1e-300]),
    "bool": (bool, [True, False]),
    "str": (str, ["", "a", "1", "null", "é ", "a:b"]),
    "bytes": (bytes, [b"", b"\xff"]),
    "path": (Path, [Path("p"), Path("/a/b")]),
    "color": (Color, [Color.RED, Color.GREEN]),
    "any": (Any, [1, "a", None, True, 1.5, Color.RED, b"x", Path("q"), [1, {"k": [2]}], {"a": 1, 2: None}, Pt(2), [Pt(3), APt(4)], {"p": Pt3(5)}, []]),
    "oint": (Optional[int], [None, 3]),
    "ostr": (Optional[str], [None, ""]),
    "ocolor": (Optional[Color], [None, Color.GREEN]),
    "uis": (Union[int, str], [1, "1", "a"]),
    "uobf": (Union[bool, float, None], [None, True, 0.5]),
    "pt": (Pt, [Pt(), Pt(3, 1.5), Pt3(4, 2.5, "z")]),
    "apt": (APt, [APt(), APt(2, 0.25)]),
    "opt": (Optional[Pt], [None, Pt(7), Pt3(1, 1.0, None)]),
    "deep": (Deep, [Deep(), Deep(Pt3(1), [Pt(2), Pt3(3)], {"a": Pt(4), "b": Pt3(5)}), Sub()]),
    "froz": (Froz, [Froz(), Froz(2, Pt(2))]),
    "adeep": (ADeep, [ADeep(), ADeep(APt(2), [APt(3)], Pt3(4))]),
    "lint": (List[int], [[], [1, -2]]),
    "loint": (List[Optional[int]], [[None, 1]]),
    "lpt": (List[Pt], [[], [Pt(2), Pt3(3, 1.0, "k")]]),
    "llint": (List[List[int]], [[[1], []]]),
    "lany": (List[Any], [[1, None, "a", [2], {"k": Pt(1)}]]),
    "olint": (Optional[List[int]], [None, [1]]),
    "luis": (List[Union[int, str]], [[1, "1"]]),
    "dsi": (Dict[str, int], [{}, {"a": 1, "": 2}]),
    "dip": (Dict[int, Pt], [{1: Pt(2), 2: Pt3(3)}]),
    "dcs": (Dict[Color, str], [{Color.RED: "r"}]),
    "dfb": (Dict[float, bool], [{0.5: True}]),
    "dbl": (Dict[bool, List[int]], [{True: [1], False: []}]),
    "dyb": (Dict[bytes, Any], [{b"k": [Pt(9)]}]),
    "dsl": (Dict[str, List[Pt]], [{"l": [Pt(1)], "m": []}]),
    "oda": (Optional[Dict[str, Any]], [None, {"x": {"y": [1]}}]),
    "list": (list, [[1, "a"], []]),
    "dict": (dict, [{"a": 1}, {}]),
}
FLAVORS = ["dc", "dc_noinit", "dc_factory", "dc_kw", "at", "at_noinit", "at_factory", "at_private"]


def mutable(v):
    return isinstance(v, (list, dict)) or dataclasses.is_dataclass(v) or attr.has(type(v))


_classes = {}


def make(flavor, kinds):
    """a class with one field of each kind; required, defaulted, init=False..."""
    key = (flavor, kinds)
    if key in _classes:
        return _classes[key]
    specs = []
    for i, k in enumerate(kinds):
        ann, vals = KINDS[k]
        name = f"f{i}"
        d = vals[0]
        fac = (lambda d: lambda: copy.deepcopy(d))(d)
        if flavor.startswith("dc"):
            if flavor == "dc":
                f = None
            elif flavor == "dc_noinit":
                f = field(init=False, default_factory=fac)
            elif flavor == "dc_factory":
                f = field(default_factory=fac)
            else:
                f = field(kw_only=True)
            specs.append((name, ann) if f is None else (name, ann, f))
        else:
            if flavor == "at":
                f = attr.ib(type=ann)
            elif flavor == "at_noinit":
                f = attr.ib(type=ann, init=False, factory=fac)
            elif flavor == "at_factory":
                f = attr.ib(type=ann, factory=fac)
            else:
                name = "_" + name
                f = attr.ib(type=ann, factory=fac)
            specs.append((name, f))
    if flavor.startswith("dc"):
        c = dataclasses.make_dataclass(f"C_{flavor}_{'_'.join(kinds)}", specs)
    else:
        c = attr.make_class(f"C_{flavor}_{'_'.join(kinds)}", dict(specs))
    _classes[key] = c
    return c


def names_of(cls):
    fs = dataclasses.fields(cls) if dataclasses.is_dataclass(cls) else attr.fields(cls)
    return [f.name for f in fs]


def live_fields(cls):
    """fields omegaconf is told to look at"""
    fs = dataclasses.fields(cls) if dataclasses.is_dataclass(cls) else attr.fields(cls)
    return [f for f in fs if f.metadata.get("omegaconf_ignore") is not True]


def inst(cls, vals):
    """an instance with these field values, whatever its __init__ takes"""
    x = cls.__new__(cls)
    if isinstance(x, dict):
        dict.__init__(x)
    for n, v in zip(names_of(cls), vals):
        object.__setattr__(x, n, copy.deepcopy(v))
    return x


def sc(v):
    return not isinstance(v, type) and (dataclasses.is_dataclass(v) or attr.has(type(v)))


def den(v):
    """deep description of a value including classes at every level"""
    if sc(v):
        extra = tuple((k, den(x)) for k, x in v.items()) if isinstance(v, dict) else ()
        return (type(v), tuple((n, den(getattr(v, n, "<unset>"))) for n in names_of(type(v)))) + extra
    if isinstance(v, dict):
        return (type(v), tuple((enc(k), den(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v), tuple(map(den, v)))
    return enc(v)


def mids(v, out=None):
    """the mutable objects inside"""
    out = {} if out is None else out
    if sc(v):
        out[id(v)] = v
        for n in names_of(type(v)):
            mids(getattr(v, n, None), out)
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mids(x, out)
    elif isinstance(v, list):
        out[id(v)] = v
        for x in v:
            mids(x, out)
    return out


def defaults(cls):
    """field -> default value (None, missing marker)"""
    out = {}
    fs = live_fields(cls)
    for f in fs:
        if dataclasses.is_dataclass(cls):
            out[f.name] = f.default if f.default is not dataclasses.MISSING else f.default_factory() if f.default_factory is not dataclasses.MISSING else MISSING
        else:
            d = f.default
            out[f.name] = MISSING if d is attr.NOTHING else d.factory() if isinstance(d, attr.Factory) else d
    return out


# ---------------------------------------------------------------- expected conversions
def want(v, mode, e2s, cfgs):
    """plain content of a value (an instance, container or scalar) for a conversion mode"""
    if sc(v):
        if mode == SCMode.INSTANTIATE:
            return rebuilt(v)
        if mode == SCMode.DICT_CONFIG:
            return ("CFG", v)
        d = {f.name: want(getattr(v, f.name), mode, e2s, cfgs) for f in live_fields(type(v))}
        if isinstance(v, dict):
            d.update({k: want(x, mode, e2s, cfgs) for k, x in v.items()})
        return d
    if isinstance(v, dict):
        return {(k.name if e2s and isinstance(k, (Color, Size)) else k): want(x, mode, e2s, cfgs) for k, x in v.items()}
    if isinstance(v, list):
        return [want(x, mode, e2s, cfgs) for x in v]
    if e2s and isinstance(v, (Color, Size)):
        return v.name
    return v


def rebuilt(v):
    """the instance expected back: ignored fields take their defaults"""
    if sc(v):
        cls = type(v)
        live = {f.name for f in live_fields(cls)}
        x = cls.__new__(cls)
        if isinstance(v, dict):
            dict.update(x, {k: rebuilt(y) for k, y in v.items()})
        dflt = None
        for n in names_of(cls):
            if n in live:
                object.__setattr__(x, n, rebuilt(getattr(v, n)))
            else:
                dflt = dflt or cls()
                object.__setattr__(x, n, getattr(dflt, n))
        return x
    if isinstance(v, dict):
        return {k: rebuilt(y) for k, y in v.items()}
    if isinstance(v, list):
        return [rebuilt(y) for y in v]
    return v


def agree(got, exp, path=""):
    """'' or where they differ"""
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == "CFG":
        if not isinstance(got, DictConfig):
            return f"at {path or 'the top'}: {type(got).__name__} {got!r}, expected a DictConfig"
        if OmegaConf.get_type(got) is not type(exp[1]):
            return f"at {path or 'the top'}: DictConfig of {OmegaConf.get_type(got)}, expected {type(exp[1])}"
        return agree(OmegaConf.to_container(got, structured_config_mode=SCMode.INSTANTIATE), rebuilt(exp[1]), path)
    if sc(exp):
        a, b = den(got), den(exp)
        return "" if a == b else f"at {path or 'the top'}: {got!r}, expected {exp!r}"
    if type(got) is not type(exp):
        return f"at {path or 'the top'}: {type(got).__name__} {got!r}, expected {type(exp).__name__} {exp!r}"
    if isinstance(exp, dict):
        if enc(list(got)) != enc(list(exp)):
            return f"at {path or 'the top'}: keys {list(got)}, expected {list(exp)}"
        for k in exp:
            d = agree(got[k], exp[k], f"{path}.{k}")
            if d:
                return d
        return ""
    if isinstance(exp, list):
        if len(got) != len(exp):
            return f"at {path or 'the top'}: {got!r}, expected {exp!r}"
        for i, (a, b) in enumerate(zip(got, exp)):
            d = agree(a, b, f"{path}[{i}]")
            if d:
                return d
        return ""
    return "" if enc(got) == enc(exp) else f"at {path or 'the top'}: {got!r}, expected {exp!r}"


# ---------------------------------------------------------------- routes from an instance to a config
@dataclass
class HoldAny:
    v: Any = None


@dataclass
class HoldList:
    v: List[Any] = field(default_factory=list)


def r_assign(x):
    c = OmegaConf.create({"v": None})
    c.v = x
    return c, c.v


def r_setitem_list(x):
    c = OmegaConf.create([0])
    c[0] = x
    return c, c[0]


def r_append(x):
    c = OmegaConf.create([])
    c.append(x)
    return c, c[0]


def r_merge(x):
    c = OmegaConf.merge({"a": 1}, {"v": x})
    return c, c.v


def r_merge_cls(x):
    c = OmegaConf.merge(OmegaConf.structured(type(x)), x)
    return c, c


def r_merge_with(x):
    c = OmegaConf.create({"v": {}})
    c.merge_with({"v": x})
    return c, c.v


def r_update(x):
    c = OmegaConf.create({"v": 1})
    OmegaConf.update(c, "v", x)
    return c, c.v


def r_hold(x):
    c = OmegaConf.structured(HoldAny(v=x))
    return c, c.v


def r_hold_list(x):
    c = OmegaConf.structured(HoldList(v=[x]))
    return c, c.v[0]


def both(f):
    def g(x):
        c = f(x)
        return c, c
    return g


ROUTES = {
    "structured": both(OmegaConf.structured), "create": both(OmegaConf.create), "DictConfig": both(lambda x: DictConfig(content=x)),
    "typed DictConfig": both(lambda x: DictConfig(content=x, ref_type=type(x))), "in dict": lambda x: (lambda c: (c, c.v))(OmegaConf.create({"v": x})), "in list": lambda x: (lambda c: (c, c[0]))(OmegaConf.create([x])),
    "assign": r_assign, "list item": r_setitem_list, "append": r_append, "merge": r_merge, "merge class": r_merge_cls, "merge_with": r_merge_with, "update": r_update, "Any field": r_hold, "List[Any] field": r_hold_list,
    "deepcopy": both(lambda x: copy.deepcopy(OmegaConf.structured(x))), "merge1": both(lambda x: OmegaConf.merge(OmegaConf.structured(x))),
}
FEW = ["structured", "in list", "Any field"]


def judge(x, routes, res, case, light=False):
    cls = type(x)
    before = den(x)
    cbefore = class_state(cls)
    for r in routes:
        if r == "merge class" and {"froz", "dict"} & set(case.get("kinds", ())):
            continue  # merging keeps the keys of a dict and refuses to change a frozen default
        res.count("transitions")
        at = f"{r} of {x!r}"
        cs = dict(case, route=r)
        try:
            root, c = ROUTES[r](x)
        except Exception as e:
            res.violation(f"{r} raises", f"{at} raises {show_exc(e)}", cs)
            continue
        if not isinstance(c, DictConfig):
            res.violation(f"{r} kind", f"{at} gives {c!r}", cs)
            continue
        bad = types_bad(c, x)
        if bad:
            res.violation(f"{r} types", f"{at}: {bad}", cs)
            continue
        try:
            o = OmegaConf.to_object(c)
            bad = agree(o, rebuilt(x))
            if not bad and is_eq(cls) and rebuilt(x) == x and not o == x:
                bad = "not equal to the original"
        except Exception as e:
            bad, o = show_exc(e), None
        if bad:
            res.violation(f"{r} to_object", f"to_object({at}): {bad}", cs)
            continue
        for mode in (SCMode.DICT, SCMode.DICT_CONFIG, SCMode.INSTANTIATE):
            for e2s in (False, True):
                if light and e2s:
                    continue
                if mode == SCMode.INSTANTIATE and e2s:
                    continue
                for resolve in (False, True) if not light else (True,):
                    try:
                        g = OmegaConf.to_container(root, structured_config_mode=mode, enum_to_str=e2s, resolve=resolve)
                    except Exception as e:
                        res.violation(f"{r} to_container", f"to_container({at}, {mode}, enum_to_str={e2s}): {show_exc(e)}", cs)
                        continue
                    if root is not c:
                        if r in ("Any field",) and mode != SCMode.DICT or r == "List[Any] field" and mode != SCMode.DICT:
                            continue
                        g = g[0] if isinstance(g, list) else g["v"]
                        g = g[0] if r == "List[Any] field" else g
                    exp = want(x, mode, e2s, None)
                    bad = agree(g, exp)
                    if bad:
                        res.violation(f"{r} to_container {mode}", f"to_container({at}, {mode}, enum_to_str={e2s}, resolve={resolve}): {bad}", cs)
        if den(x) != before:
            res.violation(f"{r} changed", f"{at} changed the instance to {x!r}", cs)
            return
        # nothing is shared: changing the config changes neither the object nor what was made from it
        o1 = den(o)
        shared = set(mids(o)) & set(mids(x))
        if shared:
            res.violation(f"{r} shares", f"to_object({at}) shares {[mids(o)[i] for i in shared]} with the original", cs)
        scramble(c)
        if den(x) != before or den(o) != o1:
            res.violation(f"{r} shared", f"{at}: changing the config changed the instance or the object made from it", cs)
            return
        if class_state(cls) != cbefore:
            res.violation(f"{r} class", f"{at} changed the class", cs)
            return
    res.count("validated")
    res.count("states")


def is_eq(cls):
    return True


def scramble(n):
    """change every node of a config in place, behind its back"""
    OmegaConf.set_readonly(n, False)
    OmegaConf.set_struct(n, False)
    stack = [n]
    while stack:
        m = stack.pop()
        ct = m.__dict__["_content"]
        if isinstance(ct, dict):
            stack += [v for v in ct.values() if isinstance(v, (DictConfig, ListConfig))]
            ct["SCRAMBLED"] = None
        elif isinstance(ct, list):
            stack += [v for v in ct if isinstance(v, (DictConfig, ListConfig))]
            ct.append(None)


def types_bad(c, x):
    """get_type and get_type of every node against the classes of the instance"""
    if sc(x):
        if OmegaConf.get_type(c) is not type(x):
            return f"get_type is {OmegaConf.get_type(c)}, expected {type(x)}"
        keys = [f.name for f in live_fields(type(x))] + (list(x) if isinstance(x, dict) else [])
        if list(c.keys()) != keys:
            return f"keys {list(c.keys())}, expected {keys}"
        for f in live_fields(type(x)):
            b = types_bad(c._get_node(f.name), getattr(x, f.name))
            if b:
                return f"{f.name}: {b}"
        return ""
    if isinstance(x, dict):
        if OmegaConf.get_type(c) is not dict:
            return f"get_type is {OmegaConf.get_type(c)}, expected dict"
        for k, v in x.items():
            b = types_bad(c._get_node(k), v)
            if b:
                return f"{k}: {b}"
        return ""
    if isinstance(x, list):
        if OmegaConf.get_type(c) is not list:
            return f"get_type is {OmegaConf.get_type(c)}, expected list"
        for i, v in enumerate(x):
            b = types_bad(c._get_node(i), v)
            if b:
                return f"[{i}]: {b}"
        return ""
    v = c._value()
    v = v._value() if isinstance(v, Node) else v
    if enc(v) != enc(x):
        return f"value {v!r}, expected {x!r}"
    return ""


def class_state(cls):
    out = [tuple(sorted((k, repr(v)) for k, v in vars(cls).items() if not k.startswith("__") or k == "__annotations__"))]
    try:
        out.append(den({k: v for k, v in defaults(cls).items()}))
    except Exception as e:
        out.append(repr(e))
    return tuple(map(repr, out))


def judge_class(cls, res, case):
    """creating from the class"""
    before = class_state(cls)
    d = defaults(cls)
    for r in ("structured", "create", "in dict", "in list", "assign", "DictConfig"):
        res.count("transitions")
        cs = dict(case, route=r, cls=True)
        at = f"{r} of class {cls.__name__}"
        try:
            root, c = ROUTES[r](cls)
            c2 = ROUTES[r](cls)[1]
        except Exception as e:
            res.violation(f"{r} class raises", f"{at} raises {show_exc(e)}", cs)
            continue
        if OmegaConf.get_type(c) is not cls:
            res.violation(f"{r} class type", f"{at}: get_type is {OmegaConf.get_type(c)}", cs)
            continue
        bad = ""
        if list(c.keys()) != list(d):
            bad = f"keys {list(c.keys())}, expected {list(d)}"
        for k, v in d.items():
            n = c._get_node(k)
            if isinstance(v, str) and v == MISSING:
                if not n._is_missing():
                    bad = f"{k} is not missing"
            else:
                b = types_bad(n, v)
                bad = bad or (b and f"{k}: {b}")
        if bad:
            res.violation(f"{r} class defaults", f"{at}: {bad}", cs)
            continue
        missing = [k for k, v in d.items() if isinstance(v, str) and v == MISSING]
        inits = {f.name for f in live_fields(cls) if f.init}
        try:
            o = OmegaConf.to_object(c)
            if [k for k in missing if k in inits]:
                res.violation(f"{r} class missing", f"to_object of {at} gives {o!r} although {missing} are missing", cs)
            elif not missing:
                exp = None
                try:
                    exp = cls()
                except TypeError:
                    pass
                if exp is not None and den(o) != den(exp) and not post(cls):
                    res.violation(f"{r} class object", f"to_object of {at} gives {o!r}, expected {exp!r}", cs)
        except MissingMandatoryValue:
            if not [k for k in missing if k in inits]:
                res.violation(f"{r} class missing", f"to_object of {at} raises MissingMandatoryValue", cs)
        except Exception as e:
            res.violation(f"{r} class object", f"to_object of {at} raises {show_exc(e)}", cs)
        k0 = den(OmegaConf.to_container(c2, resolve=False))
        scramble(c)
        if den(OmegaConf.to_container(c2, resolve=False)) != k0 or class_state(cls) != before:
            res.violation(f"{r} class shared", f"{at}: changing the config changed the class or another config of it", cs)
    res.count("states")


def post(cls):
    return hasattr(cls, "__post_init__")


def judge_set(cls, vals, res, case):
    """values assigned to the fields of a config of the class come back in the object"""
    ns = names_of(cls)
    for i, n in enumerate(ns):
        c = OmegaConf.structured(inst(cls, [KINDS[k][1][0] for k in case["kinds"]]))
        res.count("transitions")
        for how in ("attr", "item", "update"):
            v = vals[i]
            try:
                if how == "attr":
                    setattr(c, n, v)
                elif how == "item":
                    c[n] = v
                else:
                    OmegaConf.update(c, n, v, merge=False)
                o = OmegaConf.to_object(c)
            except Exception as e:
                res.violation(f"set {how} raises", f"{cls.__name__}.{n} = {v!r} ({how}) raises {show_exc(e)}", case)
                continue
            exp = inst(cls, [v if j == i else KINDS[k][1][0] for j, k in enumerate(case["kinds"])])
            bad = agree(o, rebuilt(exp))
            if bad:
                res.violation(f"set {how}", f"after {cls.__name__}.{n} = {v!r} ({how}), to_object: {bad}", case)


# ---------------------------------------------------------------- interpolations and missing values
@dataclass
class Inter:
    a: Any = 1
    b: Any = 2
    p: Any = None
    n: Any = 0


@dataclass
class TInter:
    a: int = 1
    b: int = 2
    p: Optional[Pt] = None
    n: List[int] = field(default_factory=list)


IVALS = {"a": [1, "${b}", "${.b}", "${q}"], "b": [2, "${n[0]}", "${q}"], "p": [None, Pt(3), "${r}", "${.s}", Pt("${..b}", 0.5), Pt(4, "${.x}")], "n": [[5], ["${..q}", 7], "${l}", ["${..b}"]]}


def judge_inter(cls, vals, res):
    """to_object resolves interpolations and to_container(INSTANTIATE) those inside structured nodes"""
    x = inst(cls, vals)
    root = OmegaConf.create({"q": 8, "r": Pt3(9, 1.0, "r"), "l": [1, 2], "n": [3], "b": 4, "v": None})
    root.s = Pt(6)
    root.v = x
    host = {"q": 8, "r": Pt3(9, 1.0, "r"), "l": [1, 2], "n": [3], "b": 4, "s": Pt(6)}
    ref = {}

    def val(v, level):
        if isinstance(v, str) and v.startswith("${"):
            k = v[2:-1]
            if k.startswith(".."):
                return val(host[k[2:]], 0) if level == 1 else fieldv(k[2:]) if hasattr(cls, "__dataclass_fields__") and k[2:] in names_of(cls) else KeyError
            if k.startswith("."):
                return fieldv(k[1:]) if level == 1 and k[1:] in names_of(cls) else KeyError
            return val(host["n"][0] if k == "n[0]" else host[k], 0)
        return v

    def fieldv(k):
        return val(vals[names_of(cls).index(k)], 1)
    out = []
    for n, v in zip(names_of(cls), vals):
        r = val(v, 1)
        if isinstance(r, list):
            r = [val(e, 2) for e in r]
        if isinstance(r, Pt):
            r = copy.deepcopy(r)
            for f in ("x", "y"):
                e = getattr(r, f)
                if isinstance(e, str):
                    setattr(r, f, float(r.x) if e == "${.x}" else fieldv(e[4:-1]))
        out.append(r)
    bad_ref = any(o is KeyError or isinstance(o, list) and KeyError in o for o in out)
    res.count("transitions")
    case = dict(kind="inter", cls=cls.__name__, vals=repr(vals))
    for how, f in (("to_object", lambda: OmegaConf.to_object(root.v)), ("instantiate", lambda: OmegaConf.to_container(root, structured_config_mode=SCMode.INSTANTIATE)["v"]), ("to_object of the root", lambda: OmegaConf.to_object(root)["v"])):
        try:
            o = f()
        except Exception as e:
            if not bad_ref:
                res.violation(f"inter {how}", f"{how} of {x!r} raises {show_exc(e)}", case)
            continue
        if bad_ref:
            res.violation(f"inter {how}", f"{how} of {x!r} gives {o!r}, expected an error", case)
            continue
        d = agree(o, inst(cls, out))
        if d:
            res.violation(f"inter {how}", f"{how} of {x!r}: {d}", case)
    res.count("validated")


def judge_missing(kinds, flavor, res):
    """any subset of the fields missing: to_object refuses, other conversions keep '???' unless throw_on_missing"""
    cls = make(flavor, kinds)
    ns = names_of(cls)
    for sub in itertools.product((False, True), repeat=len(kinds)):
        x = inst(cls, [KINDS[k][1][-1] for k in kinds])
        c = OmegaConf.structured(x)
        for n, m in zip(ns, sub):
            if m:
                c[n] = MISSING
        noinit = flavor.endswith("noinit")
        case = dict(kind="missing", kinds=list(kinds), flavor=flavor)
        res.count("transitions")
        for root, get in ((c, lambda o: o), (OmegaConf.create({"k": [c]}), lambda o: o["k"][0])):
            try:
                o = get(OmegaConf.to_object(root))
                ok = True
            except MissingMandatoryValue:
                ok = False
            except Exception as e:
                res.violation("missing to_object", f"to_object of {cls.__name__} with missing {sub} raises {show_exc(e)}", case)
                continue
            if ok != (not any(sub)) and not noinit:
                res.violation("missing to_object", f"to_object of {cls.__name__} with missing {sub} gives {'an object' if ok else 'MissingMandatoryValue'}", case)
            if ok and noinit and any(sub):
                exp = inst(cls, [KINDS[k][1][0 if m else -1] for k, m in zip(kinds, sub)])
                d = agree(o, rebuilt(exp))
                if d:
                    res.violation("missing init=False", f"to_object of {cls.__name__} with missing {sub}: {d}", case)
            d = get(OmegaConf.to_container(root))
            for n, m, k in zip(ns, sub, kinds):
                e = MISSING if m else want(KINDS[k][1][-1], SCMode.DICT, False, None)
                b = agree(d[n], e)
                if b:
                    res.violation("missing to_container", f"to_container of {cls.__name__} with missing {sub}, {n}: {b}", case)
            try:
                OmegaConf.to_container(root, throw_on_missing=True)
                if any(sub):
                    res.violation("missing throw", f"to_container(throw_on_missing) of {cls.__name__} with missing {sub} does not raise", case)
            except MissingMandatoryValue:
                if not any(sub):
                    res.violation("missing throw", f"to_container(throw_on_missing) of {cls.__name__} raises", case)
    res.count("validated")


# ---------------------------------------------------------------- the hand-written family
def family():
    pts = [None, Pt(), Pt3(2, 1.0, "z")]
    yield from (InitFalse, AIgnored, Ignored, Private, Post, Kw, Req, Recur, Deep, Sub, ADeep, Froz, AFroz)


def family_instances(cls):
    if cls is InitFalse:
        for a, b, c, d in itertools.product((1, 5), (2, 6), ([1], [], [4]), (None, Pt(3), Pt3(1))):
            yield inst(cls, (a, b, c, d))
    elif cls is Ignored:
        for a, i, l, z in itertools.product((1, 2), (7, 8, object), ([], [1]), ("z", "y")):
            yield inst(cls, (a, i, l, z))
    elif cls is AIgnored:
        for a, i, n, z in itertools.product((1, 2), (7, {"x": object}), (4, 5), ("z", "y")):
            yield inst(cls, (a, i, n, z))
    elif cls is Private:
        for v in itertools.product((1, 4), (2, 5), (3, 6)):
            yield inst(cls, v)
    elif cls is Post:
        for a, t in itertools.product((1, 2), (0, 3, 9)):
            yield inst(cls, (a, t))
    elif cls is Kw:
        for v in itertools.product((0, 1), ("b", ""), Color):
            yield inst(cls, v)
    elif cls is Req:
        for v in itertools.product((0, 1), (Pt(), Pt3(4)), ([], [2]), (None, 1)):
            yield inst(cls, v)
    elif cls is Recur:
        leaf = Recur(1)
        yield Recur()
        yield Recur(2, leaf)
        yield Recur(3, Recur(4, leaf, [Recur(5)]), [leaf, Recur(6, None, [Recur(7)])])
    elif cls in (Deep, Sub):
        for p, l, d in itertools.product((Pt(), Pt3(1)), ([], [Pt(), Pt3(2)]), ({}, {"a": Pt3(3), "b": Pt()})):
            yield inst(cls, (p, l, d) + ((9,) if cls is Sub else ()))
    elif cls is ADeep:
        for v in itertools.product((APt(), APt(2)), ([], [APt(3), APt()]), (Pt(), Pt3(3))):
            yield inst(cls, v)
    elif cls is Froz:
        for v in itertools.product((1, 2), (None, Pt(), Pt3(3))):
            yield inst(cls, v)
    elif cls is AFroz:
        for v in itertools.product((1, 2), (None, APt())):
            yield inst(cls, v)


def one(w, res):
    warnings.simplefilter("ignore")
    if w[0] == "family":
        cls = {c.__name__: c for c in family()}[w[1]]
        judge_class(cls, res, dict(kind="family", cls=w[1]))
        for i, x in enumerate(family_instances(cls)):
            judge(x, list(ROUTES), res, dict(kind="family", name=w[1], i=i))
            res.seen((w[1], i))
        res.sample(f"{w[1]}: every instance by every route")
        return
    if w[0] == "inter":
        for vals in w[2]:
            judge_inter({"Inter": Inter, "TInter": TInter}[w[1]], vals, res)
            res.seen((w[1], repr(vals)))
        return
    if w[0] == "missing":
        judge_missing(w[2], w[1], res)
        res.seen(w)
        return
    _, flavor, kinds, th = w
    cls = make(flavor, kinds)
    case = dict(kind="gen", flavor=flavor, kinds=list(kinds))
    judge_class(cls, res, case)
    for vals in itertools.product(*[KINDS[k][1] for k in kinds]):
        x = inst(cls, vals)
        judge(x, list(ROUTES) if len(kinds) == 1 or th else FEW, res, dict(case, vals=repr(vals)), light=len(kinds) > 1)
        if flavor in ("dc_factory", "at_factory") and len(kinds) == 1:
            judge_set(cls, vals, res, case)
        res.seen((flavor, kinds, repr(vals)))
    res.sample(f"class with fields {kinds} ({flavor})", 4)


def check(tier):
    th = tier == "thorough"
    work = [("family", c.__name__) for c in family()]
    for cls in ("Inter", "TInter"):
        for x in chunks(list(itertools.product(*IVALS.values())), 50):
            work.append(("inter", cls, x))
    for fl in ("dc_factory", "dc_noinit", "at_factory", "at_noinit"):
        for a, b in itertools.combinations(KINDS, 2):
            if th or fl[:2] == ("dc" if len(a + b) % 2 else "at"):
                work.append(("missing", fl, (a, b)))
    for fl in FLAVORS:
        for k in KINDS:
            work.append(("gen", fl, (k,), th))
    for fl in FLAVORS if th else ("dc_factory", "at_factory"):
        for a, b in itertools.product(KINDS, KINDS):
            if th or fl == "dc_factory" and a < b or fl == "at_factory" and a > b:
                work.append(("gen", fl, (a, b), False))
    if th:
        for fl in ("dc", "at_private"):
            for k in itertools.combinations(list(KINDS), 3):
                if sum(len(KINDS[x][1]) for x in k) < 9:
                    work.append(("gen", fl, k, False))
    return parallel(one, work)


def replay(case, res):
    warnings.simplefilter("ignore")
    if case["kind"] == "inter":
        for vals in itertools.product(*IVALS.values()):
            if repr(vals) == case["vals"]:
                judge_inter({"Inter": Inter, "TInter": TInter}[case["cls"]], vals, res)
    elif case["kind"] == "missing":
        judge_missing(tuple(case["kinds"]), case["flavor"], res)
    elif case["kind"] == "family":
        one(("family", case.get("name") or case["cls"]), res)
    else:
        one(("gen", case["flavor"], tuple(case["kinds"]), False), res)
