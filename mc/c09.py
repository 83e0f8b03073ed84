"""C09: conversion of a value to a declared type, the same through every entry point.  All (type, value, entry point) triples."""
import enum
import typing
from dataclasses import field, make_dataclass
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, enc, parallel, plain, show_exc
from .ops import NS, at
from .fix import Color, Size, Pt, Pt3
from omegaconf import MISSING, AnyNode, BooleanNode, BytesNode, EnumNode, FloatNode, IntegerNode, ListMergeMode, PathNode, StringNode
from omegaconf.errors import OmegaConfBaseException

LEVEL = "exploration"
ASSUMPTIONS = ["spelling of numbers in strings is Python's int() and float()", "an interpolation in a Union, container or structured field is not validated when read (as documented)"]


class IE(enum.IntEnum):
    A = 1
    B = 0


class SE(str, enum.Enum):
    P = "p"


class MyInt(int):
    pass


class MyStr(str):
    pass


ENV = dict(NS, IE=IE, SE=SE, MyInt=MyInt, MyStr=MyStr)

PRIM = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "Path": Path, "Color": Color, "Size": Size, "IE": IE, "SE": SE, "Any": Any}
UNIONS = {"U_int_str": Union[int, str], "U_int_bool": Union[int, bool], "U_bool_int": Union[bool, int], "U_float_bool": Union[float, bool], "U_bytes_Path": Union[bytes, Path], "U_Color_int": Union[Color, int],
          "U_str_Path": Union[str, Path], "U_float_str": Union[float, str], "U_Color_Size": Union[Color, Size]}
CONT = {"List[int]": List[int], "List[str]": List[str], "Dict[str,int]": Dict[str, int], "Dict[int,str]": Dict[int, str], "Dict[Color,int]": Dict[Color, int], "Dict[bool,int]": Dict[bool, int], "Dict[float,int]": Dict[float, int],
        "Dict[bytes,int]": Dict[bytes, int], "List[Color]": List[Color],
        "List[List[int]]": List[List[int]], "Dict[str,List[int]]": Dict[str, List[int]], "Pt": Pt, "List[Pt]": List[Pt], "Dict[str,Pt]": Dict[str, Pt], "List[Optional[int]]": List[Optional[int]],
        "List[Any]": List[Any], "Dict[str,Any]": Dict[str, Any], "List[Union[int,str]]": List[Union[int, str]], "List": List, "Dict": Dict, "list": list, "dict": dict}
TYPES = {}
for _n, _t in list(PRIM.items()) + list(UNIONS.items()) + list(CONT.items()):
    TYPES[_n] = _t
    if _n != "Any":
        TYPES[f"O_{_n}"] = Optional[_t]

NUMS = ["0", "1", "-1", "2", "2**70", "0.0", "1.0", "1.5", "-0.0", "float('nan')", "float('inf')", "1e300", "True", "False", "10**400"]
STRS = [repr(s) for s in ("", "0", "1", "2", "-1", "+1", " 1", "1 ", "1_000", "1__0", "1.0", "1e3", "1e400", ".5", "nan", "inf", "-inf", "Infinity", "0x10", "0b1", "010", "\u0663", "true", "True", "TRUE", "yes", "Y",
                          "on", "off", "n", "No", "false", "maybe", "RED", "red", "Color.RED", "Color.Color.RED", "Color.Size.RED", "Color.", ".RED", "RED.RED", "Color.RED.", "Color .RED", "Color. RED", " RED", "RED ", "color.RED", "xColor.RED", "Size.Color.RED", "Color.Size.S", "Color.x.S", "Color:RED", "Size.S", "Size.RED", "S", "s", "A", "IE.A", "P", "p", "1,2", "foo", "a/b", "None", "null", "1L", "\\${a}", "$", "[1]", "{}")]
OTHER = ["b''", "b'x'", "b'1'", "Path('a')", "Path('1')", "Color.RED", "Size.S", "IE.A", "IE.B", "SE.P", "None", "'???'"]
CONTV = ["[]", "[1]", "['1']", "['x']", "[None]", "['???']", "[[1]]", "[{}]", "(1,)", "{}", "{'k': 1}", "{'k': '1'}", "{'k': 'x'}", "{1: 'a'}", "{1: 2}", "{'1': 2}", "{True: 1}", "{0: 1}", "{1.5: 1}", "{b'k': 1}", "{'RED': 1}", "{Color.RED: 1}", "{'k': None}",
         "{'k': [1]}", "{'k': {}}", "{'x': 2}", "{'x': 'bad'}", "{'zz': 1}", "[{'x': 2}]", "{'k': {'x': 2}}", "Pt", "Pt(3)", "Pt3(3)", "Pt3", "Other", "Other()", "APt()", "Frozen()", "[Pt]", "[Pt3(3)]", "[Other()]", "{'k': Pt3(3)}", "{'k': Other()}",
         "object()", "int", "{1, 2}", "OmegaConf.create([1])", "OmegaConf.create({'k': 1})", "OmegaConf.structured(Pt(3))", "OmegaConf.structured(Pt3(3))", "OmegaConf.structured(Other)",
         "ListConfig(['1'], element_type=str)", "DictConfig({'k': '1'}, element_type=str)", "ListConfig([1], element_type=int)", "ListConfig(None)", "DictConfig(None)", "DictConfig('???')", "[1, 'x']", "[5, None]", "[Color.RED, 'GREEN']", "['1', 2, True]", "[1.5]", "[b'x']"]
NODES = ["IntegerNode(5)", "StringNode('5')", "AnyNode('7')", "AnyNode(7)", "FloatNode(2.5)", "BooleanNode(True)", "EnumNode(Color, Color.GREEN)", "BytesNode(b'q')", "PathNode(Path('p'))", "StringNode('x')", "AnyNode(None)", "IntegerNode(None)", "StringNode('???')"]
VALUES = NUMS + STRS + OTHER + CONTV + NODES

INIT = {"int": "3", "float": "2.5", "bool": "True", "str": "'ini'", "bytes": "b'ini'", "Path": "Path('ini')", "Color": "Color.GREEN", "Size": "Size.L", "IE": "IE.B", "SE": "SE.P", "Any": "'ini'",
        "U_int_str": "'ini'", "U_int_bool": "4", "U_bool_int": "4", "U_float_bool": "2.5", "U_bytes_Path": "b'ini'", "U_Color_int": "4", "U_str_Path": "'ini'", "U_float_str": "'ini'", "U_Color_Size": "Size.L",
        "List[int]": "[3]", "List[str]": "['i']", "Dict[str,int]": "{'ini': 3}", "Dict[int,str]": "{3: 'i'}", "Dict[Color,int]": "{Color.GREEN: 3}", "Dict[bool,int]": "{False: 3}", "Dict[float,int]": "{2.5: 3}", "Dict[bytes,int]": "{b'ini': 3}", "List[Color]": "[Color.RED]",
        "List[List[int]]": "[[3]]", "Dict[str,List[int]]": "{'ini': [3]}", "Pt": "Pt(9)", "List[Pt]": "[Pt(9)]", "Dict[str,Pt]": "{'ini': Pt(9)}", "List[Optional[int]]": "[None]", "List[Any]": "[3]", "Dict[str,Any]": "{'ini': 3}", "List[Union[int,str]]": "['i']",
        "List": "[3]", "Dict": "{'ini': 3}", "list": "[3]", "dict": "{'ini': 3}"}

# a missing value merged into a field leaves it as it is
MISSINGS = ("'???'", "DictConfig('???')")
NO = "refused"
UNSPEC = None


def is_opt(t):
    return typing.get_origin(t) is Union and type(None) in typing.get_args(t)


def strip_opt(t):
    if is_opt(t):
        args = [a for a in typing.get_args(t) if a is not type(None)]
        return args[0] if len(args) == 1 else Union[tuple(args)]
    return t


def expected(t, v):
    """What a field of type t stores when given v: ('ok', value), NO, or UNSPEC.  Written from the documentation."""
    if isinstance(v, Node):
        if isinstance(v, (DictConfig, ListConfig)):
            return UNSPEC if t not in PRIM.values() and not t_union(t) or t is Any else (NO if v.__dict__["_content"] is not None and v.__dict__["_content"] != "???" else UNSPEC)
        if t is Any:
            return UNSPEC
        v = v._value()
        if v == "???":
            return ("ok", v)
    if v is None:
        return ("ok", None) if t is Any or is_opt(t) else NO
    if isinstance(v, str) and v == "???":
        return ("ok", "???")
    t = strip_opt(t)
    if typing.get_origin(t) is Union:
        for m in typing.get_args(t):
            if isinstance(m, type) and issubclass(m, (Path, enum.Enum)):
                if isinstance(v, m):
                    return ("ok", v)
            elif type(v) is m:
                return ("ok", v)
        return NO
    if t is Any:
        if isinstance(v, (int, float, bool, str, bytes, Path, enum.Enum)):
            return ("ok", v)
        if v is object or type(v) is object or isinstance(v, set):
            return NO
        return UNSPEC
    if t is int:
        if type(v) in (int, str):
            try:
                return ("ok", int(v))
            except ValueError:
                return NO
        return NO if not isinstance(v, (MyInt, MyStr)) else UNSPEC
    if t is float:
        if type(v) in (int, float, str):
            try:
                return ("ok", float(v))
            except (ValueError, OverflowError):
                return NO
        return NO if not isinstance(v, (MyInt, MyStr)) else UNSPEC
    if t is bool:
        if isinstance(v, bool):
            return ("ok", v)
        if isinstance(v, int) and not isinstance(v, enum.Enum):
            return ("ok", v != 0)
        if isinstance(v, str):
            if v.lower() in ("true", "yes", "y", "on"):
                return ("ok", True)
            if v.lower() in ("false", "no", "n", "off"):
                return ("ok", False)
            try:
                return ("ok", int(v) != 0)
            except ValueError:
                return NO
        return NO if not isinstance(v, enum.Enum) else UNSPEC
    if t is str:
        if isinstance(v, (bytes, list, tuple, dict)):
            return NO
        if isinstance(v, (int, float, bool, str, Path, enum.Enum)):
            try:
                return ("ok", str(v))
            except ValueError:
                return NO
        return UNSPEC
    if t is bytes:
        return ("ok", v) if isinstance(v, bytes) else NO
    if t is Path:
        return ("ok", Path(v)) if isinstance(v, (str, Path)) else NO
    if isinstance(t, type) and issubclass(t, enum.Enum):
        if isinstance(v, t):
            return ("ok", v)
        if isinstance(v, bool) or isinstance(v, (float, bytes, Path)):
            return NO
        if isinstance(v, str):
            name = v[len(t.__name__) + 1:] if v.startswith(t.__name__ + ".") else v
            return ("ok", t.__members__[name]) if name in t.__members__ else (UNSPEC if isinstance(v, enum.Enum) else NO)
        if isinstance(v, int):
            return next((("ok", m) for m in t if m.value == v and type(m.value) is int), UNSPEC if isinstance(v, enum.Enum) else NO)
        return NO
    origin = typing.get_origin(t) or (list if t is list else dict if t is dict else None)
    args = typing.get_args(t)
    if origin is list:
        el = args[0] if args and not isinstance(args[0], typing.TypeVar) else Any
        if isinstance(v, (list, tuple)):
            out = [expected(el, x) for x in v]
            if NO in out:
                return NO
            if None in out:
                return UNSPEC
            return ("ok", [x[1] for x in out])
        return NO if isinstance(v, (int, float, bool, bytes, enum.Enum)) and not isinstance(v, str) else (NO if isinstance(v, dict) else UNSPEC)
    if origin is dict:
        kt, el = args if args and not isinstance(args[0], typing.TypeVar) else (Any, Any)
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                k = key(kt, k)
                if k == NO or k is UNSPEC:
                    return k
                e = expected(el, x)
                if e == NO:
                    return NO
                if e is None:
                    return UNSPEC
                out[k[1]] = e[1]
            return ("ok", out)
        return NO if isinstance(v, (int, float, bool, bytes, list, tuple)) else UNSPEC
    if t is Pt:
        if isinstance(v, Pt):
            return ("ok", {f: getattr(v, f) for f in v.__dataclass_fields__})
        if v is Pt or v is Pt3:
            return expected(t, v())
        return NO if isinstance(v, (int, float, bool, bytes, list, tuple)) and not isinstance(v, str) else UNSPEC
    return UNSPEC


def key(kt, k):
    if kt is Any:
        return ("ok", k) if isinstance(k, (str, bytes, int, float, bool, enum.Enum)) else NO
    if kt is bool:
        return ("ok", bool(k)) if isinstance(k, (int, float)) and k in (0, 1) else NO
    if issubclass(kt, enum.Enum):
        return NO if k == "???" or k is None else expected(kt, k)
    if isinstance(k, kt):
        return ("ok", k)
    return NO


def t_union(t):
    return typing.get_origin(strip_opt(t)) is Union


_cls = {}


def cls_of(tname, default):
    """A dataclass with one field f of the type; default is source text or None (MISSING)."""
    k = (tname, default)
    if k not in _cls:
        t = TYPES[tname]
        if default is None:
            f = field(default=MISSING)
        else:
            f = field(default_factory=lambda: eval(default, ENV))
        _cls[k] = make_dataclass("C_" + "".join(c if c.isalnum() else "_" for c in tname), [("f", t, f)])
    return _cls[k]


def hold(tname, state):
    """A structured config with a field of the type, in state MISSING or an initial value"""
    return OmegaConf.structured(cls_of(tname, None if state == "missing" else INIT[tname.removeprefix("O_")] if state == "init" else "None"))


def fld(c):
    return c._get_node("f")


def entry_assign(c, how, v):
    if how == "attr":
        c.f = v
    elif how == "item":
        c["f"] = v
    elif how == "update":
        OmegaConf.update(c, "f", v, merge=False)
    elif how == "dictupdate":
        c.update({"f": v})
    elif how == "kwupdate":
        c.update(f=v)
    elif how == "node":
        fld(c)._set_value(v)
    elif how == "update_force":
        OmegaConf.update(c, "f", v, merge=False, force_add=True)
    return fld(c)


def entry_merge(c, how, v):
    if how == "merge":
        return fld(OmegaConf.merge(c, {"f": v}))
    if how == "mergecfg":
        return fld(OmegaConf.merge(c, OmegaConf.create({"f": v})))
    if how == "merge_with":
        c.merge_with({"f": v})
    elif how == "unsafe":
        c = OmegaConf.unsafe_merge(c, {"f": v})
    elif how == "update_merge":
        OmegaConf.update(c, "f", v, merge=True)
    return fld(c)


def entry_elem(t, how, v):
    opt = dict(element_type=t)
    if how == "dict_ctor":
        return DictConfig({"f": v}, **opt)._get_node("f")
    if how == "list_ctor":
        return ListConfig([v], **opt)._get_node(0)
    if how.startswith("d_"):
        d = DictConfig({}, **opt)
        if how == "d_item":
            d["f"] = v
        elif how == "d_attr":
            d.f = v
        elif how == "d_setdefault":
            d.setdefault("f", v)
        elif how == "d_update":
            d.update({"f": v})
        elif how == "d_omegaupdate":
            OmegaConf.update(d, "f", v, merge=False)
        elif how == "d_merge":
            d = OmegaConf.merge(d, {"f": v})
        elif how == "d_merge_with":
            d.merge_with({"f": v})
        return d._get_node("f")
    lst = ListConfig([], **opt)
    if how == "l_append":
        lst.append(v)
    elif how == "l_insert":
        lst.insert(0, v)
    elif how == "l_extend":
        lst.extend([v])
    elif how == "l_iadd":
        lst += [v]
    elif how == "l_slice":
        lst[0:0] = [v]
    elif how == "l_add":
        lst = lst + [v]
    elif how == "l_merge":
        lst.merge_with([v])
    elif how == "l_merge_ext":
        lst.merge_with([v], list_merge_mode=ListMergeMode.EXTEND)
    elif how == "l_item":
        lst.append("???")
        lst[0] = v
    elif how == "l_slice1":
        lst.append("???")
        lst[0:1] = [v]
    elif how == "l_omegaupdate":
        lst.append("???")
        OmegaConf.update(lst, "0", v, merge=False)
    return lst._get_node(0)


ASSIGN = ["attr", "item", "update", "dictupdate", "kwupdate", "update_force"]
MERGE = ["merge", "mergecfg", "merge_with", "unsafe", "update_merge"]
ELEM_A = ["dict_ctor", "list_ctor", "d_item", "d_attr", "d_setdefault", "d_update", "d_omegaupdate", "l_append", "l_insert", "l_extend", "l_iadd", "l_slice", "l_item", "l_slice1", "l_omegaupdate"]
ELEM_M = ["d_merge", "d_merge_with", "l_merge", "l_merge_ext"]
NODECLS = {"int": IntegerNode, "float": FloatNode, "bool": BooleanNode, "str": StringNode, "bytes": BytesNode, "Path": PathNode}


def run_entry(f):
    try:
        n = f()
    except RecursionError:
        raise
    except Exception as e:
        return (NO, e)
    if isinstance(n, UnionNode):
        c = n.__dict__["_content"]
        n = c if isinstance(c, Node) else AnyNode(c)
    return ("ok", n)


def results(tname, vsrc):
    """{entry point: result}"""
    t = TYPES[tname]
    out = {}
    base = tname.removeprefix("O_")
    isnode = vsrc in NODES
    V = lambda: eval(vsrc, ENV)
    if not isnode:
        out["C class default"] = run_entry(lambda: fld(OmegaConf.structured(cls_of(tname, vsrc))))
        out["C instance"] = run_entry(lambda: fld(OmegaConf.structured(cls_of(tname, None)(f=V()))))
        out["C create"] = run_entry(lambda: fld(OmegaConf.create(cls_of(tname, None)(f=V()))))
        if "Config" in vsrc:
            pass
        elif base in NODECLS:
            out["C node"] = run_entry(lambda: NODECLS[base](V(), is_optional=tname.startswith("O_")))
        elif base in ("Color", "Size", "IE", "SE"):
            out["C node"] = run_entry(lambda: EnumNode(t if base == tname else PRIM[base], V(), is_optional=tname.startswith("O_")))
    for st in ("missing", "init", "none")[:3 if tname.startswith("O_") else 2]:
        for how in ASSIGN:
            out[f"A {how} ({st})"] = run_entry(lambda: entry_assign(hold(tname, st), how, V()))
        if (base in PRIM and base != "Any" or base in UNIONS) and not isnode and "Config" not in vsrc:
            out[f"A node ({st})"] = run_entry(lambda: entry_assign(hold(tname, st), "node", V()))
        if not isnode and vsrc not in MISSINGS:
            for how in MERGE:
                out[f"M {how} ({st})"] = run_entry(lambda: entry_merge(hold(tname, st), how, V()))
    for how in ELEM_A:
        out[f"A {how}"] = run_entry(lambda: entry_elem(t, how, V()))
    if not isnode and vsrc not in MISSINGS:
        for how in ELEM_M:
            out[f"M {how}"] = run_entry(lambda: entry_elem(t, how, V()))
    if base in PRIM and not isnode and vsrc in NUMS + STRS + OTHER and vsrc not in MISSINGS:
        def interp(expr, src):
            c = OmegaConf.create({"src": V()} if src else {})
            c.n = DictConfig({"f": expr}, element_type=t)
            return AnyNode(c.n.f)
        OmegaConf.register_new_resolver("v_", V, replace=True)
        out["I interpolation"] = run_entry(lambda: interp("${src}", True))
        out["I resolver"] = run_entry(lambda: interp("${v_:}", False))
        out["I list interpolation"] = run_entry(lambda: AnyNode(OmegaConf.create({"src": V(), "l": ListConfig(["${src}"], element_type=t)}).l[0]))
    return out


def stored(r):
    return (NO,) if r[0] == NO else ("ok", typed(r[1]))


def typed(n):
    return enc(plain(n)) if not isinstance(n, str) else enc(n)


def explain(r):
    return f"refused ({show_exc(r[1])})"[:160] if r[0] == NO else f"stores {plain(r[1])!r} ({type(plain(r[1])).__name__})"


# Differences between groups of entry points which the documentation prescribes: a dict assigned to a structured field is refused, merged it is accepted, ...
def simple(tname):
    b = tname.removeprefix("O_")
    return b in PRIM and b != "Any" or b in UNIONS


def one(tv, res):
    tname, vsrc = tv
    out = results(tname, vsrc)
    res.count("evaluations", len(out))
    res.seen(tv)
    v = eval(vsrc, ENV)
    if unspecified(tname, v) or "${" in vsrc and tname not in ("str", "O_str", "Any"):
        return
    exp = expected(TYPES[tname], v)
    groups = {}
    for name, r in out.items():
        g = "all" if simple(tname) else name[0] + ("" if name[0] == "C" else name[name.find("("):] if "(" in name else "element")
        if isinstance(v, Node):
            g += name[0]
        groups.setdefault(g, []).append((name, r))

    def report(msg, name):
        res.violation(f"{tname} <- {vsrc} via {name}", f"a field of type {tname} given {vsrc}: {msg}", dict(type=tname, value=vsrc))

    for name, r in out.items():
        if r[0] == NO and not isinstance(r[1], OmegaConfBaseException):
            report(f"through {name} raises {show_exc(r[1])}, which is no OmegaConf error", name)
            return
    if exp is not UNSPEC:
        res.count("against_table")
        want = (NO,) if exp == NO else ("ok", enc(exp[1]))
        for name, r in out.items():
            if name[0] in "AIC" or simple(tname):
                if name[0] == "C" and isinstance(v, Node):
                    continue
                if name[0] == "I" and not interp_ok(name, v):
                    continue
                if isinstance(v, Node) and r[0] == NO and "(" not in name:
                    continue  # a value node as an element: its type may be required to match
                if stored(r) != want:
                    report(f"through {name} {explain(r)}; documented: " + ("refused" if exp == NO else f"{exp[1]!r}"), name)
                    return
    for g, rs in groups.items():
        first = rs[0]
        for name, r in rs[1:]:
            if name[0] == "I" and not interp_ok(name, v):
                continue
            if isinstance(v, Node) and NO in (r[0], first[1][0]):
                continue  # configs and value nodes: an element position may require the type itself to match
            if stored(r) != stored(first[1]):
                report(f"through {first[0]} {explain(first[1])}, but through {name} {explain(r)}", name)
                return


def unspecified(tname, v):
    """Values which are no supported values for the kind of type at all, or whose treatment no document describes"""
    t = strip_opt(TYPES[tname])
    if isinstance(v, str) and "${" in v and not (t is str or t is Any):
        return True  # an escaped interpolation: not evaluated when stored
    if t is str and not isinstance(v, (int, float, str, bytes, Path, enum.Enum, list, tuple, dict, type(None), Node)):
        return True
    if not simple(tname) and t is not Any and isinstance(v, (DictConfig, ListConfig)) and v.__dict__["_content"] in (None, "???"):
        return True
    origin = typing.get_origin(t) or t
    if origin is dict and (typing.get_args(t) in ((), (typing.Any, typing.Any)) or typing.get_args(t)[1] is Any or isinstance(typing.get_args(t)[0], typing.TypeVar)) and (hasattr(v, "__dataclass_fields__") or hasattr(v, "__attrs_attrs__")):
        return True  # a structured config in a Dict[Any, Any] field
    return False


def interp_ok(name, v):
    return not (isinstance(v, str) and "${" in v)  # reading resolves the escape


def check(tier):
    types = list(TYPES)
    items = [(t, v) for t in types for v in VALUES]
    if tier != "quick":  # every scalar also as an element
        scal = NUMS + STRS + OTHER
        items += [(t, f"[{v}]") for t in types if t in CONT or t[2:] in CONT for v in scal] + [(t, f"{{'k': {v}}}") for t in types if t in CONT or t[2:] in CONT for v in scal]
        items += [(t, f"{{{v}: 1}}") for t in types if "ict" in t for v in scal] + [(t, f"[[1, {v}]]") for t in types if "List[List" in t for v in scal]
    res = parallel(one, items)
    for t, v in (("int", "'1_000'"), ("Dict[Color,int]", "{'RED': 1}"), ("O_U_float_bool", "1")):
        res.sample(f"{t} <- {v}: " + "; ".join(f"{n}: {explain(r)}" for n, r in list(results(t, v).items())[:6]))
    return res


def COVERAGE(tier, res):
    return dict(rule=f"{len(TYPES)} declared types x {len(VALUES)} values x every entry point that takes that kind of value; distinct = (type, value) pairs")


def replay(case, res):
    one((case["type"], case["value"]), res)
