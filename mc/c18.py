"""C18: paths address exactly the node they name.  All key sequences x notations x values x config states, against a reference on plain data."""
import copy
import itertools
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from .core import DictConfig, ListConfig, Node, OmegaConf, Result, children, clone, enc, parallel, plain, sdiff, show_exc, snap
from .fix import Color, Pt
from .ops import chunks
from omegaconf import MISSING, AnyNode
from omegaconf.errors import ConfigTypeError

LEVEL = "exploration"
ASSUMPTIONS = ["keys with '[' or ']' cannot be written in a path, keys with '.' only in brackets; string path elements name string keys (and enum keys by name)"]
M = "???"

BASE = {
    "a": 1, "d": {"x": 1, "e": {"y": 2, "z": None}, "r": "${a}"}, "l": [1, {"k": 2}, [3, 4], None], "n": None, "m": M, "0": "zero", "1": {"2": "x"},
    "d2": {"x": M}, "rd": "${d}", "rs": "s${a}", "rl": "${l}", "b c": {"$": 5, "-": 6}, "é": True, "p.q": {"x.y": [5], "x": {"y": 4}}, "p": {"q": 3},
    5: "int", True: "bool",
}
KEYS = ["a", "d", "x", "e", "y", "l", "k", "n", "m", "q", "0", "1", "2", "-1", "9", "rd", "rl", "r", "d2", "b c", "$", "é", "5", "x-1", "z", "True", "p.q", "x.y", "p"]
VALUES = ["5", "'t'", "None", "{'w': 1}", "{'x': 8, 'e': {'y': 9, 'n': 1}}", "[7]", "{}", "[]", "'${a}'", "'???'", "DictConfig({'w': 1})", "ListConfig([7, 8])", "{'k': {'j': 1}}"]


@dataclass
class Sub:
    x: int = 1
    dd: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    pt: Pt = field(default_factory=Pt)


@dataclass
class T:
    a: int = 1
    s: str = "s"
    d: Sub = field(default_factory=Sub)
    op: Optional[Sub] = None
    ms: Sub = MISSING
    dd: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    ds: Dict[str, Sub] = field(default_factory=lambda: {"k": Sub()})
    de: Dict[Color, int] = field(default_factory=lambda: {Color.RED: 1})
    l: List[int] = field(default_factory=lambda: [1, 2])
    ls: List[Sub] = field(default_factory=lambda: [Sub()])
    u: Union[int, str] = 1
    any: Any = None
    ref: Any = "${d}"


TKEYS = ["a", "s", "d", "x", "dd", "k", "q", "pt", "y", "op", "ms", "ds", "de", "RED", "GREEN", "l", "ls", "0", "1", "9", "u", "any", "ref"]
TVALUES = ["5", "'7'", "'t'", "None", "{'x': 3}", "{'k': 4, 'j': 5}", "{'x': 't'}", "{'dd': {'j': 2}, 'pt': {'y': 2}}", "[7]", "['t']", "'???'", "Sub(x=6)", "DictConfig({'x': 4})", "Pt(4)"]


def texts(keys, all_notations=True):
    """every way to write the key sequence"""
    if any("." in k for k in keys):
        # a key with a dot can only be written in brackets
        fixed = "".join(f"[{k}]" if "." in k or i == 0 else "." + k for i, k in enumerate(keys))
        return list(dict.fromkeys([fixed, "".join(f"[{k}]" for k in keys)] + ([keys[0] + fixed[len(keys[0]) + 2:]] if "." not in keys[0] else [])))
    if not all_notations:
        return [".".join(keys), keys[0] + "".join(f"[{k}]" for k in keys[1:])]
    out = []
    for br in itertools.product((0, 1), repeat=len(keys)):
        s = ""
        for i, (k, b) in enumerate(zip(keys, br)):
            s += f"[{k}]" if b else (k if i == 0 else "." + k)
        out.append(s)
    return out


# ---------------------------------------------------------------- reference on plain data
class NotFound(Exception):
    pass


class Err(Exception):
    pass


def refs(v, root):
    """follow a whole-value reference ${a}; (location path, value)"""
    return v


def lookup(root, keys):
    """-> (canonical location, value with interpolations resolved) ; NotFound (also for missing) ; Err for a non-index into a list"""
    loc, v = (), root
    for k in keys:
        if isinstance(v, dict):
            if k not in v:
                raise NotFound
            v, loc = v[k], loc + (k,)
        elif isinstance(v, list):
            try:
                i = int(k)
            except ValueError:
                raise Err("not an index")
            if not 0 <= i < len(v):
                raise NotFound
            v, loc = v[i], loc + (i,)
        else:
            raise NotFound
        loc, v = deref(root, loc, v)
    if isinstance(v, str) and v == M:
        raise NotFound
    return loc, v


def deref(root, loc, v):
    if isinstance(v, str) and "${" in v:
        if v.startswith("${") and v.endswith("}"):
            return lookup(root, v[2:-1].split("."))
        return loc, v.replace("${a}", str(root["a"]))
    return loc, v


def merge_plain(d, s):
    """merge plain s over plain d; both containers of the same kind (else Err)"""
    if isinstance(d, dict) != isinstance(s, dict):
        raise Err("kinds")
    if isinstance(s, list):
        return copy.deepcopy(s)
    for k, v in s.items():
        if isinstance(d.get(k), dict) and isinstance(v, dict):
            merge_plain(d[k], v)
        elif isinstance(d.get(k), list) != isinstance(v, list) and isinstance(d.get(k), (dict, list)) and isinstance(v, (dict, list)):
            raise Err("kinds")
        else:
            d[k] = copy.deepcopy(v)
    return d


def update_plain(root, keys, v, merge):
    """update in place; Err when it must be refused"""
    cur = root
    for i, k in enumerate(keys):
        last = i == len(keys) - 1
        if isinstance(cur, list):
            try:
                k = int(k)
            except ValueError:
                raise Err("not an index")
            if not -len(cur) <= k < len(cur):
                raise Err("index")
        if last:
            old = cur[k] if isinstance(cur, list) else cur.get(k)
            if merge and isinstance(v, (dict, list)) and isinstance(old, (dict, list)):
                cur[k] = merge_plain(old, v)
            else:
                cur[k] = copy.deepcopy(v)
            return
        nxt = cur[k] if isinstance(cur, list) else cur.get(k)
        if isinstance(nxt, str) and "${" in nxt:
            raise Skip
        if not isinstance(nxt, (dict, list)):
            cur[k] = nxt = {}
        cur = nxt


class Skip(Exception):
    pass


# ---------------------------------------------------------------- helpers on the real code
def at(c, loc):
    for k in loc:
        if isinstance(c, DictConfig) and k not in c.__dict__["_content"] and k in Color.__members__:
            k = Color[k]
        c = c._get_node(k, validate_access=False)
        if type(c).__name__ == "UnionNode":
            c = c._value()
    return c


def outside(c, loc):
    """snapshots of everything not under loc"""
    out = {}

    def go(n, p):
        if p == loc[:len(p)] and p != loc:
            m = n._metadata if isinstance(n, Node) else None
            out[p] = (type(n).__name__, str(m.ref_type), m.optional, str(m.object_type), str(m.flags), [k for k, _ in children(n) if p + (k,) != loc[:len(p) + 1]])
            for k, x in children(n):
                go(x, p + (k,))
        elif p != loc:
            out[p] = snap(n)
    go(c, ())
    return out


DFLT = object()


def check_select(mk, tree, seqs, res, tag, full):
    c = mk()
    s0 = snap(c)
    for keys in seqs:
        try:
            exp = ("ok",) + lookup(tree, keys)
        except NotFound:
            exp = ("none",)
        except Err:
            exp = ("err",)
        for text in texts(keys, full or len(keys) < 3):
            for sub, t in [(c, text), (c, "." + text)]:
                res.count("evaluations")
                case = dict(kind="select", tag=tag, keys=list(keys))

                def bad(what):
                    res.violation(f"select {tag} {text}", f"select(cfg, {t!r}) {what}\ncfg = {c}", case)
                try:
                    got = OmegaConf.select(sub, t, default=DFLT)
                    got2 = OmegaConf.select(sub, t)
                except ConfigTypeError as e:
                    if exp[0] != "err":
                        bad(f"raises {show_exc(e)}, expected {exp}")
                    continue
                except Exception as e:
                    bad(f"raises {show_exc(e)}, expected {exp}")
                    continue
                if exp[0] == "err":
                    bad(f"gives {got!r}, expected an error")
                elif exp[0] == "none":
                    if got is not DFLT or got2 is not None:
                        bad(f"gives {got!r} / {got2!r}, expected the default")
                else:
                    loc, v = exp[1:]
                    if isinstance(v, (dict, list)):
                        if got is not at(c, loc) or got2 is not got:
                            bad(f"gives {got!r}, not the node at {loc}")
                    elif enc(got) != enc(v) or enc(got2) != enc(v):
                        bad(f"gives {got!r} / {got2!r}, expected {v!r}")
    if snap(c) != s0:
        res.violation(f"select {tag} changed", "select changed the config", dict(kind="select", tag=tag, keys=list(seqs[0])))


def check_relative(tree, seqs, res):
    """from every container node: relative, parent and absolute paths"""
    c = OmegaConf.create(tree)
    conts = []

    def go(n, p):
        if isinstance(n, (DictConfig, ListConfig)):
            conts.append((p, n))
            for k, x in children(n):
                go(x, p + (k,))
    go(c, ())
    for loc, n in conts:
        for keys in seqs:
            for ups in range(len(loc) + 2):
                base = loc[:len(loc) - ups] if ups <= len(loc) else None
                text = "." * ups + "." * (ups > 0) + ".".join(keys)
                res.count("evaluations")
                case = dict(kind="relative", loc=list(loc), keys=list(keys))
                try:
                    got = OmegaConf.select(n, text, default=DFLT)
                except Exception as e:
                    got = ("exc", e)
                if base is None:
                    if got is DFLT or isinstance(got, tuple) and got[0] == "exc":
                        continue
                    res.violation(f"relative {loc} {text}", f"select from {loc} of {text!r} gives {got!r} above the root", case)
                    continue
                try:
                    v = tree
                    for k in base:
                        v = v[k]
                    # interpolations stay rooted at the root
                    exp = lookup_from(tree, base, keys)
                except NotFound:
                    exp = DFLT
                except Err:
                    exp = "err"
                if exp == "err":
                    ok = isinstance(got, tuple) and got[0] == "exc" and isinstance(got[1], ConfigTypeError)
                elif exp is DFLT:
                    ok = got is DFLT
                else:
                    l2, v = exp
                    ok = got is at(c, l2) if isinstance(v, (dict, list)) else enc(got) == enc(v)
                if not ok:
                    res.violation(f"relative {loc} {text}", f"select from the node at {loc} of {text!r} gives {got!r}, expected {exp!r}", case)


def lookup_from(tree, base, keys):
    v = tree
    for k in base:
        v = v[k]
    loc = tuple(base)
    for k in keys:
        if isinstance(v, dict):
            if k not in v:
                raise NotFound
            v, loc = v[k], loc + (k,)
        elif isinstance(v, list):
            try:
                i = int(k)
            except ValueError:
                raise Err
            if not 0 <= i < len(v):
                raise NotFound
            v, loc = v[i], loc + (i,)
        else:
            raise NotFound
        loc, v = deref(tree, loc, v)
    if isinstance(v, str) and v == M:
        raise NotFound
    return loc, v


def realloc(tree, keys):
    """the location the update path names, as far as it exists (list indices as ints)"""
    loc, v = (), tree
    for k in keys:
        if isinstance(v, list):
            try:
                k = int(k)
            except ValueError:
                return loc + (k,)
            if k < 0:
                k += len(v)
            v = v[k] if 0 <= k < len(v) else None
        elif isinstance(v, dict):
            v = v.get(k)
        loc += (k,)
    return loc


def check_update(c0, tree, seqs, values, merges, res, tag, root_struct=False):
    for keys in seqs:
        loc = realloc(tree, keys)
        for vsrc in values:
            for merge in merges:
                for force in (False, True) if root_struct else (False,):
                    v = eval(vsrc, NS)
                    pv = plain(v)
                    exp = copy.deepcopy(tree)
                    err = False
                    try:
                        if isinstance(pv, dict) and "w" in pv and keys == ("rd",):
                            raise Skip
                        if tag == "special" and merge and (keys in (("m",), ("n",), ("d", "n")) and isinstance(pv, list) or keys in (("lm",), ("ln",)) and isinstance(pv, dict)):
                            raise Skip  # a missing or None container keeps its kind
                        if root_struct and not force:
                            # only existing keys may be named, and merged dicts may not add keys
                            x = tree
                            for k in keys:
                                if isinstance(x, dict):
                                    if k not in x:
                                        raise Err("struct")
                                    x = x[k]
                                elif isinstance(x, list):
                                    x = x[int(k)] if k.lstrip("-").isdigit() and -len(x) <= int(k) < len(x) else None
                                else:
                                    raise Err("struct: created {} is empty")
                            if merge and isinstance(x, dict) and isinstance(pv, dict) and adds(x, pv):
                                raise Err("struct")
                        update_plain(exp, keys, pv, merge)
                    except Err:
                        err = True
                    except Skip:
                        continue
                    for text in texts(keys, False) if len(keys) > 1 else texts(keys):
                        c = clone(c0)
                        o0 = outside(c, loc)
                        res.count("evaluations")
                        case = dict(kind="update", tag=tag, keys=list(keys), v=vsrc, merge=merge, force=force)

                        def bad(what):
                            res.violation(f"update {tag} {text} {vsrc} {merge} {force}", f"update(cfg, {text!r}, {vsrc}, merge={merge}, force_add={force}) {what}\nfrom {tree}", case)
                        try:
                            OmegaConf.update(c, text, v, merge=merge, force_add=force)
                        except Exception as e:
                            if not err:
                                bad(f"raises {show_exc(e)}")
                        else:
                            if err:
                                bad(f"succeeds: {plain(c)}")
                            elif enc(plain(c)) != enc(exp):
                                bad(f"gives {plain(c)}, expected {exp}")
                        o1 = outside(c, loc)
                        # keys created on the way
                        if o1 != o0:
                            for p in o0:
                                if o1.get(p) != o0[p] and not (p == loc[:len(p)] and created(tree, p)):
                                    bad(f"changes {p}: {sdiff(o0[p], o1.get(p))}")
                                    break


def created(tree, p):
    v = tree
    for k in p:
        try:
            v = v[k]
        except (KeyError, IndexError, TypeError):
            return True
    return not isinstance(v, (dict, list))


def adds(x, s):
    """does merging plain dict s into plain x add keys?"""
    return any(k not in x or (isinstance(v, dict) and (adds(x[k], v) if isinstance(x[k], dict) else False)) for k, v in s.items())


# ---------------------------------------------------------------- typed: the by-hand specification
def by_hand(c, keys, v, merge, text):
    """the documented meaning of update in terms of item access, assignment and merge of the addressed node"""
    cur = c
    for i, k in enumerate(keys):
        k2 = int(k) if isinstance(cur, ListConfig) else k
        if i == len(keys) - 1:
            n = cur._get_node(k2) if not (isinstance(cur, ListConfig) and not -len(cur) <= k2 < len(cur)) else None
            if merge and isinstance(v, (dict, list, tuple, DictConfig, ListConfig)) or merge and hasattr(v, "__dataclass_fields__") and False:
                if isinstance(n, (DictConfig, ListConfig)):
                    n.merge_with(v)
                    return
            cur[k2] = v
            return
        nxt = cur._get_node(k2)
        if nxt is not None and nxt._is_interpolation() and isinstance(nxt, (DictConfig, ListConfig)):
            cur = cur[k2]
        elif isinstance(nxt, DictConfig) and (nxt._is_none() or nxt._is_missing()):
            nxt.merge_with({})
            cur = nxt
        elif isinstance(nxt, (DictConfig, ListConfig)) and not (nxt._is_none() or nxt._is_missing()):
            cur = nxt
        else:
            cur[k2] = {}
            cur = cur[k2]


def check_typed(c0, seqs, values, res, tag):
    for keys in seqs:
        for vsrc in values:
            for merge in (True, False):
                a = clone(c0)
                try:
                    by_hand(a, keys, eval(vsrc, NS), merge, None)
                    exp = None
                except RecursionError:
                    raise
                except Exception as e:
                    exp = e
                for text in texts(keys, False) if len(keys) > 1 else texts(keys):
                    b = clone(c0)
                    res.count("evaluations")
                    got = None
                    try:
                        OmegaConf.update(b, text, eval(vsrc, NS), merge=merge)
                    except Exception as e:
                        got = e
                    case = dict(kind="typed", tag=tag, keys=list(keys), v=vsrc)
                    if (got is None) != (exp is None):
                        res.violation(f"typed {tag} {text} {vsrc} {merge}", f"update(cfg, {text!r}, {vsrc}, merge={merge}) {'succeeds' if got is None else 'raises ' + show_exc(got)}; the same by hand {'succeeds' if exp is None else 'raises ' + show_exc(exp)}", case)
                    elif snap(a) != snap(b):
                        res.violation(f"typed {tag} {text} {vsrc} {merge}", f"update(cfg, {text!r}, {vsrc}, merge={merge}) gives {b}, by hand {a}: {sdiff(snap(a), snap(b))}", case)


def check_masked(c0, res, tag):
    keys = list(c0._content)
    tree = plain(c0)
    s0 = snap(c0)
    for n in range(len(keys) + 1):
        for ks in itertools.combinations(keys, n):
            for order in (ks, ks[::-1], ks + ("nokey",)) if n else (ks, ("nokey",)):
                res.count("evaluations")
                case = dict(kind="masked", tag=tag, keys=[repr(k) for k in order])
                try:
                    m = OmegaConf.masked_copy(c0, list(order))
                except Exception as e:
                    res.violation(f"masked {tag} {order}", f"masked_copy(cfg, {list(order)}) raises {show_exc(e)}", case)
                    continue
                exp = {k: tree[k] for k in keys if k in ks}
                if enc(plain(m)) != enc(exp):
                    res.violation(f"masked {tag} {order}", f"masked_copy(cfg, {list(order)}) gives {plain(m)}, expected {exp}", case)
                for k in ks:
                    if snap(m._get_node(k)) != snap(c0._get_node(k)):
                        res.violation(f"masked {tag} {order}", f"masked_copy(cfg, {list(order)}): node {k} differs: {sdiff(snap(c0._get_node(k)), snap(m._get_node(k)))}", case)
                    if m._get_node(k) is c0._get_node(k):
                        res.violation(f"masked {tag} {order}", f"masked_copy shares the node {k}", case)
                if snap(c0) != s0:
                    res.violation(f"masked {tag} {order}", "masked_copy changed the config", case)
                    return
    for k in keys:
        if isinstance(k, str):
            m = OmegaConf.masked_copy(c0, k)
            if enc(plain(m)) != enc({k: tree[k]}):
                res.violation(f"masked {tag} {k}", f"masked_copy(cfg, {k!r}) gives {plain(m)}", dict(kind="masked", tag=tag, keys=[k]))


NS = dict(globals())
LROOT = [1, {"x": 1, "l": [5, {"k": 6}]}, [2, [3]], None, M]
LKEYS = ["0", "1", "2", "3", "4", "5", "-1", "x", "l", "k", "q", "00"]


def trees():
    return {
        "untyped": BASE,
        "small": {"a": 1, "d": {"x": 1, "e": {"y": 2}}, "l": [1, {"k": 2}, [3, 4], None], "n": None, "m": M, "0": "zero"},
        "list": LROOT,
    }


def make(tag):
    t = trees()
    if tag in t:
        return OmegaConf.create(t[tag]), t[tag]
    if tag == "special":
        tree = {"a": 1, "n": None, "m": M, "ln": None, "lm": M, "d": {"n": None}}
        return OmegaConf.create({"a": 1, "n": DictConfig(None), "m": DictConfig(M), "ln": ListConfig(None), "lm": ListConfig(M), "d": {"n": DictConfig(None)}}), tree
    if tag == "struct":
        c = OmegaConf.create(t["small"])
        OmegaConf.set_struct(c, True)
        return c, t["small"]
    if tag == "typed":
        return OmegaConf.structured(T), None
    if tag == "typed-sub":
        return OmegaConf.create({"a": 1, "d": T, "ref": "${d.d}"}), None
    raise KeyError(tag)


SMALLKEYS = ["a", "d", "x", "e", "y", "l", "k", "n", "m", "q", "0", "1", "-1", "9"]
SPKEYS = ["a", "n", "m", "ln", "lm", "d", "q", "0"]


def seqs_of(keys, n):
    return [s for k in range(1, n + 1) for s in itertools.product(keys, repeat=k)]


def one(w, res):
    kind, tag, seqs, extra = w
    if kind == "masked":
        check_masked(make(tag)[0], res, tag)
    elif kind == "select":
        check_select(lambda: make(tag)[0], make(tag)[1], seqs, res, tag, extra)
    elif kind == "relative":
        check_relative(make(tag)[1], seqs, res)
    elif kind == "update":
        c, tree = make(tag)
        check_update(c, tree, seqs, extra, (True, False), res, tag, tag == "struct")
    elif kind == "typed":
        check_typed(make(tag)[0], seqs, extra, res, tag)
    res.seen((kind, tag, seqs, extra))
    if seqs:
        res.sample(f"{kind} {tag}: {len(seqs)} paths, e.g. {texts(seqs[-1])[-1]}")


def check(tier):
    th = tier == "thorough"
    work = []
    for tag, keys, n in (("untyped", KEYS, 3), ("list", LKEYS, 3 + th), ("special", SPKEYS, 3)):
        for ch in chunks(seqs_of(keys, n), 200):
            work.append(("select", tag, ch, th or tag != "untyped"))
    for ch in chunks(seqs_of(SMALLKEYS + ["rd", "r", "b c"], 2), 60):
        work.append(("relative", "untyped", ch, None))
    for ch in chunks(seqs_of(LKEYS, 2), 60):
        work.append(("relative", "list", ch, None))
    for tag, keys, n, vals in (("small", SMALLKEYS, 3, VALUES), ("list", LKEYS, 3, VALUES), ("struct", SMALLKEYS, 3, VALUES), ("special", SPKEYS, 3, VALUES), ("untyped", KEYS, 2, VALUES if th else VALUES[::4])):
        for ch in chunks(seqs_of(keys, 2), 20):
            work.append(("update", tag, ch, vals))
        if n == 3:
            for ch in chunks([s for s in itertools.product(keys, repeat=3)], 60):
                work.append(("update", tag, ch, vals if th else ["5", "{'w': 1}"]))
    for tag in ("typed", "typed-sub"):
        for ch in chunks(seqs_of(TKEYS, 2), 20):
            work.append(("typed", tag, ch, TVALUES))
        for ch in chunks([s for s in itertools.product(TKEYS if th else ["d", "ds", "ls", "op", "ms", "any", "ref"], TKEYS, TKEYS)], 100):
            if th or (tag == "typed"):
                work.append(("typed", tag, ch, TVALUES if th else ["'t'", "{'x': 3}"]))
    for tag in ("small", "struct", "special", "typed" if th else "small"):
        work.append(("masked", tag, [], None))
    return parallel(one, work)


def replay(case, res):
    k = tuple(case["keys"])
    if case["kind"] == "masked":
        one(("masked", case["tag"], [], None), res)
    elif case["kind"] == "relative":
        for t in (BASE, LROOT):
            check_relative(t, [k], res)
    else:
        one((case["kind"], case["tag"], [k], [case["v"]] if "v" in case else True), res)
