"""C26: the built-in resolvers do what they document.  A reference evaluator (on plain trees, with the reference grammar of mc/gram.py) for every expression over the built-in resolvers up to a bound, at every position of a config, in every
environment state; and histories of changes under which containers obtained from the resolvers must stay live."""
import itertools
import os
import string
import warnings
from dataclasses import dataclass, field
from typing import Any, Dict, List

from . import gram
from .core import DictConfig, ListConfig, OmegaConf, clone, enc, parallel, show_exc, snap
from .fix import Color
from .ops import chunks
from omegaconf.base import Node
from omegaconf.errors import InterpolationResolutionError, InterpolationToMissingValueError

LEVEL = "model_checking"
ASSUMPTIONS = ["keys of dictionaries given to oc.dict.values can be written in an interpolation (letters, digits, '-', '_', '$', non-ASCII letters), as its elements are interpolations to them"]
MISS = "???"


class Sp:
    """a missing or None container"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Fail(Exception):
    """kind: missing | key | type | any"""


class Unspec(Exception):
    pass


class RN:
    """node of the reference tree"""

    def __init__(self, v, parent=None, key=None, path=(), made=False):
        self.parent, self.key, self.path, self.made = parent, key, path, made
        if isinstance(v, dict):
            self.v = {k: RN(x, self, k, path + (k,), made) for k, x in v.items()}
        elif isinstance(v, list):
            self.v = [RN(x, self, i, path + (i,), made) for i, x in enumerate(v)]
        else:
            self.v = v

    def root(self):
        return self if self.parent is None else self.parent.root()

    def box(self):
        return isinstance(self.v, (dict, list, Sp))


def split(key):
    """-> leading dots, parts"""
    n = len(key) - len(key.lstrip("."))
    rest = key[n:]
    parts = []
    for tok in rest.split("."):
        if "[" in tok:
            head, *ix = tok.split("[")
            if head:
                parts.append(head)
            parts += [i[:-1] for i in ix]
        elif tok != "" or len(rest) > 0:
            parts.append(tok)
    return n, parts


class Ref:
    """evaluation of expressions at a node"""

    def __init__(self, env, calls=None):
        self.env = env
        self.warned = []

    def deref(self, n):
        """the value a node gives when it is read: RN of a container, or a scalar"""
        v = n.v
        if isinstance(v, Sp):
            if v.v == MISS:
                raise Fail("missing")
            return None
        if isinstance(v, (dict, list)):
            return n
        if isinstance(v, str):
            if v == MISS:
                raise Fail("missing")
            if "${" in v:
                return self.text(v, n)
        return v

    def text(self, s, n):
        """value of a string with interpolations at node n"""
        return self.ev(n).value(gram.parse_value(s))

    def ev(self, n):
        def tostr(v):
            if isinstance(v, (RN, dict, list)):
                raise Unspec
            return v

        class E(gram.Eval):
            def concat(s, its):
                for it in its:
                    if it[0] in ("node", "resolver"):
                        tostr(s.inter(it))
                return super().concat(its)
        return E(lambda key: self.node(key, n), lambda name, args, texts: self.resolver(name, args, n))

    def walk(self, key, n):
        """-> RN or None (nothing there); Fail when a step cannot be made"""
        dots, parts = split(key)
        at = n.root() if dots == 0 else n.parent
        for _ in range(dots - 1):
            if at.parent is None:
                raise Fail("key")
            at = at.parent
        for p in parts:
            v = at.v
            if isinstance(v, str) and "${" in v:
                r = self.deref(at)
                if not isinstance(r, RN):
                    return None
                at, v = r, r.v
            if isinstance(v, dict):
                hit = [k for k in v if k == p]
                if not hit:
                    return None
                at = v[hit[0]]
            elif isinstance(v, list):
                try:
                    i = int(p)
                except ValueError:
                    raise Fail("type")
                if i < 0:
                    raise Unspec
                if i >= len(v):
                    return None
                at = v[i]
            else:
                return None
        return at

    def node(self, key, n):
        t = self.walk(key, n)
        if t is None:
            raise Fail("key")
        return self.notparent(self.deref(t), n)

    def notparent(self, v, n):
        if isinstance(v, RN):
            p = n
            while p is not None:
                if p is v:
                    raise Fail("any")
                p = p.parent
        return v

    def select(self, key, n):
        """-> (found, value)"""
        if not isinstance(key, str):
            raise Fail("any")
        t = self.walk(key, n)
        if t is None:
            return False, None
        if isinstance(t.v, str) and t.v == MISS or isinstance(t.v, Sp) and t.v.v == MISS:
            return False, None
        return True, self.deref(t)

    def resolver(self, name, args, n):
        if not args:
            raise Fail("any")
        args = tuple(None if isinstance(a, RN) and isinstance(a.v, Sp) else a for a in args)
        if name == "id":
            if len(args) > 1:
                raise Fail("any")
            return args[0]
        if name == "mk":
            return MK[args[0]]
        if name == "oc.env":
            key, dflt = args[0], args[1:]
            if not isinstance(key, str) or len(dflt) > 1:
                raise Fail("any")
            if key in self.env:
                return self.env[key]
            if not dflt:
                raise Fail("any")
            if isinstance(dflt[0], RN):
                raise Unspec
            return None if dflt[0] is None else str(dflt[0])
        if name == "oc.select":
            key, dflt = args[0], args[1:]
            if len(dflt) > 1:
                raise Fail("any")
            if key is None:
                raise Unspec
            ok, v = self.select(key, n)
            return v if ok else dflt[0] if dflt else None
        if name == "oc.decode":
            if len(args) != 1:
                raise Fail("any")
            if args[0] is None:
                return None
            if not isinstance(args[0], str):
                raise Fail("any")
            try:
                t = gram.parse_element(args[0])
            except gram.Reject:
                raise Fail("any")
            return self.ev(n).value(t)
        if name == "oc.create":
            if len(args) != 1:
                raise Fail("any")
            return self.create(args[0], n)
        if name in ("oc.dict.keys", "oc.dict.values"):
            if len(args) != 1 or not isinstance(args[0], str):
                raise Fail("any")
            key = args[0]
            if key == "":
                raise Unspec
            t = self.walk(key, n)
            if t is None:
                raise Fail("any")
            try:
                d = self.deref(t)
            except Fail as e:
                raise Fail("any")
            if not isinstance(d, RN) or not isinstance(d.v, dict):
                raise Fail("any")
            if name == "oc.dict.keys":
                return RN(list(d.v), n.parent, n.key, made=True)
            if any(isinstance(k, Color) for k in d.v):
                raise Unspec
            if isinstance(t.v, str):
                raise Unspec if t.v.count("${") != 1 or ":" in t.v else Redirect(t)
            r = RN([], n.parent, n.key, made=True)
            r.v = list(d.v.values())
            return r
        if name == "oc.deprecated":
            key = args[0]
            msg = args[1] if len(args) > 1 else "'$OLD_KEY' is deprecated. Change your code and config to use '$NEW_KEY'"
            if not isinstance(key, str) or not isinstance(msg, str) or len(args) > 2:
                raise Fail("any")
            t = self.walk(key, n)
            if t is None:
                raise Fail("any")
            if isinstance(t.v, str) and t.v == MISS or isinstance(t.v, Sp) and t.v.v == MISS:
                raise Fail("any")
            v = self.deref(t)
            self.warned.append(None if isinstance(t.v, str) and "${" in t.v else string.Template(msg).safe_substitute(OLD_KEY=full(n), NEW_KEY=full(t)))
            return v
        raise Fail("any")

    def create(self, v, n):
        if isinstance(v, RN):
            if isinstance(v.v, list) and any(x.parent is not v for x in v.v):
                raise Unspec
            return RN(bare(v), n.parent, n.key, made=True)
        if v is None:
            return RN(Sp("dict", None), n.parent, n.key, made=True)
        if isinstance(v, (dict, list)):
            return RN(v, n.parent, n.key, made=True)
        if isinstance(v, str):
            import yaml
            try:
                d = yaml.safe_load(v)
            except yaml.YAMLError:
                raise Unspec
            if isinstance(d, (dict, list)):
                return RN(d, n.parent, n.key, made=True)
            if d is None:
                return RN({}, n.parent, n.key, made=True)
            if isinstance(d, str):
                return RN({d: None}, n.parent, n.key, made=True)
            raise Unspec
        raise Fail("any")


class Redirect(Exception):
    """oc.dict.values through an interpolated key: the elements are those of the dictionary it leads to"""

    def __init__(self, t):
        self.t = t


def bare(n):
    if isinstance(n.v, dict):
        return {k: bare(x) for k, x in n.v.items()}
    if isinstance(n.v, list):
        return [bare(x) for x in n.v]
    return n.v


def full(n):
    s = ""
    while n.parent is not None:
        if isinstance(n.parent.v, list):
            s = f"[{n.key}]" + ("" if not s or s.startswith("[") else ".") + s
        else:
            k = n.key.name if isinstance(n.key, Color) else str(n.key)
            s = k + ("" if not s or s.startswith("[") else ".") + s
        n = n.parent
    return s


# ---------------------------------------------------------------- comparison
def build(v):
    if isinstance(v, Sp):
        return DictConfig(v.v) if v.kind == "dict" else ListConfig(v.v)
    if isinstance(v, dict):
        return {k: build(x) for k, x in v.items()}
    if isinstance(v, list):
        return [build(x) for x in v]
    return v


def nav(c, path):
    for k in path:
        c = c._get_node(k)
    return c


def expect(f):
    try:
        return ("ok", f())
    except Fail as e:
        return ("fail", str(e))
    except (gram.BadType, gram.Reject, TypeError):
        return ("fail", "any")
    except RecursionError:
        return ("unspec",)
    except (Unspec, Redirect):
        return ("unspec",)


def same(exp, get, cfg, ref, depth=0):
    """compare the expected outcome with what get() gives; '' if fine, None if unspecified"""
    if exp[0] == "unspec":
        return None
    try:
        got = get()
    except InterpolationResolutionError as e:
        if exp[0] != "fail":
            return f"raises {show_exc(e)}, expected {show(exp[1])}"
        if exp[1] == "missing" and not isinstance(e, InterpolationToMissingValueError):
            return f"raises {show_exc(e)}, expected InterpolationToMissingValueError"
        return ""
    except Exception as e:
        if exp == ("fail", "missing-here"):
            return ""
        return f"raises {show_exc(e)}, expected {show(exp[1])}"
    if exp[0] == "fail":
        return f"gives {got!r}, expected an error ({exp[1]})"
    v = exp[1]
    if isinstance(v, RN):
        if not v.made:
            want = nav(cfg, v.path)
            if isinstance(v.v, Sp):
                return "" if got is None else f"gives {got!r}, expected None"
            return "" if got is want else f"gives {got!r}, expected the node at {v.path} itself"
        if isinstance(v.v, Sp):
            return "" if got is None else f"gives {got!r}, expected None"
        if not isinstance(got, DictConfig if isinstance(v.v, dict) else ListConfig):
            return f"gives {type(got).__name__} {got!r}, expected a new config {bare(v)}"
        return contents(v, got, cfg, ref, depth)
    if isinstance(v, (dict, list)):
        if not isinstance(got, (type(v), DictConfig if isinstance(v, dict) else ListConfig)):
            return f"gives {got!r}, expected {v!r}"
        if weird(v):
            return None
        try:
            g = OmegaConf.to_container(got, resolve=True) if isinstance(got, Node) else got
        except Exception as e:
            return f"cannot be converted: {show_exc(e)}"
        return "" if enc(g) == enc(v) else f"gives {g!r}, expected {v!r}"
    if isinstance(v, str) and ("${" in v or v == MISS):
        return None if not isinstance(got, str) else "" if got == v else f"gives {got!r}, expected {v!r}"
    return "" if enc(got) == enc(v) else f"gives {got!r}, expected {v!r}"


def weird(v):
    """plain values which become live configs with special strings, or values which are not primitive"""
    if isinstance(v, dict):
        return any(not isinstance(k, (str, int, float)) or weird(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(map(weird, v))
    return isinstance(v, RN) or isinstance(v, str) and ("${" in v or v == MISS)


def show(v):
    return f"a config {bare(v)}" if isinstance(v, RN) else repr(v)


def contents(v, got, cfg, ref, depth):
    """a new container: same keys in the same order, every element as the reference reads it"""
    if depth > 2:
        return ""
    if isinstance(v.v, dict):
        if enc(list(got.keys())) != enc(list(v.v)):
            return f"has keys {list(got.keys())}, expected {list(v.v)}"
        items = list(v.v.items())
    else:
        if len(got) != len(v.v):
            return f"has {len(got)} elements, expected {len(v.v)}"
        items = list(enumerate(v.v))
    for k, x in items:
        e = expect(lambda: ref.notparent(ref.deref(x), v))
        if e[0] == "fail" and (x.v == MISS or isinstance(x.v, Sp)):
            e = ("fail", "missing-here")
        bad = same(e, lambda: got[k], cfg, ref, depth + 1)
        if bad:
            return f"element {k!r} {bad}"
    return ""


# ---------------------------------------------------------------- the configs
MK = {"d": {"x": 1, "r": "${.x}", "u": "${..s}", "a": "${s}", "m": MISS, "n": None, "l": ["${..x}", 2]}, "l": ["${s}", 1, {"k": "${..[1]}"}], "e": {}}
BASE = {
    "s": 5, "t": "x", "m": MISS, "n": None, "i": "${s}", "im": "${m}", "f": "${nope}", "sv": "V", "es": "",
    "d": {"x": 1, "y": MISS, "r": "${.x}", "q": {"s": 7}, "n": None, "l": [1]}, "l": [1, MISS, "${s}", [3]],
    "dn": Sp("dict", None), "dm": Sp("dict", MISS), "ln": Sp("list", None), "id": "${d}", "il": "${l}", "a:b": 3, "e": {}, "sub": {"s": 6, "d": {"w": 8}, "k": {"s": 9}},
    "w": {"a-b": 1, "é": "${.a-b}", "$a": "u", "0": 4, "_": None, "A1": [1]}, "c": {Color.RED: 1, Color.GREEN: 2},
}
POS = [("z",), ("sub", "z"), ("sub", "k", "z"), ("l", 0), ("l", 3, 0), ("d", "q", "z")]


def with_expr(pos, text):
    import copy
    t = copy.deepcopy(BASE)
    c = t
    for k in pos[:-1]:
        c = c[k]
    c[pos[-1]] = text
    return t


_start = {}


def real_cfg(pos, text):
    """the config with the expression at its position (cloned from one built without it)"""
    if pos not in _start:
        _start[pos] = OmegaConf.create(build(with_expr(pos, "PLACE")))
    c = clone(_start[pos])
    nav(c, pos)._set_value(text)
    return c


def read(c, pos):
    for k in pos[:-1]:
        c = c._get_node(k)
    return c[pos[-1]]


def rnode(tree, pos):
    n = tree
    for k in pos:
        n = n.v[k]
    return n


def setup():
    warnings.simplefilter("ignore")
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("id", lambda x: x)
    OmegaConf.register_new_resolver("mk", lambda n: MK[n])


def set_env(env):
    for k in list(os.environ):
        if k.startswith("MC_"):
            if k.startswith("MC_V"):
                del os.environ[k]
    os.environ.update(env)


def judge(pos, text, env, res):
    """one expression"""
    res.count("checks")
    case = dict(kind="expr", pos=list(pos), text=text, env=env)
    tree = RN(with_expr(pos, text))
    ref = Ref(env)
    exp = expect(lambda: ref.deref(rnode(tree, pos)))
    warned = list(ref.warned)
    set_env(env)
    c = real_cfg(pos, text)
    before = snap(c)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        box = {}

        def get():
            box["v"] = read(c, pos)
            return box["v"]
        bad = same(exp, get, c, ref)
        n1 = len(ws)
    at = f"{text!r} at {'.'.join(map(str, pos))} with environment {env}"
    if bad:
        res.violation(f"{text}", f"{at} {bad}", case)
        return
    if bad is None:
        res.count("unspecified")
        return
    res.count("validated")
    res.seen((text, pos, repr(sorted(env.items()))))
    got = [str(w.message) for w in ws][:n1]
    if "oc.deprecated" in text:
        if exp[0] == "ok" and (len(got) != len(warned) or any(a is not None and a != b for a, b in zip(warned, got))) or any(w.category is not UserWarning for w in ws):
            res.violation(f"{text}", f"{at}: warnings {got}, expected {warned}", case)
            return
    elif got:
        res.violation(f"{text}", f"{at}: unexpected warnings {got}", case)
        return
    if snap(c) != before:
        res.violation(f"{text}", f"{at}: reading it changed the config", case)
        return
    if exp[0] == "ok" and isinstance(exp[1], RN) and exp[1].made and isinstance(box.get("v"), Node) and isinstance(exp[1].v, (dict, list)):
        want = nav(c, pos[:-1])
        if box["v"]._get_parent() is not want:
            res.violation(f"{text}", f"{at}: the parent of the new config is not the container of the interpolation", case)


# ---------------------------------------------------------------- the expressions
KEYS = [p + k for p in ("", ".", "..", "...") for k in ("s", "t", "m", "n", "i", "im", "f", "d", "l", "dn", "dm", "ln", "id", "il", "e", "sub", "w", "c", "nope", "d.x", "d.y", "d.r", "d.q", "d.q.s", "d.z", "d.l[0]", "l[1]", "l[2]", "l[-1]", "l[7]", "l[3][0]", "l.0", "l.x", "s.x",
                                                         "m.x", "n.x", "dm.x", "dn.x", "im.x", "f.x", "id.x", "id.y", "id.q.s", "id.z", "il[2]", "sub.s", "sub.k.s", "k.s", "k", "q", "x", "c.RED", "c.GREEN", "w.é", "w.a-b", "e.x")] + ["[0]", ".[1]", ".[2]", "..[1]", ".", "[d][x]", "d[x]", "[l][0]"]
QUOTED = ["a:b", "..a:b", "", "..", "...", "....", ".....s"]
DEFAULTS = [None, "D", "null", "7", "[1,2]", "{a:1}", "'a,b'", "${s}", "${n}", "${t}", "${d}", "${oc.select:nope}", "${oc.select:nope,2}", "${oc.env:MC_V1,y}", "''", "${.s}"]
VALUES = [None, "", "v", "5", "${s}", "???", " pad ", "null", "a,b", "[1, 2]", "é", "{a: 1}", "x: y"]
DECODE = ["", " ", "a", "1", "1.5", "true", "null", "[1,2]", "{a:1}", "'q'", "\"q ${s}\"", "${s}", "${.s}", "${..s}", "${m}", "${nope}", "[${s},${.s}]", "{k:${d.x}}", "${d}", "${id:${s}}", "a b", "1e3", "???", "}", "[", "a:b", "'", "x${t}y", "${oc.env:MC_V1,e}",
          "${oc.decode:'${s}'}", "[1,[2,{a:b}]]", "-1", "+2", "0x1", "1_000", ".5", "inf", "True", "nULL", "\\,", "a\\ ", " 1 ", "'a' ", "1 2", "${oc.select:nope,9}", "${oc.create:{a:${s}}}", "[]", "{}", "$", "a$b", "é"]
CREATE = ["{}", "[]", "{a:1}", "[1,2]", "{a:{b:[1]}}", "${mk:d}", "${mk:l}", "${mk:e}", "${d}", "${l}", "${sub}", "${e}", "null", "5", "1.5", "true", "x", "'a: 1'", "'[1, 2]'", "'a: ${s}'", "'x: ${t}'", "''", "'- 1'", "${s}", "${n}", "${dn}", "${m}", "${nope}", "{k:${s}}", "[${.s}]", "${oc.env:MC_V1}", "${oc.decode:'{a:1}'}",
          "${oc.select:d}", "${oc.select:nope}", "${oc.dict.keys:d}", "${c}", "${oc.create:{a:1}}", "${id}", "1,2"]
MESSAGES = [None, "m", "'$OLD_KEY->$NEW_KEY'", "'$NEW_KEY'", "'$X $$ $OLD_KEY!'", "''", "1", "null", "'$OLD_KEYS'", "'\\${OLD_KEY}'", "${t}", "[a]"]


def wrap_all(t):
    return [t, f"A{t}B", f"{t}{t}"]


def quote(k):
    return "'" + k + "'"


def select_exprs(th):
    for k in KEYS + QUOTED:
        forms = [quote(k)] + ([k] if k and "é" not in k and ":" not in k and "[" not in k and "-" not in k else []) + ["${id:" + quote(k) + "}"]
        for f in forms[:None if th else 2]:
            for d in (DEFAULTS if th or f is forms[0] else DEFAULTS[:3]):
                yield "${oc.select:" + f + ("," + d if d is not None else "") + "}"
    for k in ("1", "null", "true", "[a]", "${s}", "${t}", "${m}", "${nope}", "${d}", "", "s,1,2", "${t}${t}", "'${t}'", "d.${oc.select:nope,x}", "'d.${id:x}'"):
        yield "${oc.select:" + k + "}"


def env_exprs(th):
    for k in ("MC_V1", "'MC_V1'", "${id:MC_V1}", "'MC_${sv}1'", "1", "null", "${s}", "[a]", "${nope}", "MC_V2", "MC_V1,1,2"):
        for d in DEFAULTS + ["1.50", "true", "???", "' p '", "${oc.env:MC_V2}", "${oc.env:MC_V2,w}", "{a: [1, x]}", "a b", "\\,"]:
            yield "${oc.env:" + k + ("," + d if d is not None else "") + "}"


def dict_exprs(th):
    for k in KEYS:
        if k in (".", "..", "..."):
            continue
        for r in ("keys", "values"):
            yield "${oc.dict." + r + ":" + quote(k) + "}"
            if "[" not in k and "é" not in k:
                yield "${oc.dict." + r + ":" + k + "}"
    for k in ("1", "null", "[a]", "${t}", "${d}", "${m}", "${nope}", "${id:d}", "d,e", "'....d'", "${oc.select:nope,d}", "d.${id:q}", "''"):
        for r in ("keys", "values"):
            yield "${oc.dict." + r + ":" + k + "}"


def depr_exprs(th):
    for k in KEYS + ["1", "null", "${id:s}", "${t}", "[a]"]:
        if k == ".":
            continue
        for m in (MESSAGES if th or not k.startswith("..") else MESSAGES[:3]):
            q = quote(k) if k in KEYS else k
            yield "${oc.deprecated:" + q + ("," + m if m is not None else "") + "}"
    yield "${oc.deprecated:s,m,n}"
    yield "${oc.deprecated:}"


LEAF = ["s", "'.s'", "d", "nope", "m", "5", "null", "x", "MC_V1", "[d,s]", "${s}", "${t}", "${n}", "${d}", "${.s}", "'${s}'", "'d.x'", "{k:${s}}"]
RES1 = ["oc.env", "oc.select", "oc.decode", "oc.create", "oc.dict.keys", "oc.dict.values", "oc.deprecated", "id"]


def nested(depth, th):
    """every composition of the resolvers over the leaves"""
    level = list(LEAF)
    out = []
    for d in range(depth):
        nxt = []
        for r in RES1:
            for a in level:
                nxt.append("${" + r + ":" + a + "}")
            if r in ("oc.env", "oc.select"):
                for k in ("nope", "d.x", "m", "MC_V1"):
                    for a in level:
                        nxt.append("${" + r + ":" + k + "," + a + "}")
        out += nxt
        if not th and d == 0:
            level = nxt[::2]
        else:
            level = nxt
    return out


def expressions(th):
    for e in select_exprs(th):
        yield e, ({}, {"MC_V1": "q"}) if "MC_" in e else ({},), POS
    for e in env_exprs(th):
        envs = [dict({} if v is None else {"MC_V1": v}, **({} if w is None else {"MC_V2": w})) for v in VALUES for w in ((None, "W") if "MC_V2" in e else (None,))]
        yield e, envs, POS if th else POS[:3:2]
    for e in dict_exprs(th):
        yield e, ({},), POS
    for t in DECODE:
        for env in ({}, {"MC_V1": t}):
            if env:
                yield "${oc.decode:${oc.env:MC_V1}}", (env,), POS
            elif "'" not in t and "\\" not in t:
                yield "${oc.decode:'" + t + "'}", (env,), POS
    for a in ("null", "1", "[a]", "true", "${s}", "${t}", "${n}", "${d}", "${m}", "${nope}", "a,b", "", "${oc.env:MC_V1,null}"):
        yield "${oc.decode:" + a + "}", ({}, {"MC_V1": "[1]"}), POS
    for a in CREATE:
        yield "${oc.create:" + a + "}", [{}] + [{"MC_V1": v} for v in VALUES if v is not None and "MC_V1" in a], POS
    for e in depr_exprs(th):
        yield e, ({},), POS
    for e in nested(2, th):
        yield e, ({}, {"MC_V1": "d"}) if "MC_" in e else ({},), POS[:1] if not th else POS[:4]


def one(w, res):
    setup()
    if w[0] == "expr":
        for e, envs, poss in w[1]:
            for env in envs:
                for pos in poss:
                    judge(pos, e, env, res)
                    if not any(x in e for x in ("dict.", "create", "deprecated")):
                        judge(pos, f"A{e}B", env, res)
        res.sample(f"{w[1][0][0]} at {len(w[1][0][2])} positions and in {len(w[1][0][1])} environments")
    else:
        live(w[1], res)
    set_env({})
    OmegaConf.clear_resolvers()


# ---------------------------------------------------------------- live views
LIVE = {"d": {"x": 1, "y": MISS, "r": "${.x}", "q": {"s": 7}}, "other": {"x": 2, "z": 3}, "id": "${d}", "sub": {"d": {"w": 8}, "vr": "${oc.dict.values:.d}", "vu": "${oc.dict.values:..d}"}, "l": ["${oc.dict.values:..d}"],
        "v": "${oc.dict.values:d}", "vi": "${oc.dict.values:id}", "k": "${oc.dict.keys:d}", "sel": "${oc.select:d}", "vs": "${oc.dict.values:sub.d}", "name": "d", "vn": "${oc.dict.values:${name}}", "e0": "${oc.select:v}"}
VIEWS = [("v",), ("vi",), ("sub", "vr"), ("sub", "vu"), ("l", 0), ("vs",), ("vn",)]
SRC = {("v",): ("d",), ("vi",): ("d",), ("sub", "vr"): ("sub", "d"), ("sub", "vu"): ("d",), ("l", 0): ("d",), ("vs",): ("sub", "d"), ("vn",): ("d",)}
MUT = ["c.d.x = 9", "c.d.x = 'z'", "c.d.x = '???'", "c.d.x = None", "c.d.y = 4", "c.d.r = 5", "del c.d['x']", "c.d.new = 1", "c.d.q.s = 0", "c.d.q = {'s': 1, 't': 2}", "c.d = {'x': 3, 'y': 5, 'r': 1, 'q': 2}", "c.d = {}", "c.id = '${other}'", "c.sub.d.w = 10", "del c.sub.d['w']", "c.sub.d = {'w': {'n': 1}}",
       "c.other.x = 6", "c.name = 'other'", "c.d.x = {'deep': '${..q}'}", "c.d.x = [1]", "c.d.pop('q')", "c.d.clear()", "c.d.r = '${other.z}'", "c.d.r = '${nope}'", "c.d.r = '${.y}'"]


def live(hist, res):
    """obtain every view, make the changes, compare the old views and new ones with the content now"""
    import copy
    c = OmegaConf.create(LIVE)
    old = {p: read(c, p) for p in VIEWS}
    keys = {p: list(nav(c, SRC[p]).keys()) for p in VIEWS}
    sel = read(c, ("sel",))
    m = copy.deepcopy(LIVE)
    res.count("histories")
    case = dict(kind="live", h=list(hist))

    class A:
        """attribute access to plain data"""

        def __init__(s, d):
            s.__dict__["_raw"] = d

        def __getattr__(s, k):
            if k == "pop":
                return s._raw.pop
            if k == "clear":
                return s._raw.clear
            return A(s._raw[k])

        def __setattr__(s, k, v):
            s._raw[k] = v

        def __delitem__(s, k):
            del s._raw[k]
    for op in hist:
        try:
            exec(op, {"c": A(m)})
        except Exception:
            return
        try:
            exec(op, {"c": c})
        except Exception as e:
            res.violation(f"live {op}", f"{hist}: {op} raises {show_exc(e)}", case)
            return
    tree = RN(m)
    ref = Ref({})

    def cmp(view, path, ks, what, src):
        if len(view) != len(ks):
            res.violation(f"live {path}", f"{hist}: {what} {path} has {len(view)} elements, expected {len(ks)}", case)
            return
        for i, k in enumerate(ks):
            e = expect(lambda: ref.node(src + "." + k, rnode(tree, path[:1])))
            bad = same(e, lambda: view[i], c, ref)
            res.count("checks")
            if bad:
                res.violation(f"live {path}", f"after {hist}, element {i} ({src}.{k}) of {what} {path} {bad}", case)
                return
    for p in VIEWS:
        src = {("vi",): "id"}.get(p, ".".join(SRC[p]))
        cmp(old[p], p, keys[p], "the earlier view", src)
        src2 = "other" if p == ("vn",) and m["name"] == "other" else src
        t = expect(lambda: ref.node(src2, rnode(tree, ("name",))))
        if t[0] == "ok" and isinstance(t[1], RN):
            cmp(read(c, p), p, list(t[1].v), "a new view", src2)
    k = read(c, ("k",))
    if list(k) != list(m["d"]):
        res.violation("live k", f"after {hist}: oc.dict.keys gives {list(k)}, expected {list(m['d'])}", case)
    if not any("c.d = " in o for o in hist) and read(c, ("sel",)) is not sel:
        res.violation("live sel", f"after {hist}: oc.select no longer gives the same node", case)
    res.count("validated")
    res.seen(hist)


def check(tier):
    th = tier == "thorough"
    work = [("expr", x) for x in chunks(list(expressions(th)), 150)]
    for n in range(0, 3 if not th else 4):
        for x in chunks(list(itertools.product(MUT, repeat=n)), 100):
            work.append(("lives", x))
    res = parallel(two, work)
    res.n["states"] = len(res.hashes)
    res.n["transitions"] = res.n.get("checks", 0)
    return res


def two(w, res):
    if w[0] == "lives":
        setup()
        for hst in w[1]:
            live(hst, res)
        OmegaConf.clear_resolvers()
    else:
        one(w, res)


def replay(case, res):
    setup()
    if case["kind"] == "live":
        live(tuple(case["h"]), res)
    else:
        judge(tuple(case["pos"]), case["text"], case["env"], res)
    set_env({})
    OmegaConf.clear_resolvers()
