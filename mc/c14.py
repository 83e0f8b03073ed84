"""C14: interpolations evaluate to what the documented rules say.  All assignments of expressions to the slots of small config shapes, against an independent evaluator."""
import itertools
import json

from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, enc, parallel, show_exc
from .ops import chunks
from omegaconf.errors import InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError, MissingMandatoryValue, UnsupportedInterpolationType

LEVEL = "exploration"
ASSUMPTIONS = ["which of several possible errors is raised first is only fixed by left to right evaluation; a resolution error other than a missing key or a missing value is not distinguished further",
               "the text of a container inside a string interpolation is not specified"]


class E(Exception):
    """kind: 'key' | 'missing' | 'other' | 'direct' (the node itself is missing)"""


class Unspec(Exception):
    pass


# ---------------------------------------------------------------- expressions: rendered to text for the real code, evaluated as trees here
class Ref:
    def __init__(self, dots, *keys, style="dot"):
        self.dots, self.keys, self.style = dots, keys, style

    def text(self):
        s = "." * self.dots
        for i, k in enumerate(self.keys):
            t = k if isinstance(k, str) else k.text()
            if i == 0:
                s += f"[{t}]" if self.style == "first" else t
            else:
                s += f"[{t}]" if self.style in ("bracket", "first") else "." + t
        return "${" + s + "}"


class Cat:
    def __init__(self, *parts):
        self.parts = parts

    def text(self):
        return "".join(p if isinstance(p, str) else p.text() for p in self.parts)


class Call:
    """${t:args}: the test resolver, which returns its typed arguments as text"""

    def __init__(self, *args):
        self.args = args

    def text(self):
        return "${t:" + ",".join(a if isinstance(a, str) else a.text() for a in self.args) + "}"


class Val:
    """${v:name}: a resolver which returns a falsy value"""

    def __init__(self, v):
        self.v = v

    def text(self):
        return "${v:" + json.dumps(self.v).replace('"', "'") + "}"


class Bad:
    def text(self):
        return "${nosuchresolver:1}"


EXPR = (Ref, Cat, Call, Val, Bad)


def raw(v):
    if isinstance(v, dict):
        return {k: raw(x) for k, x in v.items()}
    if isinstance(v, list):
        return [raw(x) for x in v]
    return v.text() if isinstance(v, EXPR) else v


def describe(*args):
    return "<" + ";".join(f"{type(a).__name__}:{a}" for a in args) + ">"


# ---------------------------------------------------------------- reference evaluator
class Path(tuple):
    """a container of the config, by its real path"""


class Ev:
    def __init__(self, tree):
        self.tree = tree
        self.fuel = 400

    def at(self, p):
        v = self.tree
        for k in p:
            v = v[k]
        return v

    def deref(self, p, stack):
        """value of the node at p: a plain value or a Path"""
        v = self.at(p)
        if isinstance(v, (dict, list)):
            return Path(p)
        if isinstance(v, EXPR):
            return self.eval(v, p[:-1], stack)
        if v == "???":
            raise E("missing")
        return v

    def step(self, cont, k):
        c = self.at(cont)
        if isinstance(c, dict):
            if k not in c:
                raise E("key")
            return cont + (k,)
        try:
            i = int(k)
        except ValueError:
            raise E("other")
        if not 0 <= i < len(c):
            raise E("key")
        return cont + (i,)

    def eval(self, e, cont, stack):
        self.fuel -= 1
        if self.fuel < 0:
            raise E("other")
        if isinstance(e, Bad):
            raise E("other")
        if isinstance(e, Val):
            return e.v
        if isinstance(e, Ref):
            keys = []
            for k in e.keys:
                keys.append(k if isinstance(k, str) else self.eval(k, cont, stack))
                if not isinstance(keys[-1], str):
                    raise E("other")  # a nested interpolation in a key must give a string
            keys = [k for kk in keys for k in kk.split(".")]
            if "" in keys:
                raise Unspec  # an empty key
            if e.dots == 0:
                cur = ()
            else:
                up = e.dots - 1
                if up > len(cont):
                    raise E("key")
                cur = cont[:len(cont) - up]
            for k in keys[:-1]:
                r = self.walk(self.step(cur, k), stack)
                if not isinstance(r, Path):
                    raise E("other")
                cur = tuple(r)
            r = self.walk(self.step(cur, keys[-1]), stack)
            if isinstance(r, Path) and tuple(r) == cont[:len(r)]:
                raise E("other")  # an ancestor of the place where the interpolation is
            return r
        if isinstance(e, Cat):
            return "".join(p if isinstance(p, str) else self.text(self.eval(p, cont, stack)) for p in e.parts)
        args = []
        for a in e.args:
            if isinstance(a, str):
                args.append(LITERALS.get(a, a))
            else:
                v = self.eval(a, cont, stack)
                if isinstance(v, Path):
                    raise Unspec
                args.append(v)
        return describe(*args)

    def walk(self, p, stack):
        if p in stack:
            raise E("other")  # a cycle
        return self.deref(p, stack | {p})

    def text(self, v):
        if isinstance(v, Path):
            raise Unspec
        return str(v)


LITERALS = {"1": 1, "1.5": 1.5, "true": True, "null": None, "'q r'": "q r", "[1,x]": [1, "x"]}


def reference(tree, p):
    """('ok', value) | ('node', path) | ('err', kind) | None if not specified"""
    ev = Ev(tree)
    v = ev.at(p)
    try:
        if isinstance(v, EXPR):
            r = ev.eval(v, p[:-1], frozenset([p]))
        elif isinstance(v, (dict, list)):
            r = Path(p)
        elif v == "???":
            raise E("direct")
        else:
            r = v
        return ("node", tuple(r)) if isinstance(r, Path) else ("ok", r)
    except E as e:
        return ("err", e.args[0])
    except Unspec:
        return None


# ---------------------------------------------------------------- the real code
def real(cfg, nodes, p):
    n = cfg
    for k in p[:-1]:
        n = n._get_node(k)  # the real container that holds the node
    try:
        r = n[p[-1]]
    except MissingMandatoryValue:
        return ("err", "direct")
    except InterpolationToMissingValueError:
        return ("err", "missing")
    except InterpolationKeyError:
        return ("err", "key")
    except (InterpolationResolutionError, UnsupportedInterpolationType):
        return ("err", "other")
    except Exception as e:
        return ("err", show_exc(e))
    if isinstance(r, (DictConfig, ListConfig)):
        return ("node", nodes.get(id(r), "a container which is not part of the config"))
    return ("ok", r)


def places(v, p=()):
    yield p
    for k, x in v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ():
        yield from places(x, p + (k,))


def case(tree, res):
    res.count("configs")
    cfg = OmegaConf.create(raw(tree))
    nodes = {}

    def index(n, p):
        nodes[id(n)] = p
        c = n.__dict__["_content"]
        for k, x in c.items() if isinstance(c, dict) else enumerate(c):
            if isinstance(x, Box):
                index(x, p + (k,))
    index(cfg, ())
    for p in places(tree):
        if not p or not isinstance(Ev(tree).at(p), EXPR):
            continue
        want = reference(tree, p)
        got = real(cfg, nodes, p)
        res.count("evaluations")
        if want is None:
            res.count("unspecified")
            continue
        if got[0] != want[0] or (enc(got[1]) != enc(want[1])):
            return f"reading {p} of {raw(tree)!r} gives {got}, the documented rules give {want}"
    return None


# ---------------------------------------------------------------- shapes: functions of the slot expressions
R = Ref
COMMON = [R(0, "a"), R(0, "b"), R(0, "zz"), R(0, "a", "x")]
FLAT = COMMON + [R(0, "c"), R(1, "a"), R(1, "b"), R(2, "a"), Cat("x", R(0, "b")), Cat(R(0, "a"), "-", R(0, "c")), R(0, R(0, "c")), Call(R(0, "b"), "1"), Call(), 5, "a", None, "???", False, 0.0, Val(False), Cat("x", Val(False)), Cat(Val(None), "-", Val(0)), Cat(Val(""), R(0, "b")), Val(""), Cat(Val(0.0), Val("")), Cat("$", R(0, "b")), R(0, "b", style="first"), Call(Call(R(1, "c")), "null", "'q r'", "1.5", "true", "[1,x]"), Bad()]


def s_flat(a, b, c):
    return {"a": a, "b": b, "c": c}


IN = [R(0, "d", "x"), R(0, "d", "y", style="bracket"), R(0, "d", "x", style="first"), R(1, "x"), R(1, "y"), R(2, "a"), R(2, "d"), R(2, "d", "y"), R(3, "a"), R(0, "d"), R(0, "a"), R(0, "d", R(0, "k")), R(0, R(0, "m"), R(2, "k")), Cat(R(1, "y"), R(2, "a")), Call(R(1, "y"), R(0, "a")),
      7, "???", None, R(0, "dx"), R(0, "d", R(1, "y")), R(2, "e"), R(2, "e", "y")]


def s_nest(a, x, y):
    return {"a": a, "d": {"x": x, "y": y}, "k": "y", "m": "d", "dx": R(0, "d", "x"), "e": {"y": R(1, "z"), "z": R(2, "a")}}


LST = [R(0, "l", "0"), R(0, "l", "1", style="bracket"), R(0, "l", "1", "k"), R(0, "l", "1", "k", style="bracket"), R(1, "0"), R(1, "1"), R(1, "k"), R(2, "0"), R(2, "a"), R(3, "a"), R(2, "1", "k"), R(0, "l", "x"), R(0, "l", "7"), R(0, "l"), R(0, "l", "1"), R(0, "a"), R(0, "l", R(0, "n")), Cat(R(1, "0"), "/", R(0, "n")),
       3, "???", R(4, "a"), R(0, "l", "2", "0"), R(0, "l", "2"), R(1, R(0, "n"))]


def s_list(a, i, k):
    return {"a": a, "l": [i, {"k": k}, [R(1, "1"), R(2, "0")]], "n": 1}


CNT = [R(0, "c"), R(0, "c", "y"), R(0, "d", "y"), R(0, "d"), R(0, "d", "z", "w"), R(0, "c", "z"), R(0, "r"), R(0, "r", "y"), R(0, "l"), R(0, "l", "0"), R(0, "l", "0", "y"), R(0, "d", "l", "0"), R(0, "c", "z", "u"), R(1, "c", "z", "u"), Cat("v", R(0, "d", "y")), R(0, R(0, "dn"), "y"), Call(R(0, "d", "y")), 4, "???", None, {"y": 8}, [{"y": 9}],
       R(0, "c", "q"), R(0, "c", "p")]


def s_cont(d, r, l):
    return {"d": d, "r": r, "l": l, "c": {"x": 1, "y": R(1, "x"), "z": {"w": R(2, "y"), "u": R(3, "d")}, "l": [R(2, "x")], "q": R(2, "r"), "p": R(2, "d", "y")}, "dn": "d"}


DEEP = [R(1, "y"), R(2, "y"), R(3, "y"), R(4, "y"), R(5, "y"), R(6, "y"), R(1, "x"), R(2, "b", "x"), R(3, "a", "b", "c", "x"), R(2, "c"), R(3, "b"), R(4, "a"), R(0, "a", "b", "c", "x"), R(0, "a", "b"), R(2, "s"), R(0, "s", "t"), Cat(R(2, "y"), "+", R(3, "y")), R(2, "s", "t"), "???"]


def s_deep(x, t, y):
    return {"y": 0, "a": {"y": 1, "b": {"y": 2, "c": {"y": y, "x": x}, "s": {"t": t, "y": 4}}}, "s": {"t": R(1, "u"), "u": 9, "y": 5}}


KEYS = [R(0, R(0, "b")), R(0, "d", R(0, "b")), R(0, "d", R(0, "a"), style="bracket"), R(0, R(0, "c"), "k"), R(0, R(0, "c"), R(0, R(0, "b"))), R(0, "l", R(0, "i"), style="bracket"), R(0, "l", R(0, "i")), R(0, "d", R(0, "d", R(0, "b"))),
        R(1, R(1, "b")), "k", "d", "l", "b", 1, None, True, Cat("k", R(0, "i")), R(0, "d", "k"), R(0, "c")]


def s_keys(a, b, c):
    return {"a": a, "b": b, "c": c, "d": {"k": "k2", "k2": R(2, "b"), "b": 6, "d": 7}, "l": [10, 11], "i": 1, "k": "d"}


SHAPES = {"flat": (s_flat, FLAT), "nest": (s_nest, IN), "list": (s_list, LST), "cont": (s_cont, CNT), "deep": (s_deep, DEEP), "keys": (s_keys, KEYS)}


def one(w, res):
    name, first, i2, stride = w
    f, alpha = SHAPES[name]
    for b in [alpha[i] for i in i2]:
        for c in alpha[(first + i2[0]) % stride::stride]:
            tree = f(alpha[first], b, c)
            msg = case(tree, res)
            if msg:
                res.violation(f"{name} {raw(tree)}", msg, dict(shape=name, slots=[first, alpha.index(b), alpha.index(c)]))
    res.seen(w)
    res.sample(f"{name}: {raw(f(alpha[first], alpha[i2[0]], alpha[0]))}")


def check(tier):
    OmegaConf.register_new_resolver("t", describe, replace=True)
    OmegaConf.register_new_resolver("v", lambda x: x, replace=True)
    work = []
    for name, (f, alpha) in SHAPES.items():
        for i in range(len(alpha)):
            for ch in chunks(list(range(len(alpha))), 6):
                work.append((name, i, ch, 3 if tier == "quick" else 1))
    res = parallel(one, work)
    OmegaConf.clear_resolvers()
    return res


def replay(case_, res):
    OmegaConf.register_new_resolver("t", describe, replace=True)
    OmegaConf.register_new_resolver("v", lambda x: x, replace=True)
    f, alpha = SHAPES[case_["shape"]]
    tree = f(*[alpha[i] for i in case_["slots"]])
    msg = case(tree, res)
    if msg:
        res.violation("replay", msg, case_)
