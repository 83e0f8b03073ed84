"""C25: resolvers and their caches follow the documented state machine.  The real registry and real configs in lockstep with a reference machine: every history up to a bound over the whole alphabet, and breadth-first over the
reference machine's states beyond it."""
import copy
import itertools
import pickle
import warnings

from .core import DictConfig, ListConfig, OmegaConf, Result, clone, enc, parallel, show_exc
from .ops import chunks
from omegaconf.errors import UnsupportedInterpolationType

LEVEL = "model_checking"
ASSUMPTIONS = ["resolvers return a new value on every call, so a value tells which call produced it", "states beyond the full-history bound are identified by the reference machine's state"]
BUILTIN = ["oc.env", "oc.select", "oc.create", "oc.decode", "oc.deprecated", "oc.dict.keys", "oc.dict.values"]
NAMES = ["r", "q", "a.b", "oc.select", "nope", ""]

CONTENT = {"n": 1, "one": "${r:1}", "sp": "${r: 1 }", "str": "${r:'1'}", "nest": "${r:${n}}", "no": "${r:}", "two": "${r:1,x}", "q": "${q:1}", "rq": "x${r:${q:1}}", "ns": "${a.b:1}", "dyn": "${a.${m}:1}", "m": "b", "sub": {"k": "${r:1}", "l": ["${r:1,x}"]}, "bi": "${oc.select:n}"}
# key -> (resolver, literal texts, arguments given n); None where the arguments come from another resolver
EXPR = {"one": ("r", ("1",), lambda n: (1,)), "sp": ("r", ("1",), lambda n: (1,)), "str": ("r", ("'1'",), lambda n: ("1",)), "nest": ("r", ("${n}",), lambda n: (n,)), "no": ("r", (), lambda n: ()), "two": ("r", ("1", "x"), lambda n: (1, "x")),
        "q": ("q", ("1",), lambda n: (1,)), "ns": ("a.b", ("1",), lambda n: (1,)), "dyn": ("a.b", ("1",), lambda n: (1,)), "sub.k": ("r", ("1",), lambda n: (1,)), "sub.l[0]": ("r", ("1", "x"), lambda n: (1, "x")), "bi": ("oc.select", ("n",), lambda n: ("n",))}
CALLABLES = ["plain", "parent", "root", "node", "all", "fail", "max"]


class Token(Exception):
    pass


# ---------------------------------------------------------------- the reference machine
class Model:
    def __init__(self):
        self.reg = {b: ("builtin",) for b in BUILTIN}
        self.cache = [{}, {}]
        self.n = [1, 1]
        self.fid = 0
        self.calls = 0
        self.prov = None   # how the second config last got its cache: part of the state, so that a cache that is shared by mistake is not merged with one that is not

    def key(self):
        """state up to the names of functions and calls"""
        ren = {}

        def r(x):
            return ren.setdefault(x, len(ren))
        return (tuple(sorted((k, (v[0],) + ((r(("f", v[1])), v[2], v[3]) if v[0] == "fn" else ())) for k, v in self.reg.items())), tuple(self.n), self.prov,
                tuple(tuple(sorted((k, r(v)) for k, v in c.items())) for c in self.cache))

    def has(self):
        return tuple(n in self.reg for n in NAMES)

    def call(self, ci, name, texts, args):
        """-> ('v', token) | ('err', type) , and the calls made"""
        e = self.reg.get(name)
        if e is None:
            return ("unsupported",), []
        if e[0] == "builtin":
            return ("v", self.n[ci]), []
        _, fid, kind, cached = e
        if cached == "legacy":
            args = tuple(texts)
            ck = (name, texts)
            if any("${" in t for t in texts):
                return ("fails",), []
        ck = (name, texts)
        if cached and ck in self.cache[ci]:
            return ("v", self.cache[ci][ck]), []
        if kind == "max":
            try:
                v = max(*args)
            except TypeError:
                return ("fails",), []
            if cached:
                self.cache[ci][ck] = v
            return ("v", v), []
        self.calls += 1
        c = [(fid, args)]
        if kind == "fail":
            return ("fails",), c
        v = f"f{fid}#{self.calls}"
        if cached:
            self.cache[ci][ck] = v
        return ("v", v), c

    def apply(self, op, inherits=False):
        k = op[0]
        if k == "reg":
            _, name, kind, replace, cache = op
            if kind == "notcallable":
                return ("TypeError",)
            if name == "":
                return ("ValueError",)
            if not replace and name in self.reg:
                return ("ValueError",)
            if cache and kind in ("parent", "root", "node", "all"):
                return ("ValueError",)
            self.fid += 1
            self.reg[name] = ("fn", self.fid, kind, cache)
            return ("ok", self.fid)
        if k == "legacy":
            if op[1] in self.reg:
                return ("AssertionError",)
            self.fid += 1
            self.reg[op[1]] = ("fn", self.fid, op[2], "legacy")
            return ("ok", self.fid)
        if k == "clear":
            return ("ok", self.reg.pop(op[1], None) is not None)
        if k == "clearall":
            self.reg = {b: ("builtin",) for b in BUILTIN}
            return ("ok",)
        if k == "call":
            _, ci, key = op
            if key == "rq":
                inner, calls = self.call(ci, "q", ("1",), (1,))
                if inner[0] != "v":
                    return inner, calls
                out, more = self.call(ci, "r", ("${q:1}",), (inner[1],))
                return ("v", "x" + str(out[1])) if out[0] == "v" else out, calls + more
            name, texts, args = EXPR[key]
            return self.call(ci, name, texts, args(self.n[ci]))
        if k == "setn":
            self.n[op[1]] += 1
            return ("ok",)
        if k == "clearcache":
            self.cache[op[1]] = {}
            return ("ok",)
        if k == "copycache":
            self.cache[op[2]] = dict(self.cache[op[1]])
            self.prov = op
            return ("ok",)
        if k in ("derive", "derive0"):
            # derive0: whether the entries made so far are inherited is not specified, what happens afterwards is
            self.cache[1] = dict(self.cache[0]) if k == "derive" or inherits else {}
            self.n[1] = self.n[0]
            self.prov = op
            return ("ok",)
        raise AssertionError(op)


# ---------------------------------------------------------------- the real thing
START = []


class Real:
    def __init__(self):
        OmegaConf.clear_resolvers()
        if not START:
            START.append(OmegaConf.create(CONTENT))
        self.c = [clone(START[0]), clone(START[0])]
        self.fid = 0
        self.calls = 0
        self.log = []
        self.special = []
        self.last = (None, None)

    def fn(self, kind, fid):
        def go(args):
            self.calls += 1
            self.log.append((fid, args))
            if kind == "fail":
                raise Token()
            return f"f{fid}#{self.calls}"
        if kind == "max":
            return max
        if kind == "parent":
            def f(*a, _parent_):
                self.special.append(("parent", _parent_))
                return go(a)
        elif kind == "root":
            def f(*a, _root_):
                self.special.append(("root", _root_))
                return go(a)
        elif kind == "node":
            def f(*a, _node_):
                self.special.append(("node", _node_))
                return go(a)
        elif kind == "all":
            def f(*a, _root_, _node_, _parent_):
                self.special.extend([("root", _root_), ("node", _node_), ("parent", _parent_)])
                return go(a)
        else:
            def f(*a):
                return go(a)
        return f

    def has(self):
        return tuple(OmegaConf.has_resolver(n) for n in NAMES)

    def holder(self, ci, key):
        c = self.c[ci]
        if key == "sub.k":
            return c.sub, c.sub._get_node("k")
        if key == "sub.l[0]":
            return c.sub.l, c.sub.l._get_node(0)
        return c, c._get_node(key)

    def apply(self, op):
        k = op[0]
        if k == "reg":
            _, name, kind, replace, cache = op
            f = 7 if kind == "notcallable" else self.fn(kind, self.fid + 1)
            kw = {}
            if replace:
                kw["replace"] = True
            if cache:
                kw["use_cache"] = True
            try:
                OmegaConf.register_new_resolver(name, f, **kw)
            except (TypeError, ValueError) as e:
                return (type(e).__name__,)
            self.fid += 1
            return ("ok", self.fid)
        if k == "legacy":
            try:
                OmegaConf.legacy_register_resolver(op[1], self.fn(op[2], self.fid + 1))
            except AssertionError:
                return ("AssertionError",)
            self.fid += 1
            return ("ok", self.fid)
        if k == "clear":
            return ("ok", OmegaConf.clear_resolver(op[1]))
        if k == "clearall":
            OmegaConf.clear_resolvers()
            return ("ok",)
        if k == "call":
            _, ci, key = op
            self.log, self.special = [], []
            p, node = self.holder(ci, key)
            try:
                v = p["k"] if key == "sub.k" else p[0] if key == "sub.l[0]" else p[key]
                out = ("v", v)
            except UnsupportedInterpolationType:
                out = ("unsupported",)
            except Exception as e:
                out = ("fails",)
            for w, x in self.special:
                exp = {"root": self.c[ci], "parent": p, "node": node}[w]
                if x is not exp:
                    return ("special", w, repr(x)), self.log
            return out, self.log
        if k == "setn":
            self.c[op[1]].n = self.c[op[1]].n + 1
            return ("ok",)
        if k == "clearcache":
            OmegaConf.clear_cache(self.c[op[1]])
            return ("ok",)
        if k == "copycache":
            OmegaConf.copy_cache(self.c[op[1]], self.c[op[2]])
            return ("ok",)
        if k == "derive":
            s = self.c[0]
            self.c[1] = copy.deepcopy(s) if op[1] == "deepcopy" else copy.copy(s) if op[1] == "copy" else OmegaConf.merge(s, {}) if op[1] == "merge" else pickle.loads(pickle.dumps(s)) if op[1] == "pickle" else OmegaConf.merge(s)
            return ("ok",)
        if k == "derive0":
            s = self.c[0]
            self.c[1] = OmegaConf.create(s) if op[1] == "create" else OmegaConf.merge({}, s) if op[1] == "merge0" else DictConfig(s)
            return ("ok",)
        raise AssertionError(op)


def run(hist, res, check_from=0, count=True):
    m, r = Model(), Real()
    for i, op in enumerate(hist):
        b = r.apply(op)
        a = m.apply(op, op[0] == "derive0" and any(OmegaConf.get_cache(r.c[1]).values()))
        if i < check_from:
            continue
        if count:
            res.count("transitions")
        if enc(a) != enc(b):
            res.violation(f"{op}", f"after {hist[:i]}, {op}: expected {a}, got {b}", dict(h=hist[:i + 1]))
            return None
        if m.has() != r.has():
            res.violation(f"has {op}", f"after {hist[:i + 1]}: has_resolver of {NAMES} is {r.has()}, expected {m.has()}", dict(h=hist[:i + 1]))
            return None
    return m


def probe(m, hist, res):
    """at the end of a history every expression of both configs is read twice"""
    ops = tuple(("call", ci, k) for ci in (0, 1) for k in PROBE for _ in (0, 1))
    return run(hist + ops, res, len(hist))


PROBE = ["one", "nest", "q", "bi", "sub.k"]
REG = [("reg", n, k, rep, ca) for n, k, rep, ca in (("r", "plain", False, True), ("r", "plain", False, False), ("r", "plain", True, True), ("r", "plain", True, False), ("r", "fail", True, True), ("q", "plain", False, True), ("q", "plain", True, False),
                                                     ("r", "all", True, False), ("r", "parent", True, True), ("r", "notcallable", True, False), ("", "plain", True, False), ("a.b", "plain", True, True), ("oc.select", "plain", True, False), ("oc.select", "plain", False, False))]
REG2 = [("reg", "r", k, rep, ca) for k in ("parent", "root", "node", "all", "fail", "max", "notcallable") for rep in (False, True) for ca in (False, True)]
LEG = [("legacy", "r", "plain"), ("legacy", "r", "fail"), ("legacy", "oc.select", "plain")]
CLR = [("clear", "r"), ("clear", "oc.select"), ("clear", "nope"), ("clearall",)]
CALL = [("call", 0, k) for k in ("one", "sp", "nest", "two", "rq", "sub.k", "q", "bi")] + [("call", 1, k) for k in ("one", "nest")]
CALL2 = [("call", 0, k) for k in ("str", "no", "ns", "dyn", "sub.l[0]")] + [("call", 1, k) for k in ("q", "sub.k", "two")]
CFG = [("setn", 0), ("clearcache", 0), ("copycache", 0, 1), ("copycache", 1, 0), ("derive", "deepcopy"), ("derive", "copy"), ("derive0", "create")]
CFG2 = [("clearcache", 1), ("derive0", "merge0"), ("derive0", "DictConfig"), ("derive", "merge"), ("derive", "merge1"), ("derive", "pickle"), ("setn", 1)]
OPS = REG + LEG + CLR + CALL + CFG
ALL = OPS + [o for o in REG2 + CALL2 + CFG2 if o not in OPS]


def one(w, res):
    kind = w[0]
    if kind == "seq":
        _, first, al, n = w
        for rest in itertools.product(al, repeat=n - len(first)):
            h = first + rest
            run(h, res, len(h) - 1)
            res.count("histories")
        res.sample(f"all histories of {n} operations starting {first}")
    else:
        for h in w[1]:
            m = run(h, res, len(h), False)
            for op in ALL:
                m2 = run(h + (op,), res, len(h))
                if m2 is not None:
                    res.out.append((m2.key(), h + (op,)))
            if m is not None:
                probe(m, h, res)
            res.count("histories")
    res.seen(w)


def expand(level, res):
    """one breadth-first level: every state of the level x every operation"""
    out = parallel(one, [("bfs", hs) for hs in chunks(level, max(1, len(level) // 64))])
    got, out.out = out.out, []
    res.merge(out)
    return got


def check(tier):
    warnings.simplefilter("ignore")
    th = tier == "thorough"
    res = Result()
    work = []
    work += [("seq", (a,), ALL, 2) for a in ALL]
    work += [("seq", (a, b), ALL if th else OPS, 3) for a in (ALL if th else OPS) for b in (ALL if th else OPS)]
    res.merge(parallel(one, work))
    # breadth-first over states
    seen = {Model().key()}
    level = [()]
    depth = 0
    limit = 60000 if th else 2500
    while level and len(seen) < limit:
        nxt = []
        got = expand(level, res)
        for key, h in sorted(got, key=lambda x: repr(x[1])):
            if key not in seen:
                seen.add(key)
                nxt.append(h)
        res.count("transitions", 0)
        level = nxt
        depth += 1
        if res.viol or res.capped:
            break
    res.n["states"] = len(seen)
    res.n["depth"] = depth
    res.n["validated"] = res.n.get("transitions", 0)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    warnings.simplefilter("ignore")
    run(tuple(tuple(o) for o in case["h"]), res)
    OmegaConf.clear_resolvers()
