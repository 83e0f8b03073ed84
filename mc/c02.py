"""C02: DictConfig == python dict, in lockstep, for every operation history up to a bound."""
import copy

from . import fix
from .core import OmegaConf, Result, World, bfs, enc, parallel, plain, run, show_exc
from .c01 import deep_plain

LEVEL = "model_checking"
ASSUMPTIONS = [
    "popitem removes the first item (MutableMapping), python's dict the last: compared with the former",
    "keys outside str/bytes/int/float/bool/Enum are refused by design and not in the alphabet",
]
SEP = " || "


def popfirst(X):
    if not X:
        raise KeyError("empty")
    k = next(iter(X))
    return (k, X.pop(k))


def structure(c):
    for k in c.keys():
        n = c._get_node(k)
        if n is None or n._get_parent() is not c or n._key() != k:  # 1 and True are the same dict key
            return f"node {k!r}: key {n._key() if n is not None else None!r}, parent ok {n is not None and n._get_parent() is c}"
    return None


class Dicts(World):
    roots = ("root", "c", "L")

    def __init__(self, init, ops, embed, verbatim=False):
        self.init, self.ops, self.embed, self.verbatim = init, ops, embed, verbatim

    def build(self):
        L = eval(self.init, dict(fix.NS))
        if self.embed:
            root = OmegaConf.create({"x": 7, "y": {"z": 8}, "d": eval(self.init, dict(fix.NS))})
            c = root._get_node("d")
        else:
            root = c = OmegaConf.create(L)
            L = eval(self.init, dict(fix.NS))
        return {"root": root, "c": c, "L": L}

    def canon(self, ns):
        return (enc(ns["L"]), enc(plain(ns["c"])))

    def report(self, res, hist, op, sig, msg):
        if hist is None:
            return
        hist = list(hist) + [op]
        res.violation(sig, f"init {self.init} (embedded={self.embed}); ops {' ; '.join(hist)}\n{msg}",
                      dict(init=self.init, embed=self.embed, verbatim=self.verbatim, hist=hist,
                           program="# from mc.fix import *\n" + f"L = {self.init}\nc = OmegaConf.create({self.init})\n" +
                           "# apply to X=L and X=c (left of || is the python dict's form):\n" + "\n".join(hist)))

    def step(self, ns, op, hist, res):
        c, L = ns["c"], ns["L"]
        if "['a']['k']" in op and not isinstance(L.get("a"), dict):
            return False
        a, b = op.split(SEP) if SEP in op else (op, op)
        attr = SEP in op
        before = enc(plain(c))
        env = {"Color": fix.Color, "popfirst": popfirst, "deepcopy": copy.deepcopy}
        ref = run(a, {"X": L, **env})
        got = run(b, {"X": c, **env})
        bad = None
        if ref[0] != got[0]:
            bad = f"python dict: {show(ref)}; config: {show(got)}"
        elif ref[0] == "exc":
            want = type(ref[1])
            ok = isinstance(got[1], want) or (attr and want is KeyError and isinstance(got[1], AttributeError))
            if not ok:
                bad = f"python dict raises {show_exc(ref[1])}; config raises {show_exc(got[1])}"
            elif enc(plain(c)) != before:
                bad = f"failed operation changed the config to {plain(c)!r}"
        elif enc(deep_plain(ref[1])) != enc(deep_plain(got[1])):
            bad = f"result: python {ref[1]!r}, config {got[1]!r}"
        if bad is None and enc(plain(c)) != enc(L):
            bad = f"content: python {L!r}, config {plain(c)!r}"
        if bad is None:
            w = structure(c)
            if w:
                bad = "structure: " + w
        if bad:
            self.report(res, hist, op, f"{op} on {self.init}", bad)
            return False
        return True

    def on_new(self, ns, hist, res):
        c, L = ns["c"], ns["L"]
        bad = None
        if [enc(k) for k in c] != [enc(k) for k in L] or [enc(k) for k in c.keys()] != [enc(k) for k in L]:
            bad = f"iteration gives {list(c)!r}, python {list(L)!r}"
        elif len(c) != len(L):
            bad = f"len {len(c)} vs {len(L)}"
        elif not self.verbatim:
            if not (c == L) or c != L or c == dict(L, zzz=1):
                bad = f"{c!r} does not compare equal to the equal dict {L!r}"
            elif [enc((k, deep_plain(v))) for k, v in c.items()] != [enc((k, v)) for k, v in L.items()]:
                bad = f"items() gives {list(c.items())!r}"
            elif [enc(deep_plain(v)) for v in c.values()] != [enc(v) for v in L.values()]:
                bad = f"values() gives {list(c.values())!r}"
            else:
                for k in L:
                    if enc(deep_plain(c[k])) != enc(L[k]) or enc(deep_plain(c.get(k))) != enc(L[k]) or k not in c:
                        bad = f"reading {k!r}"
                    if isinstance(k, str) and k.isidentifier() and k not in ("keys", "items", "values", "get", "pop"):
                        if enc(deep_plain(getattr(c, k))) != enc(L[k]) or not hasattr(c, k):
                            bad = f"attribute {k!r}"
        if bad:
            self.report(res, hist[:-1], hist[-1] if hist else "len(X)", "observe " + self.init, bad)
            return False
        return True


def show(r):
    return f"returns {r[1]!r}" if r[0] == "ok" else "raises " + show_exc(r[1])


KEYS = ["'a'", "'b'", "'zz'", "1", "True", "1.5", "b'a'", "Color.RED", "0", "''", "'a.b'", "'RED'"]
VALS = ["9", "'s'", "None", "{'k': 1}", "[5, None]", "True", "Color.GREEN", "b'x'", "{}"]


def alphabet():
    ops = []
    for k in KEYS:
        ops += [f"X[{k}]", f"del X[{k}]", f"X[{k}] = 9", f"X.pop({k})", f"{k} in X", f"X.get({k})"]
    for k in KEYS[:3] + ["1", "Color.RED"]:
        ops += [f"X.get({k}, 'd')", f"X.pop({k}, 'd')", f"X.pop({k}, None)", f"X.setdefault({k}, 5)",
                f"X.setdefault({k}, {{'q': 1}})", f"X.setdefault({k})"]
    for k in ("'a'", "'zz'", "1"):
        ops += [f"X[{k}] = {v}" for v in VALS[1:]]
    for k in ("a", "b", "zz"):
        ops += [f"X['{k}']{SEP}X.{k}", f"del X['{k}']{SEP}del X.{k}", f"X['{k}'] = [1]{SEP}X.{k} = [1]",
                f"X['{k}'] = 3{SEP}X.{k} = 3", f"X['{k}'] = {{'a': {{'b': 2}}}}{SEP}X.{k} = {{'a': {{'b': 2}}}}"]
    ops += ["X.update({})", "X.update({'a': 2})", "X.update({'zz': {'q': 1}, 'a': None})", "X.update(a=4, b=[1])",
            "X.update([('b', 1), (1, 2)])", "X.update({1: 'one', Color.RED: 2})", "X.clear()",
            f"popfirst(X){SEP}X.popitem()", "len(X)", "bool(X)", "list(X.keys())", "list(X.items())", "list(X.values())",
            "dict(X)", "X['a'] = X['a']", f"X['zz'] = deepcopy(X['a']){SEP}X['zz'] = X['a']", "X['a'], X['b'] = X['b'], X['a']", "X.update(X)",
            "X['a']['k'] = 2", "X['a']['k']", f"X['a']['k'] = 3{SEP}X.a.k = 3", f"X['a']['k']{SEP}X.a.k", "X['a'].pop('k')", "X.copy()",
            "[k for k in X]", "sorted(map(str, X))"]
    return ops


VV = ["'???'", "'${x}'", "'a${y.z}b'", "{'k': '???', 'r': '${x}'}", "['${x}', '???']"]


def alphabet_verbatim():
    ops = []
    for k in ("'a'", "'b'", "'zz'", "1"):
        ops += [f"X[{k}] = {v}" for v in VV + ["9"]] + [f"del X[{k}]"]
    ops += ["X.update({'a': '${x}', 'zz': '???'})", "X.clear()", "len(X)", "list(X.keys())",
            "X.update(a='???', b={'n': '${x}'})", f"X['b'] = '${{x}}'{SEP}X.b = '${{x}}'", f"X['b'] = '???'{SEP}X.b = '???'",
            f"del X['a']{SEP}del X.a"]
    return ops


INITS = ["{}", "{'a': 1}", "{'a': {'k': 1}, 'b': [1, 2]}", "{1: 'x', 'a': 2, Color.RED: None}",
         "{'zz': None, True: 1, b'a': 2, 1.5: 3}", "{'b': 1, 'a': {'k': {'k': 1}}, '': 0, 'a.b': 5}"]
VINITS = ["{'a': '???', 'b': 1}", "{'a': '${x}', 'b': {'n': '${y.z}'}}", "{1: '???', 'a': ['${x}', '???'], 'b': '${nope}'}"]
RED = ["X['a'] = 9", "X['b'] = {'k': 1}", "del X['a']", "X.pop('b')", "X.setdefault('a', 5)", "X.update({'zz': 1, 'a': None})",
       "X[1] = 's'", f"popfirst(X){SEP}X.popitem()", "X.clear()", f"X['zz'] = deepcopy(X['a']){SEP}X['zz'] = X['a']", f"X['a'] = [1]{SEP}X.a = [1]",
       f"del X['b']{SEP}del X.b", "X['a']['k'] = 2", "X[True] = 0"]


def check(tier):
    q = tier == "quick"
    ops, vops = alphabet(), alphabet_verbatim()
    work = []
    for init in INITS:
        for emb in (False, True):
            if q and emb and init not in INITS[2:4]:
                continue
            for i in range(0, len(ops), 8):
                work.append(("full", init, emb, ops[i:i + 8], 2 if q else 3))
    for init in VINITS:
        for i in range(0, len(vops), 8):
            work.append(("verb", init, True, vops[i:i + 8], 2 if q else 3))
    for init in INITS[:3]:
        for o in RED:
            work.append(("red", init, False, [o], 4 if q else 6))
    res = parallel(one, work)
    res.n["validated"] = res.n.get("transitions", 0)
    return res


def one(w, res):
    kind, init, emb, only, d = w
    ops = {"full": alphabet, "verb": alphabet_verbatim, "red": lambda: RED}[kind]()
    bfs(Dicts(init, ops, emb, kind == "verb"), d, res, only=only)
    res.sample(f"init {init} embedded={emb}: every sequence of {d} of {len(ops)} operations starting with {only[0]}")


def replay(case, res):
    w = Dicts(case["init"], [], case["embed"], case["verbatim"])
    ns = w.build()
    for i, o in enumerate(case["hist"]):
        w.step(ns, o, (), res)
        w.on_new(ns, tuple(case["hist"][:i + 1]), res)
