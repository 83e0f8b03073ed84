"""C27: equality is a consistent comparison of resolved content.  Every pair of a universe of small configs (untyped, typed, structured, standalone special containers, sub-configs of other configs), each way round, as config against config and as config against the plain
object, compared with a reference equality on plain trees; and the relation is an equivalence (rows of the matrix of answers)."""
import itertools
import warnings
from dataclasses import dataclass
from typing import Any, Dict, List, Optional, Union

import attr

from .c26 import MISS, RN, Fail, Ref, Sp, Unspec, build, nav
from .core import DictConfig, ListConfig, OmegaConf, Result, clone, enc, h, parallel, show_exc, snap
from .fix import Color
from .ops import chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["not-a-number excluded (it is not equal to itself)", "interpolations whose target changes between reads excluded"]


@dataclass
class AB:
    x: Any = 0
    y: Any = 0


@dataclass
class BA:
    y: Any = 0
    x: Any = 0


@attr.s(auto_attribs=True)
class AT:
    x: Any = 0
    y: Any = 0


@dataclass
class Ty:
    x: Optional[int] = 1
    y: Union[int, str, None] = 1


@dataclass
class In:
    x: Optional[AB] = None
    y: Optional[List[Any]] = None
    z: Optional[Dict[str, Any]] = None


# ---------------------------------------------------------------- the reference
REF = Ref({})


def outcome(n):
    o = n.__dict__.get("out")
    if o is None:
        o = n.out = outcome1(n)
    return o


def outcome1(n):
    """('none',) ('missing',) ('fail', text) ('v', scalar) ('box', RN)"""
    v = n.v
    if v is None or isinstance(v, Sp) and v.v is None:
        return ("none",)
    if isinstance(v, str) and v == MISS or isinstance(v, Sp) and v.v == MISS:
        return ("missing",)
    text = v.v if isinstance(v, Sp) else v
    try:
        if isinstance(v, Sp):
            r = REF.text(v.v, n)
        else:
            r = REF.deref(n)
        if isinstance(r, RN):
            # an interpolation to a container above itself fails
            p = n
            while p is not None and p is not r:
                p = p.parent
            if p is not None and r is not n:
                return ("fail", text)
    except (Fail, RecursionError):
        return ("fail", text)
    if r is None:
        return ("none",)
    return ("box", r) if isinstance(r, RN) else ("v", r)


def inter(n):
    v = n.v.v if isinstance(n.v, Sp) else n.v
    return (type(n.v), getattr(n.v, "kind", None), v) if isinstance(v, str) and "${" in v else None


def fails(n, depth=0):
    """contains an interpolation that cannot be resolved"""
    o = outcome(n)
    if o[0] == "box" and depth < 5:
        return any(fails(x, depth + 1) for x in (o[1].v.values() if isinstance(o[1].v, dict) else o[1].v))
    return o[0] == "fail"


def req(a, b):
    oa, ob = outcome(a), outcome(b)
    if "fail" in (oa[0], ob[0]) and inter(a) and inter(b):
        # an interpolation that cannot be resolved is compared as text
        return inter(a) == inter(b)
    if oa[0] != ob[0]:
        return False
    if oa[0] in ("none", "missing"):
        return True
    if oa[0] != "box":
        return oa[1] == ob[1]
    x, y = oa[1].v, ob[1].v
    if isinstance(x, dict):
        return isinstance(y, dict) and len(x) == len(y) and all(k in y and req(n, y[k]) for k, n in x.items())
    return isinstance(y, list) and len(x) == len(y) and all(req(m, n) for m, n in zip(x, y))


# ---------------------------------------------------------------- the universe
SCALARS = [0, 1, True, False, 1.0, 2.5, "", "a", "1", "True", "RED", Color.RED, Color.GREEN, b"a", None, MISS]
INTER = ["${x}", "${y}", "${.x}", "${nope}", "${nope2}", "A${x}", "${x}${y}", "${o}", "${..o}", "${[0]}", "${[1]}"]
BOXES = [{}, [], {"x": 1}, {"x": None}, {"x": MISS}, {"x": "${.y}", "y": 1}, [1], [True], [None], [MISS], ["${..o}"], Sp("dict", None), Sp("list", None), Sp("dict", MISS), Sp("list", MISS), {1: "a"}, {True: "a"}, {"1": "a"}, {Color.RED: 1}, {"x": "${o}"}, {"x": "${o}", "y": {}}, [[1]], [{}], {"x": {"y": "${...o}"}}]
LEAVES = SCALARS + INTER + BOXES
SMALL = [0, 1, True, "a", None, MISS, "${x}", "${y}", "${o}", "${nope}", {}, [], {"x": 1}, [1], Sp("dict", None), Sp("list", MISS)]


def universe(th):
    """(description, plain tree, class or None, path of the compared node, flags)"""
    out = []
    LESS = SMALL if th else [0, True, "a", None, MISS, "${x}", "${o}", "${nope}", [], {"x": 1}]
    for leaf in LEAVES:
        out.append(({"x": leaf}, None, ()))
        out.append(([leaf], None, ()))
        out.append(({"s": {"x": leaf}, "o": 1}, None, ("s",)))
        out.append(({"s": [leaf], "o": 1, "x": 2}, None, ("s",)))
        out.append(({"s": {"x": leaf}, "o": {"x": 1}}, None, ("s",)))
        out.append(({"x": {"x": leaf}}, None, ()))
        out.append(({"x": [leaf], "o": 1}, None, ()))
        for cls in (AB, AT):
            out.append(({"x": leaf, "y": 0}, cls, ()))
    for a, b in itertools.product(LEAVES if th else SMALL, SMALL if th else LESS):
        out.append(({"x": a, "y": b}, None, ()))
        out.append(([a, b], None, ()))
    for a, b in itertools.product(LESS, LESS):
        out.append(({"y": a, "x": b}, None, ()))
        out.append(({"s": {"x": a, "y": b}, "o": 1}, None, ("s",)))
        out.append(({"x": a, "y": b}, AB, ()))
        out.append(({"y": b, "x": a}, BA, ()))
    for a, b in itertools.product((1, 2, None, MISS, "${y}", "${x}"), (1, "a", None, MISS, "${x}", "1")):
        if not (a == "${y}" and isinstance(b, str) or b == "${x}" and isinstance(a, str)):
            out.append(({"x": a, "y": b}, Ty, ()))
    for x, y, z in itertools.product((None, MISS, {"x": 1, "y": 2}, {"x": "${..o}", "y": 1}, "${nope}"), (None, MISS, [], [1], "${z}"), (None, {}, {"x": 1})):
        out.append(({"x": x, "y": y, "z": z}, In, ()))
    for s in (Sp("dict", None), Sp("list", None), Sp("dict", MISS), Sp("list", MISS), {}, [], Sp("dict", "${o}"), Sp("list", "${o}"), Sp("dict", "${nope}"), Sp("list", "${nope}"), Sp("dict", "${p}"), Sp("list", "${q}")):
        out.append((s, None, ()))
        out.append(({"s": s, "o": 1, "p": {"x": 1}, "q": [1]}, None, ("s",)))
        out.append(({"x": s, "p": {"x": 1}, "q": [1], "o": 1}, None, ()))
    for o in ({"x": 1}, {"x": 2}, {"x": True}, {"y": 1}, {}, [], [1], [2], [[1]], [[2]], [1, 2], [{"x": 1}], {"x": [1]}, "${p}", "${q}"):
        out.append(({"s": {"x": "${o}"}, "o": o, "p": {"x": 1}, "q": [1]}, None, ("s",)))
        out.append(({"s": ["${o}"], "o": o, "p": {"x": 2}, "q": [2]}, None, ("s",)))
        out.append(({"s": {"y": {"x": "${o}"}}, "o": o, "p": {"x": 2}, "q": [2]}, None, ("s",)))
        out.append(({"s": {"x": "${t}"}, "t": "${o}", "o": o, "p": {}, "q": []}, None, ("s",)))
    if th:
        for a, b, c in itertools.product(SMALL, SMALL, SMALL):
            out.append(({"x": a, "y": b, "o": c}, None, ()))
            if not any(isinstance(z, (dict, list, Sp)) for z in (a, c)):
                out.append(([a, b, c], None, ()))
    return out


_memo = {}


def unsp(v, cls):
    """what is handed to create: containers None / missing as such"""
    return v


def typed(v, cls):
    if cls is In:
        x = v["x"]
        return In(x=AB(**x) if isinstance(x, dict) else x, y=v["y"], z=v["z"])
    return cls(**{k: build(x) for k, x in v.items()})


class Item:
    def __init__(self, v, cls, path):
        self.v, self.cls, self.path = v, cls, path
        root = RN(v)
        n = root
        for k in path:
            n = n.v[k]
        self.ref = n
        if cls is not None:
            self.root = OmegaConf.structured(typed(v, cls))
        else:
            self.root = build(v) if isinstance(v, Sp) else OmegaConf.create(build(v))
        self.cfg = nav(self.root, path)
        self.hash = None
        self.fails = fails(n)
        self.plain = None
        if not path and not isinstance(v, Sp):
            self.plain = typed(v, cls) if cls is not None else build(v)

    def __repr__(self):
        def s(v):
            return f"{'DictConfig' if v.kind == 'dict' else 'ListConfig'}({v.v!r})" if isinstance(v, Sp) else "{" + ", ".join(f"{k!r}: {s(x)}" for k, x in v.items()) + "}" if isinstance(v, dict) else "[" + ", ".join(map(s, v)) + "]" if isinstance(v, list) else repr(v)
        t = s(self.v)
        t = f"{self.cls.__name__}(**{t})" if self.cls else t
        return t + (f" at {'.'.join(map(str, self.path))}" if self.path else "")


ITEMS = []
TIER = ["quick"]
STRIDE = 11  # unequal pairs for which the plain object is compared as well


def ask(f):
    try:
        r = f()
    except Exception as e:
        return show_exc(e)
    return r


def row(i, js, res):
    a = ITEMS[i]
    case = dict(i=i, item=repr(a), tier=TIER[0])
    before = snap(a.root)
    bits = []
    for j in js:
        b = ITEMS[j]
        res.count("checks")
        exp = type(a.cfg) is type(b.cfg) and req(a.ref, b.ref)
        what = f"{a!r} == {b!r}"
        got = ask(lambda: a.cfg == b.cfg)
        if got is not exp:
            res.violation(f"eq {kind(a, b, got, exp)}", f"{what} gives {got}, expected {exp}", dict(case, j=j))
        bits.append(got is True)
        ne = ask(lambda: a.cfg != b.cfg) if exp or (i + j) % STRIDE < 3 else not got
        if ne is not (not got) and isinstance(got, bool):
            res.violation("ne", f"{a!r} != {b!r} gives {ne} while == gives {got}", dict(case, j=j))
        if got is True and type(a.cfg) is type(b.cfg):
            if a.hash is None:
                a.hash = ask(lambda: hash(a.cfg))
            if b.hash is None:
                b.hash = ask(lambda: hash(b.cfg))
            if a.hash != b.hash and order(a.ref) == order(b.ref):
                same = enc(shown(a.ref)) == enc(shown(b.ref))
                res.violation("hash: same content" if same else HASH, f"{what} but their hashes differ", dict(case, j=j))
        if b.plain is not None and (exp or (i + j) % STRIDE == 0):
            for w, f in (("== the plain object", lambda: a.cfg == b.plain), ("reflected ==", lambda: b.plain == a.cfg)):
                if w.startswith("refl") and b.cls is not None:
                    continue
                g = ask(f)
                if g is not got:
                    res.violation(f"plain {w}", f"{what}: {got} for configs, {g} for {w} {b.plain!r}", dict(case, j=j))
    res.count("validated", len(js))
    if snap(a.root) != before:
        res.violation("changed", f"comparing changed {a!r}", case)
    res.out.append((i, bytes(bits)))


def kind(a, b, got, exp):
    return f"{got if not isinstance(got, str) else got.split(':')[0]}/{exp}"


HASH = "hash: equal content that is not written the same way"


def shown(n):
    """content as written"""
    if isinstance(n.v, dict):
        return {k: shown(x) for k, x in n.v.items()}
    if isinstance(n.v, list):
        return [shown(x) for x in n.v]
    return n.v.v if isinstance(n.v, Sp) else n.v


def order(n, depth=0):
    """the key order at every level of the resolved content"""
    o = outcome(n)
    if o[0] != "box" or depth > 4:
        return None
    v = o[1].v
    return tuple((enc(k) if isinstance(k, str) else None, order(x, depth + 1)) for k, x in (v.items() if isinstance(v, dict) else enumerate(v)))


def one(i, res):
    warnings.simplefilter("ignore")
    row(i, range(len(ITEMS)), res)
    res.seen(i)
    if i % 97 == 0:
        res.sample(f"{ITEMS[i]!r} against all {len(ITEMS)} configs")


def fill(tier):
    TIER[0] = tier
    warnings.simplefilter("ignore")
    seen = set()
    for v, cls, path in universe(tier == "thorough"):
        it = Item(v, cls, path)
        k = (repr(it), type(it.cfg))
        if k not in seen:
            seen.add(k)
            ITEMS.append(it)


def check(tier):
    fill(tier)
    for it in ITEMS:
        fails(it.ref)
    res = parallel(one, range(len(ITEMS)))
    res.n["states"] = len(ITEMS)
    res.n["transitions"] = res.n.get("checks", 0)
    rows = dict(res.out)
    res.out = []
    if not res.capped and len(rows) == len(ITEMS):
        # equivalence: equal configs are equal to the same configs
        bad = 0
        for i, r in rows.items():
            if not r[i]:
                res.violation("reflexive", f"{ITEMS[i]!r} is not equal to itself", dict(i=i))
            for j in range(len(r)):
                if r[j] and rows[j] != r and bad < 5:
                    k = [k for k in range(len(r)) if rows[j][k] != r[k]]
                    k = [x for x in k if not ITEMS[x].fails] if not ITEMS[i].fails and not ITEMS[j].fails else []
                    if not k:
                        continue
                    k = k[0]
                    res.violation("equivalence", f"{ITEMS[i]!r} == {ITEMS[j]!r}, but compared with {ITEMS[k]!r} they give {bool(r[k])} and {bool(rows[j][k])}", dict(i=i, j=j))
                    bad += 1
    return res


def replay(case, res):
    fill(case["tier"])
    row(case["i"], [case["j"]] if "j" in case else range(len(ITEMS)), res)
