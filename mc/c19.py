"""C19: YAML round trips every config.  All strings up to a length over YAML's special characters, all scalars, all small shapes, all routes."""
import io
import itertools
import math
import os
import re
import shutil
import tempfile
from pathlib import Path, PosixPath

from .core import DictConfig, ListConfig, OmegaConf, Result, enc, parallel, show_exc
from .ops import chunks

LEVEL = "exploration"
ASSUMPTIONS = ["lone surrogates are not text and cannot be written (saving raises)", "enum members are written as their names and are excluded; a config that is itself None or missing is excluded"]

NUM = "019._eE+-:xobn"
NUM5 = "01._e+-:"
SPECIAL = list("a0 .-:#?,[]{}&*!|>'\"%@`=<~\\$\n\t\r/()+^;_") + ["\x00", "\x07", "\x1b", "\x7f", "\x85", "\xa0", "\u2028", "\u2029", "\ufeff", "\uffff", "é", "☃", "\U0001f600", "\x0b", "\x0c"]
SPECIAL3 = list("a0 .-:#?,[]{}&*!|>'\"%@=~\\$\n\t\r") + ["\x00", "\x85", "\u2028", "\ufeff", "é", "\U0001f600"]
TOKENS = ["a" * 40, "b", " ", "  ", "\n", "'", '"', "\t", ": ", " #", "- ", "é", "\\", "\u2028"]
WORDS = ["y", "Y", "yes", "No", "n", "on", "OFF", "true", "False", "TRUE", "null", "Null", "NULL", "~", "", ".inf", "-.inf", "+.Inf", ".INF", ".nan", ".NaN", "inf", "nan", "NaN", "infinity", "<<", "=", "???", "2001-01-01", "2001-1-1 1:1:1", "2001-12-14t21:59:43.10-05:00",
         "0o7", "0x1F", "0b1", "017", "1:30", "190:20:30.15", "1e3", "1E3", "1_000", "1e", "0x", "0b", "_1", "__1", "1__1", "1_", "1._", "1._e5", "1.0_e5", "+1", "-0", "-0.0", "１", "٣", "!!str a", "!a", "%TAG", "---", "...", "--- a", "- a", "? a", "| a", "> a", "*a", "&a b",
         "a: b", "a:", ":a", "a #b", "#a", "${a}", "${oc.env:X}", "\\${a}", "a${b}c", "None", "True", "e1", ".1", ".1e1", ".1e+1", "1.e1", "1e+1", "1.5e3", "1_0e1", "1_0.0_1", ".1_0", "._1", ".", "..", "-", "+", "-.", "+.5", "1:2:3", "1:60", "1:5.5", "-1:5", "0b_", "0x_"]
INTS = [0, 1, -1, 7, 8, 10, 255, 2**31, -2**63, 2**64, 10**30, -10**30]
FLOATS = [s * float(f"{m}e{e}") for m in ("0", "1", "1.5", "9.99", "1.7976931348623157", "4.9") for e in (-324, -308, -100, -7, -5, -4, -1, 0, 1, 5, 15, 16, 17, 22, 100, 300, 308) for s in (1, -1)] + [math.inf, -math.inf, math.nan, 0.1, 1 / 3, 123456789.123456789, 1e23, 5e-324]
FLOATS = [f for i, f in enumerate(FLOATS)]
BYTES = [bytes(t) for n in range(3) for t in itertools.product((0, 10, 32, 39, 97, 128, 255), repeat=n)] + [bytes(range(256))]


def words():
    pre = ["", " ", "-", "+", "'", "a", "0"]
    post = ["", " ", ":", "'", "a", "0", "\n", "_"]
    return [a + w + b for w in WORDS for a in pre for b in post]


def ok_value(s):
    """can the string be a config value at all (valid interpolation syntax)?"""
    if "${" not in s:
        return True
    try:
        OmegaConf.create([s])
        return True
    except Exception:
        return False


def trip(c, route="create"):
    t = OmegaConf.to_yaml(c)
    if route == "create":
        return t, OmegaConf.create(t)
    if route == "sorted":
        t = OmegaConf.to_yaml(c, sort_keys=True)
        return t, OmegaConf.create(t)
    d = tempfile.mkdtemp(prefix="c19-")
    try:
        p = os.path.join(d, "f.yaml")
        if route == "path":
            OmegaConf.save(c, p)
            return t, OmegaConf.load(p)
        if route == "pathlib":
            OmegaConf.save(config=c, f=Path(p))
            return t, OmegaConf.load(Path(p))
        if route == "handle":
            with open(p, "w", encoding="utf-8") as f:
                OmegaConf.save(c, f)
            with open(p, encoding="utf-8") as f:
                return t, OmegaConf.load(f)
        if route == "binary":
            OmegaConf.save(c, p)
            with open(p, "rb") as f:
                return t, OmegaConf.load(f)
        if route == "stringio":
            s = io.StringIO()
            OmegaConf.save(c, s)
            s.seek(0)
            return t, OmegaConf.load(s)
        if route == "overwrite":
            with open(p, "w") as f:
                f.write("# longer previous content\n" * 10000)
            OmegaConf.save(c, p)
            return t, OmegaConf.load(p)
    finally:
        shutil.rmtree(d)


ROUTES = ("create", "path", "pathlib", "handle", "binary", "stringio", "overwrite")


def plain_same(content):
    """plain data given to to_yaml and save is written like the config made from it"""
    t = OmegaConf.to_yaml(OmegaConf.create(content))
    f = io.StringIO()
    OmegaConf.save(content, f)
    if (OmegaConf.to_yaml(content), f.getvalue()) != (t, t):
        return f"written as {f.getvalue()!r}, the config made from it as {t!r}"


def norm(v, srt=False):
    if srt and isinstance(v, dict):
        return {k: norm(v[k], srt) for k in sorted(v)}
    if srt and isinstance(v, list):
        return [norm(x, srt) for x in v]
    return v


def good(content, route="create", eq=False):
    """-> error text or None"""
    c = OmegaConf.create(content)
    want = OmegaConf.to_container(c)
    try:
        t, b = trip(c, route)
        got = OmegaConf.to_container(b)
    except Exception as e:
        return f"raises {show_exc(e)}"
    if enc(norm(got, route == "sorted")) != enc(norm(want, route == "sorted")) or type(b) is not type(c):
        return f"gives {got!r}\nyaml: {t!r}"
    if route == "sorted" and isinstance(got, dict) and list(got) != sorted(got):
        return f"keys are not sorted: {t!r}"
    if eq and not (b == c or has_special(want)):
        return f"is not equal to the config: {b!r}"
    return None


def has_special(v):
    if isinstance(v, dict):
        return any(has_special(x) for x in v.values()) or any(isinstance(k, float) and k != k for k in v)
    if isinstance(v, list):
        return any(has_special(x) for x in v)
    return isinstance(v, float) and v != v or isinstance(v, str) and ("${" in v or v == "???")


def bisect(items, build, res, tag, route="create"):
    """report every single item whose config does not survive; batches first"""
    items = list(items)
    if not items:
        return
    e = good(build(items), route)
    if e is None:
        return
    if len(items) == 1:
        res.violation(f"{tag} {items[0]!r}", f"{build(items)!r} through to_yaml and {route} {e}", dict(kind="one", content=repr(build(items)), route=route))
        return
    n0 = len(res.viol)
    m = len(items) // 2
    bisect(items[:m], build, res, tag, route)
    bisect(items[m:], build, res, tag, route)
    if len(res.viol) == n0:
        res.violation(f"{tag} batch {items[0]!r}", f"{build(items)!r} through to_yaml and {route} {e[:500]}", dict(kind="one", content=repr(build(items)), route=route))


def strings(items, res, route="create", deep=True):
    """as list elements, values, keys, nested (deep), or as elements and keys in one config"""
    vals = [s for s in items if ok_value(s)]
    res.count("evaluations", len(items))
    for s in items:
        res.seen(s)
    if not deep:
        bisect(items, lambda xs: {"v": [x for x in xs if ok_value(x)], "k": {x: 0 for x in xs}}, res, "mixed", route)
        return
    # short keys in a deep position: values are folded at a larger indent
    bisect(vals, lambda xs: list(xs), res, "element", route)
    bisect(vals, lambda xs: {f"k{i}": x for i, x in enumerate(xs)}, res, "value", route)
    bisect(vals, lambda xs: [{"a": [[{"b": x}] for x in xs]}], res, "nested", route)
    keys = list(dict.fromkeys(items))
    bisect(keys, lambda xs: {x: i for i, x in enumerate(xs)}, res, "key", route)
    bisect(keys, lambda xs: {"d": [{x: {x: [x] if ok_value(x) else []}} for x in xs]}, res, "nested key", route)


# ---------------------------------------------------------------- the documented type of a scalar: YAML 1.1 without dates, floats as in the float rule
R_INT = re.compile(r"[-+]?0b[01_]+|[-+]?0[0-7_]+|[-+]?(0|[1-9][0-9_]*)|[-+]?0x[0-9a-fA-F_]+|[-+]?[1-9][0-9_]*(:[0-5]?[0-9])+")
R_FLOAT = [r"[-+]?[0-9]+(_[0-9]+)*\.[0-9_]*([eE][-+]?[0-9]+)?", r"[-+]?[0-9]+(_[0-9]+)*[eE][-+]?[0-9]+", r"[-+]?[0-9]+(_[0-9]+)*(:[0-5]?[0-9])+\.[0-9_]*", r"[-+]?\.(inf|Inf|INF)", r"\.(nan|NaN|NAN)",
           r"\.[0-9]+(_[0-9]+)*([eE][-+][0-9]+)?",
           # PyYAML's own rule, which stays in force
           r"[-+]?[0-9][0-9_]*\.[0-9_]*([eE][-+][0-9]+)?", r"\.[0-9][0-9_]*([eE][-+][0-9]+)?", r"[-+]?[0-9][0-9_]*(:[0-5]?[0-9])+\.[0-9_]*"]
R_FLOAT = re.compile("|".join(R_FLOAT))
BOOLS = {"yes": True, "no": False, "true": True, "false": False, "on": True, "off": False}


def scalar(s):
    """-> expected value or ('skip',)"""
    if s in ("", "~", "null", "Null", "NULL"):
        return None
    if s.lower() in BOOLS and s in (s.lower(), s.upper(), s.capitalize()):
        return BOOLS[s.lower()]
    if R_INT.fullmatch(s):
        t = s.replace("_", "")
        sign = -1 if t[:1] == "-" else 1
        t = t.lstrip("+-")
        try:
            if t == "0":
                return 0
            if t.startswith("0b"):
                return sign * int(t[2:], 2)
            if t.startswith("0x"):
                return sign * int(t[2:], 16)
            if t[0] == "0":
                return sign * int(t, 8)
            if ":" in t:
                v = 0
                for p in t.split(":"):
                    v = v * 60 + int(p)
                return sign * v
            return sign * int(t)
        except ValueError:
            return ("skip",)
    if R_FLOAT.fullmatch(s):
        t = s.replace("_", "").lower()
        sign = -1 if t[:1] == "-" else 1
        t = t.lstrip("+-") if t[:1] in "+-" else t
        if t == ".inf":
            return sign * math.inf
        if t == ".nan":
            return math.nan
        if ":" in t:
            v, base = 0.0, 1
            for p in reversed(t.split(":")):
                v += float(p) * base
                base *= 60
            return sign * v
        try:
            return sign * float(t)
        except ValueError:
            return ("skip",)
    return s


def plain_safe(s):
    """written without quotes, is the text one plain scalar?"""
    return s == s.strip() and not s.startswith(("- ", "? ", ": ", "#", "%", "@", "`", "&", "*", "!", "|", ">", "'", '"', "[", "]", "{", "}", ",")) and not s.startswith(("---", "...")) and s not in ("-", "?", ":", "---", "...", "=", "<<") and ": " not in s and " #" not in s and not s.endswith(":") and all(32 <= ord(ch) < 127 for ch in s) and s != "???" and "${" not in s and not re.match(r"[-?:](\s|$)", s)


def typing(items, res):
    items = [s for s in items if plain_safe(s)]
    res.count("evaluations", 2 * len(items))

    def exp(s):
        return scalar(s)
    good_ = []
    for s in items:
        e = exp(s)
        if e != ("skip",):
            good_.append((s, e))

    def go(xs):
        text = "".join(f"- {s}\n" for s, _ in xs)
        try:
            got = OmegaConf.to_container(OmegaConf.create(text))
            ok = enc(got) == enc([e for _, e in xs])
        except Exception as ex:
            got, ok = show_exc(ex), False
        if ok:
            return
        if len(xs) == 1:
            res.violation(f"scalar {xs[0][0]!r}", f"the scalar {xs[0][0]!r} loads as {got!r}, expected {xs[0][1]!r}", dict(kind="scalar", s=xs[0][0]))
            return
        go(xs[:len(xs) // 2])
        go(xs[len(xs) // 2:])
    if good_:
        go(good_)
        # the same through the command line
        for s, e in good_[:: 7]:
            res.count("evaluations")
            got = OmegaConf.from_dotlist(["k=" + s]).k
            if enc(got) != enc(e):
                res.violation(f"dotlist {s!r}", f"from_dotlist(['k={s}']).k is {got!r}, expected {e!r}", dict(kind="scalar", s=s))


# ---------------------------------------------------------------- shapes
LEAVES = [1, "1", None, "x: y", True, 0.5, "", "a\nb"]
KEYS = ["a", "1", 1, 0.5, True, b"a", "a b", "", None]


def shapes(n, leaves, keys):
    """all contents with exactly n nodes below the root"""
    def conts(n):
        # lists and dicts with n nodes
        yield from lists(n)
        yield from dicts(n)

    def vals(n):
        if n == 1:
            yield from leaves
            yield []
            yield {}
        else:
            yield from conts(n - 1)

    def split(n):
        if n == 0:
            yield ()
        for k in range(1, n + 1):
            for rest in split(n - k):
                yield (k,) + rest

    def lists(n):
        for parts in split(n):
            for xs in itertools.product(*[list(vals(k)) for k in parts]):
                yield list(xs)

    def dicts(n):
        for parts in split(n):
            for ks in itertools.permutations(keys, len(parts)):
                for xs in itertools.product(*[list(vals(k)) for k in parts]):
                    d = dict(zip(ks, xs))
                    if len(d) == len(ks):
                        yield d
    yield from conts(n)


# ---------------------------------------------------------------- driver
def one(w, res):
    kind, arg = w
    if kind == "strings":
        strings(arg, res)
        res.sample(f"strings {arg[0]!r} .. {arg[-1]!r} as element, value, key, nested")
    elif kind == "alpha":
        alpha, n, first = arg
        deep = alpha is TOKENS or n < 3 or DEEP
        batch = []
        for t in itertools.product(alpha, repeat=n - len(first)):
            batch.append("".join(first + t))
            if len(batch) == 400:
                strings(batch, res, deep=deep)
                batch = []
        strings(batch, res, deep=deep)
        res.sample(f"all strings of {n} characters starting {first!r}")
    elif kind == "typing":
        alpha, n, first = arg
        batch = []
        for t in itertools.product(alpha, repeat=n - len(first)):
            batch.append("".join(first + t))
            if len(batch) == 400:
                typing(batch, res)
                batch = []
        typing(batch, res)
    elif kind == "typewords":
        typing(arg, res)
    elif kind == "values":
        vals = arg
        res.count("evaluations", 2 * len(vals))
        for v in vals:
            res.seen(repr(v))
        bisect(vals, lambda xs: list(xs), res, "element")
        bisect(vals, lambda xs: {"d": {f"k{i}": [x] for i, x in enumerate(xs)}}, res, "value")
        ks = [v for v in vals if not isinstance(v, Path)]
        bisect(list({repr(k): k for k in ks}.values()), lambda xs: {"d": [{x: 0} for x in xs]}, res, "key")
    elif kind == "shapes":
        for c in arg:
            res.count("evaluations")
            res.seen(repr(c))
            e = good(c, eq=True)
            if e:
                res.violation(f"shape {c!r}", f"{c!r} through to_yaml and create {e}", dict(kind="one", content=repr(c), route="create"))
        res.sample(f"shapes like {arg[-1]!r}")
    elif kind == "shaperoutes":
        for c in arg:
            for route in ROUTES:
                res.count("evaluations")
                e = good(c, route, eq=True)
                if e:
                    res.violation(f"shape {c!r} {route}", f"{c!r} through {route} {e}", dict(kind="one", content=repr(c), route=route))
            res.count("evaluations")
            try:
                e = plain_same(c)
            except Exception as ex:
                e = f"raises {show_exc(ex)}"
            if e:
                res.violation(f"plain {c!r}", f"{c!r} {e}", dict(kind="one", content=repr(c), route="plain"))
        res.sample(f"shapes like {arg[-1]!r} through files and streams")
    elif kind == "routes":
        for route in ROUTES:
            strings(arg, res, route)
            res.sample(f"route {route}: {arg[:3]!r}..")
    elif kind == "sorted":
        for ks in itertools.permutations(["b", "a", "B", "10", "9", "é"], 4):
            for c in ({k: 1 for k in ks}, [{"z": {k: [{k2: 2 for k2 in ks}] for k in ks}}]):
                res.count("evaluations")
                e = good(c, "sorted")
                if e:
                    res.violation(f"sorted {c!r}", f"{c!r} through to_yaml(sort_keys=True) {e}", dict(kind="one", content=repr(c), route="sorted"))


DEEP = False


def check(tier):
    global DEEP
    th = DEEP = tier == "thorough"
    work = []
    for alpha, n in [(NUM, 1), (NUM, 2), (NUM, 3), (NUM, 4)] + ([(NUM, 5)] if th else [(NUM5, 5)]):
        for f in itertools.product(alpha, repeat=max(0, n - 3)):
            work.append(("alpha", (alpha, n, f)))
            work.append(("typing", (alpha, n, f)))
    work.append(("alpha", (SPECIAL, 1, ())))
    for f in SPECIAL:
        work.append(("alpha", (SPECIAL, 2, (f,))))
    sp = SPECIAL if th else SPECIAL3
    for f in itertools.product(sp, repeat=1):
        work.append(("alpha", (sp, 3, f)))
    for f in itertools.product(TOKENS, repeat=1 + th):
        work.append(("alpha", (TOKENS, 4 + th, f)))
    for ch in chunks(words(), 150):
        work.append(("strings", ch))
        work.append(("typewords", ch))
    for ch in chunks(INTS + FLOATS, 60):
        work.append(("values", ch))
    work.append(("values", BYTES))
    work.append(("values", [True, False]))
    work.append(("shapes", [[p] for p in (Path("a"), Path("a b/c"), Path("/x/é"), Path("."), PosixPath("1"))]))
    sh = [s for n in (0, 1, 2) for s in shapes(n, LEAVES, KEYS[:-1])] + list(shapes(3, LEAVES[:5] if th else LEAVES[:3], KEYS[:6] if th else KEYS[:4])) + list(shapes(4, LEAVES[:2], KEYS[:2]))
    if th:
        sh += list(shapes(5, LEAVES[:1], KEYS[:2]))
    for ch in chunks(sh, 300):
        work.append(("shapes", ch))
    sr = [s for n in (0, 1) for s in shapes(n, LEAVES, KEYS[:-1])] + list(shapes(2, LEAVES if th else LEAVES[:4], KEYS[:-1] if th else KEYS[:4]))
    for ch in chunks(sr, 60):
        work.append(("shaperoutes", ch))
    for ch in chunks(words()[::5] + ["".join(t) for t in itertools.product(TOKENS, repeat=2)] + ["".join(t) for t in itertools.product(SPECIAL, repeat=2)][::3], 200):
        work.append(("routes", ch))
    work.append(("sorted", None))
    return parallel(one, work)


def replay(case, res):
    if case["kind"] == "scalar":
        typing([case["s"]], res)
    else:
        c = eval(case["content"])
        e = plain_same(c) if case["route"] == "plain" else good(c, case["route"])
        if e:
            res.violation("replay", f"{c!r} {e}", case)
