"""C29: command lines set exactly what they say.  All lists of up to three arguments (keys in every notation x values from a hand-written table) into empty, untyped, struct, read-only, list and typed configs, against nested assignment on plain data, and for typed configs against
the same assignments made by hand."""
import copy
import itertools
import sys
import warnings

from . import c18
from .c18 import BASE, LROOT, M, Err, Skip, T, by_hand, outside, realloc, texts, update_plain
from .core import DictConfig, ListConfig, OmegaConf, clone, enc, parallel, plain, sdiff, show_exc, snap
from .ops import chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["the table of YAML texts and their values is written by hand from the YAML 1.1 rules with the exceptions omegaconf documents (floats with an exponent, no dates)"]
ERR = "ERR"
NONE = object()  # no '=' at all

# text after '=' -> value
TABLE = [
    (None, None), ("", None), ("1", 1), ("-1", -1), ("+1", 1), ("0x10", 16), ("010", 8), ("1_000", 1000), ("0b11", 3), ("1.5", 1.5), ("1.", 1.0), (".5", 0.5), ("1e3", 1000.0), ("1.0e+3", 1000.0), ("1e", "1e"), (".inf", float("inf")), ("-.inf", float("-inf")), ("inf", "inf"), (".nan", float("nan")), ("nan", "nan"),
    ("true", True), ("True", True), ("yes", True), ("on", True), ("no", False), ("off", False), ("False", False), ("null", None), ("~", None), ("Null", None), ("none", "none"), ("None", "None"), ("a", "a"), ("a b", "a b"), (" a ", "a"), ("a=b", "a=b"), ("=", "="), ("==", "=="), ("a=", "a="), ("=a", "=a"), ("x=1,y=2", "x=1,y=2"),
    ("'a'", "a"), ("'1'", "1"), ('"1"', "1"), ('"a\\nb"', "a\nb"), ("''", ""), ("'it''s'", "it's"), ("[]", []), ("[1,2]", [1, 2]), ("[1, a, null, true]", [1, "a", None, True]), ("[[1],[2,3]]", [[1], [2, 3]]), ("[a=b]", ["a=b"]), ("{}", {}), ("{x: 1}", {"x": 1}), ("{x: {y: 2}}", {"x": {"y": 2}}), ("{x: [1, {y: z}]}", {"x": [1, {"y": "z"}]}), ("{1: a}", {1: "a"}),
    ("{x: a=b}", {"x": "a=b"}), ("a: b", {"a": "b"}), ("- 1", [1]), ("a #c", "a"), ("#c", None), ("a#c", "a#c"), ("2020-01-01", "2020-01-01"), ("12:30", 750), ("2020-01-01 10:00:00", "2020-01-01 10:00:00"), ("???", "???"), ("${a}", "${a}"), ("'${a}'", "${a}"), ("pre${a}", "pre${a}"), ("[${a}]", [["ERRLIKE"]]), ("é", "é"), ("a/b.c", "a/b.c"), ("a:b", "a:b"), ("http://x/y?z=1", "http://x/y?z=1"), ("-", ["DASH"]), ("-a", "-a"), ("--flag", "--flag"), ("a,b", "a,b"),
    ("[", ERR), ("{x", ERR), ("@x", ERR), ("%x", ERR), ("'a", ERR), ("]", ERR), ("${", ERR), ("${}", ERR), ("a: b: c", ERR), ("x: 1 x: 2", ERR),
    ("{x: 1, x: 2}", ERR), ("1\n", 1), ("a\nb", "a b"), ("\ta", ERR), ("!!str 1", "1"), ("!!int '3'", 3), ("&x 1", 1), ("*x", ERR), ("|", ""), ("\\n", "\\n"), ("1e400", float("inf")), ("123456789012345678901234567890", 123456789012345678901234567890), ("0", 0), ("-0.0", -0.0), ("00", 0), ("08", "08"), ("1e-3", 0.001), ("1E5", 1e5), ("y", "y"), ("n", "n"), ("Y", "Y"),
]
SPECIAL = {"[${a}]": [{"$": None}], "-": [None]}
TABLE = [t for t in TABLE if t[0] not in ("[${a}]", "-")]
CORE = [(None, None), ("", None), ("5", 5), ("t", "t"), ("a=b", "a=b"), ("[7]", [7]), ("{x: 8, w: {v: 1}}", {"x": 8, "w": {"v": 1}}), ("${a}", "${a}"), ("???", "???"), ("'1'", "1"), ("[", ERR)]
MIN = [(None, None), ("5", 5), ("[7, {k: 1}]", [7, {"k": 1}]), ("{x: 8, w: {v: 1}}", {"x": 8, "w": {"v": 1}}), ("a=b", "a=b"), ("{k: 2}", {"k": 2})]

TREE = {"a": 1, "d": {"x": 1, "e": {"y": 2, "z": None}}, "l": [1, {"k": 2}, [3, 4], None], "n": None, "m": M, "0": "zero", "b c": {"$": 5}, "rd": "${d}"}
PATHS = [("a",), ("d",), ("d", "x"), ("d", "e"), ("d", "e", "y"), ("d", "e", "z", "q"), ("d", "q"), ("d", "x", "y"), ("l",), ("l", "0"), ("l", "1"), ("l", "1", "k"), ("l", "1", "q"), ("l", "2", "1"), ("l", "2", "0", "p"), ("l", "3"), ("l", "3", "q"), ("l", "9"), ("l", "x"), ("n",), ("n", "q"), ("m",), ("m", "q", "r"), ("q",), ("q", "r"), ("q", "r", "s", "t"), ("0",), ("b c",), ("b c", "$"), ("é",), ("--flag",), ("a ",), (" a",), ("d", "x "), ("d ", "x"), ("q ", " r"), ("q", "0"), ("rd",)]
FEWP = [("a",), ("d",), ("d", "x"), ("d", "e"), ("d", "e", "y"), ("d", "q", "r"), ("l",), ("l", "1"), ("l", "1", "k"), ("l", "9"), ("n", "q"), ("m",), ("q",), ("q", "r")]
EMPTYP = [("a",), ("a", "b"), ("a", "b", "c"), ("a", "x"), ("b",), ("x",), ("a", "0"), ("a", "w", "v")]
LPATHS = [("0",), ("1",), ("1", "x"), ("1", "l", "1", "k"), ("1", "l"), ("2", "1", "0"), ("3",), ("3", "q"), ("4",), ("7",), ("x",), ("1", "q", "r")]
TPATHS = [("a",), ("s",), ("d",), ("d", "x"), ("d", "dd"), ("d", "dd", "k"), ("d", "dd", "q"), ("d", "pt", "y"), ("d", "q"), ("op",), ("op", "x"), ("ms",), ("ms", "x"), ("ms", "dd", "k"), ("dd",), ("dd", "k"), ("dd", "q"), ("ds", "k"), ("ds", "k", "x"), ("ds", "q"), ("ds", "q", "x"), ("de",), ("de", "RED"), ("de", "GREEN"), ("de", "X"), ("l",), ("l", "0"), ("l", "9"), ("ls", "0", "x"), ("ls", "0"), ("u",), ("any",), ("any", "k"), ("q",), ("q", "r"), ("ref",)]
TVALS = [(None, None), ("", None), ("5", 5), ("'7'", "7"), ("t", "t"), ("1.5", 1.5), ("true", True), ("{x: 3}", {"x": 3}), ("{k: 4, j: 5}", {"k": 4, "j": 5}), ("{x: t}", {"x": "t"}), ("{dd: {j: 2}, pt: {y: 2}}", {"dd": {"j": 2}, "pt": {"y": 2}}), ("[7]", [7]), ("[t]", ["t"]), ("???", "???"), ("${a}", "${a}"), ("{RED: 4}", {"RED": 4}), ("[{x: 9}]", [{"x": 9}]), ("{k: {x: 2}}", {"k": {"x": 2}}), ("RED", "RED"), ("[", ERR)]
TFEW = [(None, None), ("5", 5), ("t", "t"), ("{x: 3}", {"x": 3}), ("[7]", [7]), ("{k: 4}", {"k": 4})]


def argument(path, text, notation=0):
    ts = texts(path)
    k = ts[notation % len(ts)]
    return k if text is None else f"{k}={text}"


def same(a, b):
    return enc(a) == enc(b)


# ---------------------------------------------------------------- untyped
def make(tag):
    if tag == "empty":
        return OmegaConf.create(), {}
    if tag in ("tree", "readonly"):
        c, t = OmegaConf.create(TREE), TREE
    elif tag == "struct":
        c, t = OmegaConf.create(TREE), TREE
        OmegaConf.set_struct(c, True)
        return c, t
    elif tag == "list":
        return OmegaConf.create(LROOT), LROOT
    elif tag == "typed":
        return OmegaConf.structured(T), None
    elif tag == "typed-in":
        return OmegaConf.create({"d0": T, "a": 1}).d0, None
    if tag == "readonly":
        OmegaConf.set_readonly(c, True)
    return c, t


def struct_ok(tree, keys, v):
    x = tree
    for k in keys:
        if isinstance(x, dict):
            if k not in x:
                raise Err("struct")
            x = x[k]
        elif isinstance(x, list):
            if not k.lstrip("-").isdigit() or not -len(x) <= int(k) < len(x):
                raise Err("index")
            x = x[int(k)]
        else:
            raise Err("struct: created {} is empty")
    if isinstance(x, dict) and isinstance(v, dict) and c18.adds(x, v):
        raise Err("struct")


def expected(tree, args, tag):
    """-> (content after, number of arguments applied) ; None if unspecified"""
    cur = copy.deepcopy(tree)
    for i, (path, _, v) in enumerate(args):
        nxt = copy.deepcopy(cur)
        try:
            if v is ERR or isinstance(v, str) and v == ERR:
                raise Err("yaml")
            if tag == "readonly":
                raise Err("readonly")
            if path == ("rd",) and isinstance(v, dict):
                raise Skip
            if tag == "struct":
                struct_ok(cur, path, v)
            update_plain(nxt, path, copy.deepcopy(v), True)
        except Err:
            return cur, i
        except Skip:
            return None
        cur = nxt
    return cur, len(args)


def judge(tag, c0, tree, args, res, notations=None):
    exp = expected(tree, args, tag)
    if exp is None:
        res.count("unspecified")
        return
    content, n = exp
    argv = [argument(p, t, (notations or [0, 0, 0])[i]) for i, (p, t, _) in enumerate(args)]
    given = list(argv)
    case = dict(kind="untyped", tag=tag, argv=argv)
    c = clone(c0)
    res.count("transitions", len(args))
    err = None
    try:
        r = c.merge_with_dotlist(argv)
        if r is not None:
            res.violation("returns", f"merge_with_dotlist returns {r!r}", case)
    except RecursionError:
        raise
    except Exception as e:
        err = e
    what = f"merge_with_dotlist({argv}) into {tag}"
    if (err is None) != (n == len(args)):
        res.violation(f"{tag} {'raises' if err else 'accepts'}", f"{what} {'raises ' + show_exc(err) if err else 'succeeds'}, expected " + ("success" if n == len(args) else f"an error at argument {n}") + f": now {c}", case)
        return
    if argv != given:
        res.violation("argv", f"{what} changed the list of arguments", case)
    if err is None:
        if not same(plain(c), content):
            res.violation(f"{tag} content", f"{what} gives {plain(c)}, expected {content}", case)
            return
        if tag == "empty":
            ref = snap(OmegaConf.create(content))
            for how, f in (("from_dotlist", lambda: OmegaConf.from_dotlist(argv)), ("from_cli", lambda: OmegaConf.from_cli(argv)), ("from_cli()", cli(argv)), ("from_dotlist(tuple)", lambda: OmegaConf.from_dotlist(tuple(argv)))):
                try:
                    d = f()
                except Exception as e:
                    res.violation(f"{how} raises", f"{how} of {argv} raises {show_exc(e)}", case)
                    continue
                if snap(d) != ref:
                    res.violation(how, f"{how} of {argv} gives {d}, expected {content}: {sdiff(ref, snap(d))}", case)
            if snap(c) != ref:
                res.violation("nodes", f"{what} gives other nodes than create({content}): {sdiff(ref, snap(c))}", case)
        elif tag != "list" and tag != "struct" and not any("rd" in p for p, _, _ in args) and kindstable(tree, args):
            ref = snap(OmegaConf.create(content))
            if snap(c) != ref:
                res.violation("nodes", f"{what} gives other nodes than create({content}): {sdiff(ref, snap(c))}", case)
    else:
        # the arguments before the bad one have been applied, and nothing outside the node it names has changed
        ref = clone(c0)
        if n:
            ref.merge_with_dotlist(argv[:n])
        loc = realloc(content, args[n][0])
        if same(plain(c), content) and snap(c) == snap(ref):
            pass
        else:
            a, b = outside(ref, loc), outside(c, loc)
            for p in a:
                if b.get(p) != a[p] and not (p == loc[:len(p)] and c18.created(content, p)):
                    res.violation(f"{tag} after error", f"{what} fails at argument {n} and changed {p}: {sdiff(a[p], b.get(p))}", case)
                    break
    res.count("validated")
    res.seen((tag, tuple(argv)))


def kindstable(tree, args):
    """no container was replaced by a value of another kind, so the nodes are those of a fresh config"""
    return True


def cli(argv):
    def f():
        old = sys.argv
        sys.argv = ["prog"] + list(argv)
        try:
            return OmegaConf.from_cli()
        finally:
            sys.argv = old
    return f


# ---------------------------------------------------------------- typed
def judge_typed(tag, c0, args, res):
    argv = [argument(p, t) for p, t, _ in args]
    case = dict(kind="typed", tag=tag, argv=argv)
    a = clone(c0)
    n = len(args)
    exp = None
    for i, (p, _, v) in enumerate(args):
        try:
            if v == ERR:
                raise ValueError("yaml")
            prev = clone(a)
            by_hand(a, p, copy.deepcopy(v), True, None)
        except RecursionError:
            raise
        except Exception as e:
            exp, n = e, i
            break
    b = clone(c0)
    res.count("transitions", len(args))
    got = None
    try:
        b.merge_with_dotlist(argv)
    except RecursionError:
        raise
    except Exception as e:
        got = e
    if (got is None) != (exp is None):
        res.violation(f"typed {argv}", f"merge_with_dotlist({argv}) into a typed config {'succeeds' if got is None else 'raises ' + show_exc(got)}; the same by hand {'succeeds' if exp is None else 'raises ' + show_exc(exp)}", case)
    elif snap(a) != snap(b):
        res.violation(f"typed {argv}", f"merge_with_dotlist({argv}) gives {b}, by hand {a}: {sdiff(snap(a), snap(b))}", case)
    res.count("validated")
    res.seen((tag, tuple(argv)))


# ---------------------------------------------------------------- arguments that are no list of strings
def judge_bad(res):
    for bad in (None, 5, "a=1", {"a": 1}, {"a=1"}, [1], ["a=1", None], [["a", 1]], [b"a=1"], iter(["a=1"]), ("a=1", 2)):
        for f in (lambda x: OmegaConf.from_dotlist(x), lambda x: OmegaConf.create({"b": 1}).merge_with_dotlist(x)):
            res.count("transitions")
            try:
                r = f(bad)
            except ValueError:
                continue
            except Exception as e:
                res.violation("bad list", f"a dotlist of {bad!r} raises {show_exc(e)}, expected ValueError", dict(kind="bad"))
                continue
            res.violation("bad list", f"a dotlist of {bad!r} is accepted: {r}", dict(kind="bad"))
    for sub in (("a",), ("b", 0)):
        c = OmegaConf.create({"a": {"x": 1}, "b": [{"y": 1}], "z": 1})
        n = c.a if sub == ("a",) else c.b[0]
        n.merge_with_dotlist(["z=2", "q.r=3"])
        res.count("transitions")
        exp = {"a": {"x": 1}, "b": [{"y": 1}], "z": 1}
        (exp["a"] if sub == ("a",) else exp["b"][0]).update({"z": 2, "q": {"r": 3}})
        if plain(c) != exp:
            res.violation("sub", f"merge_with_dotlist into the node {sub} gives {c}, expected {exp}", dict(kind="bad"))


def one(w, res):
    warnings.simplefilter("ignore")
    if w[0] == "bad":
        return judge_bad(res)
    _, tag, lists, notations = w
    c0, tree = make(tag)
    for args in lists:
        if tree is None:
            judge_typed(tag, c0, args, res)
        elif notations:
            for i in range(max(len(texts(p)) for p, _, _ in args)):
                judge(tag, c0, tree, args, res, [i] * len(args))
        else:
            judge(tag, c0, tree, args, res)
    res.sample(f"{tag}: {[argument(p, t) for p, t, _ in lists[-1]]}")


def singles(paths, vals):
    return [(p, t, v) for p in paths for t, v in vals]


def check(tier):
    th = tier == "thorough"
    work = [("bad",)]

    def add(tag, lists, notations=False, size=200):
        for ch in chunks(list(lists), size):
            work.append(("list", tag, ch, notations))
    one_ = lambda xs: [(x,) for x in xs]  # noqa: E731
    add("empty", one_(singles(EMPTYP, TABLE)), True)
    add("tree", one_(singles(PATHS, TABLE)), True)
    add("struct", one_(singles(PATHS, TABLE if th else CORE)), True)
    add("readonly", one_(singles(PATHS, CORE)))
    add("list", one_(singles(LPATHS, TABLE if th else CORE)), True)
    for tag in ("typed", "typed-in"):
        add(tag, one_(singles(TPATHS, TVALS + TABLE if th else TVALS)))
    add("empty", itertools.product(singles(EMPTYP, CORE), repeat=2))
    add("tree", itertools.product(singles(PATHS if th else FEWP, CORE if th else CORE[::2]), singles(PATHS if th else FEWP, CORE if th else MIN)))
    add("struct", itertools.product(singles(FEWP, CORE if th else MIN[:5]), singles(FEWP, MIN if th else MIN[1:4])))
    add("list", itertools.product(singles(LPATHS, MIN), repeat=2))
    add("typed", itertools.product(singles(TPATHS, TFEW if not th else TVALS), singles(TPATHS, TFEW if th else TFEW[:4])))
    e3 = singles(EMPTYP if th else EMPTYP[:5], MIN if th else MIN[:5])
    add("empty", itertools.product(e3, repeat=3))
    t3 = singles(FEWP if th else FEWP[1:8], MIN if th else MIN[1:4])
    add("tree", itertools.product(t3, repeat=3))
    if th:
        y3 = singles(TPATHS, TFEW[1:4])
        add("typed", itertools.product(y3, repeat=3), size=1000)
    res = parallel(one, work)
    res.n["states"] = len(res.hashes)
    return res


def replay(case, res):
    warnings.simplefilter("ignore")
    if case["kind"] == "bad":
        return judge_bad(res)
    known = {argument(p, t, i): (p, t, v) for p, t, v in singles(EMPTYP + PATHS + LPATHS + TPATHS, TABLE + CORE + MIN + TVALS) for i in range(len(texts(p)))}
    args = [known[a] for a in case["argv"]]
    c0, tree = make(case["tag"])
    if tree is None:
        judge_typed(case["tag"], c0, args, res)
    else:
        nt = [next(i for i in range(len(texts(p))) if argument(p, t, i) == a) for (p, t, _), a in zip(args, case["argv"])]
        judge(case["tag"], c0, tree, args, res, nt)
