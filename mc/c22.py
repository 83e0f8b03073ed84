"""C22: the interpolation grammar means what its documentation says.  All strings up to a length over several alphabets, against a reference lexer, parser and evaluator."""
import itertools
import warnings

from . import gram
from .core import DictConfig, ListConfig, OmegaConf, Result, enc, parallel, show_exc
from .ops import chunks
from omegaconf import AnyNode
from omegaconf.errors import GrammarParseError, InterpolationResolutionError
from omegaconf.grammar_parser import parse
from omegaconf.grammar_visitor import GrammarVisitor

LEVEL = "model_checking"
ASSUMPTIONS = ["the grammar is the one in docs/source/grammar.rst completed by the token rules of the .g4 files",
               "characters outside the alphabets behave like their representative (letters like 'a', digits like '1')"]


# ---------------------------------------------------------------- the two sides
def node_value(key):
    k = key.strip("[].")
    if k == "i":
        return 7
    if k == "n":
        return None
    if k == "l":
        return [1, "x"]
    return f"<{key}>"


def resolver_value(name, args, texts):
    if name == "s":
        return "a" if not args else str(args[0])
    if name == "i":
        return args
    return f"{name}({args!r}{texts!r})"


REF = gram.Eval(node_value, resolver_value)


def ref(s, element):
    try:
        t = gram.parse_element(s) if element else gram.parse_value(s)
    except gram.Reject:
        return ("reject",)
    try:
        return ("ok", enc(REF.value(t)))
    except gram.BadType:
        return ("badtype",)
    except TypeError:
        return ("unhashable",)


def visitor():
    return GrammarVisitor(node_interpolation_callback=lambda inter_key, memo: node_value(inter_key), resolver_interpolation_callback=lambda name, args, args_str: resolver_value(name, args, args_str), memo=None)


def real(s, element):
    try:
        t = parse(s, parser_rule="singleElement", lexer_mode="VALUE_MODE") if element else parse(s)
    except GrammarParseError:
        return ("reject",)
    except RecursionError:
        raise
    except Exception as e:
        return ("error", show_exc(e))
    try:
        return ("ok", enc(visitor().visit(t)))
    except InterpolationResolutionError:
        return ("badtype",)
    except TypeError:
        return ("unhashable",)
    except Exception as e:
        return ("error", show_exc(e))


def compare(s, element, res):
    a, b = ref(s, element), real(s, element)
    res.count("transitions")
    res.count("accepted" if a[0] == "ok" else "rejected")
    if a != b:
        what = "element" if element else "config value"
        res.violation(f"{what} {s!r}", f"the {what} {s!r} means {a} by the grammar, the implementation gives {b}", dict(s=s, element=element))
    return a


# ---------------------------------------------------------------- the public way
def public(s, res):
    """through a config: stored, read back, and as an argument of oc.decode"""
    exp = ref_public(s, False)
    res.count("public")
    case = dict(s=s, public=True)
    try:
        c = OmegaConf.create({"a": 1, "i": 7, "k": s})
        got = ("ok", enc(c.k if not isinstance(c.k, (DictConfig, ListConfig)) else OmegaConf.to_container(c.k, resolve=True)))
        raw = c._get_node("k")._value()
        if raw != s or type(raw) is not str:
            res.violation(f"stored {s!r}", f"the string {s!r} is stored as {raw!r}", case)
    except GrammarParseError:
        got = ("reject",)
    except Exception as e:
        got = ("other", type(e).__name__)
    if exp[0] == "reject" and got[0] != "reject" or exp[0] == "ok" and got != exp:
        res.violation(f"read {s!r}", f"OmegaConf.create({{'a': 1, 'i': 7, 'k': {s!r}}}).k gives {got}, expected {exp}", case)


class Fail(Exception):
    pass


def pub_node(key):
    k = key[1:] if key.startswith(".") and not key.startswith("..") else key
    k = k[1:-1] if k.startswith("[") and k.endswith("]") else k
    if k == "a":
        return 1
    if k == "i":
        return 7
    raise Fail


def pub_res(name, args, texts):
    if name == "id" and len(args) == 1:
        return args[0]
    raise Fail


PUB = gram.Eval(pub_node, pub_res)


def ref_public(s, element):
    if "${" not in s:
        return ("ok", enc(s)) if s != "???" else ("other",)
    try:
        t = gram.parse_value(s)
    except gram.Reject:
        return ("reject",)
    try:
        v = PUB.value(t)
        return ("ok", enc(v)) if isinstance(v, (str, int, float, type(None))) and v != "???" else ("other",)
    except (Fail, gram.BadType, TypeError):
        return ("other",)


def decode(s, res):
    """oc.decode of the text"""
    res.count("public")
    CUR[0] = s
    try:
        t = gram.parse_element(s)
        v = PUB.value(t)
        exp = ("ok", v)
    except gram.Reject:
        exp = ("reject",)
    except (Fail, gram.BadType, TypeError):
        return
    c = OmegaConf.create({"a": 1, "i": 7, "k": "${oc.decode:${raw:}}"})
    case = dict(s=s, decode=True)
    try:
        g = c.k
        got = ("ok", OmegaConf.to_container(g, resolve=True) if isinstance(g, (DictConfig, ListConfig)) else g)
    except GrammarParseError:
        got = ("reject",)
    except InterpolationResolutionError as e:
        got = ("reject",) if "GrammarParseError" in str(e) else ("exc", e)
    except Exception as e:
        got = ("exc", e)
    if exp[0] == "ok" and isinstance(exp[1], (dict, list)):
        def weird(v):
            return isinstance(v, dict) and any(k is None or weird(x) for k, x in v.items()) or isinstance(v, list) and any(map(weird, v)) or isinstance(v, str) and ("${" in v or v == "???")
        if weird(exp[1]):
            return
    if exp[0] == "ok" and isinstance(exp[1], str) and ("${" in exp[1] or exp[1] == "???"):
        return
    if exp[0] != got[0] or exp[0] == "ok" and enc(exp[1]) != enc(got[1]):
        res.violation(f"decode {s!r}", f"oc.decode of {s!r} gives {got}, expected {exp}", case)


CUR = [""]


# ---------------------------------------------------------------- spaces
CV = "a$\\{}:.['\" ,"                 # config values
VA = "a1-.+e_:,[]{}'\"\\ $(=n"        # elements
CVTOK = ["${", "}", "a", ".", ":", "[", "]", "\\", "'", '"', " ", ",", "$", "1", "-"]
VATOK = ["${", "}", "a", "s", ":", "[", "]", "{", ",", "'", '"', "\\", " ", "1", ".", "-", "null"]
NUMS = "01_.eE+-"
WORDS = ["inf", "nan", "null", "true", "false", "INF", "Nan", "nULL", "TRUE", "False", "tru", "nullx", "-inf", "+nan", "infx", "None", "none"]
ESCS = ["\\", "(", ")", "[", "]", "{", "}", ":", "=", ",", " ", "\t", "a", "'", '"', "$", "\n", "é", "#", ";", "<", "!", "~", "^", "&", "`", "/", "%", "*", "@", "?", "|", "+"]
FRAMES_V = ["{}", "${{s:{}}}", "x${{s:{}}}", "${{{}}}", "${{{}:1}}", "${{a[{}]}}", "${{s:'{}'}}", '${{s:"{}"}}', "${{s:[{}]}}", "${{s:{{a: {}}}}}", "${{s:{{{}: 1}}}}", "${{s:${{s:{}}}}}", "${{i: 1, {}}}", "\\{}", "\\\\{}${{a}}", "'{}'", "${{ {} }}", "${{s: {} }}"]
FRAMES_E = ["{}", "[{}]", "{{{}}}", "{{a: {}}}", "{{{}: 1}}", "'{}'", '"{}"', "[1, {}]", "${{s:{}}}", "[[{}]]", "a{}", "{}b", "[{},]"]


def one(w, res):
    kind, arg = w
    if kind == "seq":
        toks, n, first, element, pub = arg
        for t in itertools.product(toks, repeat=n - len(first)):
            s = "".join(first + t)
            if s:
                compare(s, element, res)
                if pub and res.n.get("transitions", 0) % pub == 0:
                    (decode if element else public)(s, res)
        res.sample(f"all {len(toks)}^{n - len(first)} strings starting {''.join(first)!r} as {'element' if element else 'config value'}")
    elif kind == "framed":
        toks, n, frame, element, first = arg
        for t in itertools.product(toks, repeat=n - len(first)):
            x = "".join(first + t)
            s = frame.replace("{}", "\0").replace("{{", "{").replace("}}", "}").replace("\0", x)
            compare(s, element, res)
        res.sample(f"all {len(toks)}^{n} fillings of {frame} as {'element' if element else 'config value'}")
    elif kind == "list":
        for s, element in arg:
            compare(s, element, res)
            if element:
                decode(s, res)
            else:
                public(s, res)
    res.seen(w)


def setup():
    warnings.simplefilter("ignore")
    OmegaConf.register_new_resolver("raw", lambda: CUR[0], replace=True, use_cache=False)
    OmegaConf.register_new_resolver("id", lambda x: x, replace=True)


def check(tier):
    setup()
    th = tier == "thorough"
    d = 2 if th else 1
    work = []
    for n in range(1, 5 + d):
        for f in itertools.product(CV, repeat=max(0, n - 3)):
            work.append(("seq", (CV, n, f, False, 5)))
    for n in range(1, 4 + d):
        for f in itertools.product(VA, repeat=max(0, n - 2)):
            work.append(("seq", (VA, n, f, True, 5)))
    for n in range(2, 5 + d):
        for f in itertools.product(CVTOK, repeat=max(0, n - 3)):
            work.append(("seq", (CVTOK, n, ("${",) + f, False, 5)))
            if n < 5:
                work.append(("seq", (CVTOK, n + 1, ("\\", "${") + f, False, 0)))
    for n in range(1, 4 + d):
        for f in itertools.product(VATOK, repeat=max(0, n - 2)):
            work.append(("seq", (VATOK, n, f, True, 5)))
    for n in range(1, 5 + d):
        for f in itertools.product(NUMS, repeat=max(0, n - 3)):
            work.append(("seq", (NUMS, n, f, True, 7)))
    for frame in FRAMES_V:
        for n in range(1, 4 if th else 3):
            for f in itertools.product(CVTOK, repeat=max(0, n - 2)):
                work.append(("framed", (CVTOK, n, frame, False, f)))
        work.append(("framed", (ESCS, 2, frame, False, ())))
    for frame in FRAMES_E:
        for n in range(1, 4 if th else 3):
            for f in itertools.product(VATOK, repeat=max(0, n - 2)):
                work.append(("framed", (VATOK, n, frame, True, f)))
        work.append(("framed", (ESCS, 2, frame, True, ())))
    ws = [a + w_ + b for w_ in WORDS for a in ("", "-", "+", " ", "a", "1", ".", "[", "${a}") for b in ("", " ", "a", "1", ".", "-", ":", "${a}", "_")]
    work += [("list", ch) for ch in chunks([(s, e) for s in ws for e in (True, False)] + [(f"${{id:{s}}}", False) for s in ws], 200)]
    # runs of backslashes before everything special
    bs = [p + "\\" * k + q + r for p in ("", "a", "${a}", "'", '"') for k in range(0, 7) for q in ("${a}", "${", "'", '"', "$", "a", "", "[", "$${a}", "{") for r in ("", "'", '"', "b", "}")]
    work += [("list", ch) for ch in chunks([(s, False) for s in bs] + [(f"${{id:{s}}}", False) for s in bs] + [(s, True) for s in bs] + [(f"'{s}'", True) for s in bs] + [(f'"{s}"', True) for s in bs] + [(f"${{id:'{s}'}}", False) for s in bs], 200)]
    work.sort(key=lambda w: -(len(w[1][0]) ** (w[1][1] - len(w[1][2])) if w[0] == "seq" else 0))
    res = parallel(one, work)
    res.n["states"] = res.n.get("accepted", 0)
    res.n["validated"] = res.n.get("transitions", 0)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    setup()
    if case.get("public"):
        public(case["s"], res)
    elif case.get("decode"):
        decode(case["s"], res)
    else:
        compare(case["s"], case["element"], res)
    OmegaConf.clear_resolvers()
