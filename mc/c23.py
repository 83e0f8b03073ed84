"""C23: parsing does not depend on what was parsed before.  All histories of parses (configuration values, elements, valid, broken in every way, nested inside one another) on the parser objects the thread keeps, each
answer compared with the one given by a thread that parses nothing else, and with the reference grammar; and all strings up to a length for the shortcut taken at creation."""
import itertools
import threading
import warnings

from . import gram
from .core import DictConfig, ListConfig, OmegaConf, Result, enc, parallel, show_exc
from .ops import chunks
from omegaconf import grammar_parser
from omegaconf.errors import GrammarParseError, InterpolationResolutionError
from omegaconf.grammar_parser import parse
from omegaconf.grammar_visitor import GrammarVisitor, OmegaConfGrammarLexer, OmegaConfGrammarParser
from omegaconf.vendor.antlr4.dfa.DFA import DFA

LEVEL = "model_checking"
ASSUMPTIONS = ["error messages are part of the answer", "characters outside the alphabets behave like their representative"]

# (string, parsed as an element)
CV = ["${a}", "x${a}y", "${a.b[c]}", "${.a}", "${s:1,b}", "${s:'q ${a}',[1,{k: v}]}", "${${s:a}}", "\\${a}", "\\\\${a}", "plain", "${", "${a", "}", "${a}}", "${a b}", "${s:'x}", "${s:[1,2}", "${s:{a:1}", "${s:1:}}", "${s:}",
      "${s:,}", "${a.}", "${[a}", "${a{}", "${s: ${a }", "${s:'${a'}", "${é}", "${s:é}", "${s:#}", "${a}${", "a${s:\n}", "${s:${s:${s:1}}}"]
EL = ["1", "a", "null", "[1,a]", "{a: 1, b: [2]}", "'q'", '"q ${a}"', "${a}", "a b", " ", "a:b", "}", "{", "[", "]", "'", '"', "{a:1", "{a:1}}", "[1,2", "[1,,2]", "'x", "'x${a'", "#", "a#", "${", "${s:", "${a}}", "", ",", "1,2", "{a}", "'${s:\"x\"}'", "x}", "é"]
ITEMS = [(s, False) for s in CV] + [(s, True) for s in EL]
SMALL = [(s, False) for s in ("${a}", "${s:'q ${a}',[1,{k: v}]}", "${", "${a}}", "${s:'x}", "${s:{a:1}", "${s:1:}}", "${s:é}", "${a b}", "\\${a}")] + [(s, True) for s in ("[1,a]", "'q'", "}", "{", "'x${a'", "{a:1}}", "a#", "", "1,2", "[")]


def fresh():
    """forget everything earlier parses left behind in this process"""
    grammar_parser._grammar_cache = threading.local()


DFAS = [OmegaConfGrammarLexer, OmegaConfGrammarParser]


def forget_tables():
    """the prediction tables ANTLR fills while parsing, shared by all parsers of the process"""
    for cls in DFAS:
        cls.decisionsToDFA[:] = [DFA(ds, i) for i, ds in enumerate(cls.atn.decisionToState)]


def tree(item):
    s, el = item
    try:
        return ("tree", parse(s, parser_rule="singleElement", lexer_mode="VALUE_MODE") if el else parse(s))
    except GrammarParseError as e:
        return ("reject", str(e))
    except Exception as e:
        return ("error", show_exc(e))


def value(t, nested=None):
    if t[0] != "tree":
        return t
    calls = []

    def node(inter_key, memo):
        calls.append(inter_key)
        if nested:
            nested()
        return f"<{inter_key}>"

    def res(name, args, args_str):
        calls.append((name, enc(args), args_str))
        if nested:
            nested()
        return "a" if name == "s" and args == ("a",) else f"{name}{args!r}"
    try:
        v = ("ok", enc(GrammarVisitor(node_interpolation_callback=node, resolver_interpolation_callback=res, memo=None).visit(t[1])))
    except Exception as e:
        v = ("error", show_exc(e))
    return v + (t[1].getText(), tuple(calls))


ALONE = {}


def alone(item):
    if item not in ALONE:
        fresh()
        forget_tables()
        ALONE[item] = value(tree(item))
    return ALONE[item]


def cmp(got, item, res, case, how):
    exp = alone(item)
    res.count("transitions")
    if got != exp:
        res.violation(f"{item} {how}", f"{'element' if item[1] else 'config value'} {item[0]!r} {how}: {got}, alone {exp}", case)


def in_order(h, res):
    case = dict(kind="h", h=h)
    fresh()
    late = []
    for k, it in enumerate(h):
        t = tree(it)
        late.append(t)
        cmp(value(t), it, res, case, f"after {h[:k]}")
    for k, (it, t) in enumerate(zip(h, late)):
        cmp(value(t), it, res, case, f"evaluated after also parsing {h[k + 1:]}")
    res.count("histories")


def nested(a, h, res):
    """while a is being evaluated its resolvers parse h"""
    case = dict(kind="n", a=a, h=h)
    fresh()

    def inner():
        for it in h:
            cmp(value(tree(it)), it, res, case, f"parsed by a resolver during {a}")
    cmp(value(tree(a), inner), a, res, case, f"with {h} parsed by its resolvers")
    for it in h:
        cmp(value(tree(it)), it, res, case, f"after {a} with nested {h}")
    res.count("histories")


# ---------------------------------------------------------------- public
def p_create(s):
    try:
        return ("ok", OmegaConf.create({"a": 1, "k": s})._get_node("k")._value())
    except GrammarParseError as e:
        return ("reject", str(e))
    except Exception as e:
        return ("error", show_exc(e))


def p_read(s):
    """stored without looking at it, then read"""
    try:
        c = OmegaConf.create({"a": 1, "k": 0})
        c._get_node("k")._val = s
        v = c.k
        return ("ok", enc(OmegaConf.to_container(v, resolve=True) if isinstance(v, (DictConfig, ListConfig)) else v))
    except Exception as e:
        return ("error", show_exc(e))


CUR = [""]


def p_decode(s):
    CUR[0] = s
    try:
        v = OmegaConf.create({"a": 1, "k": "${oc.decode:${raw:}}"}).k
        return ("ok", enc(OmegaConf.to_container(v, resolve=True) if isinstance(v, (DictConfig, ListConfig)) else v))
    except Exception as e:
        return ("error", show_exc(e))


def p_inner(s):
    """the string is used by a resolver called by another string"""
    CUR[0] = s
    try:
        return ("ok", enc(OmegaConf.create({"a": 1, "k": "p ${a} ${inner:${a}} q ${inner:2} ${a}"}).k))
    except Exception as e:
        return ("error", show_exc(e))


def inner(x):
    out = []
    for f in (p_create, p_read):
        out.append(f(CUR[0])[0])
    return f"{x}{out}"


PUB = dict(create=p_create, read=p_read, decode=p_decode, inner=p_inner)
PUB_ALONE = {}


def pub_alone(op):
    if op not in PUB_ALONE:
        fresh()
        forget_tables()
        PUB_ALONE[op] = PUB[op[0]](op[1])
    return PUB_ALONE[op]


def public(h, res):
    exps = [pub_alone(op) for op in h]
    fresh()
    for k, op in enumerate(h):
        got = PUB[op[0]](op[1])
        res.count("transitions")
        if got != exps[k]:
            res.violation(f"public {op}", f"{op} after {h[:k]} gives {got}, alone {exps[k]}", dict(kind="p", h=h))
    res.count("histories")


# ---------------------------------------------------------------- the shortcut
QT = ["${", "}", "a", ":", ".", "[", "]", " ", ",", "\\", "1", "\n", "$", "-"]
QT2 = ["${", "}", "a", ":", "\t", "\n", "\r", "\f", "\v", "\xa0", "é", "²", "٣", ",", "\x1c"]
QT3 = ["a", ".", ":", "[", "]", "/", "*", "?", "|", "@", "%", "+", "'", '"', "(", "#", "=", "~", "!", "&", ";", "\u2028"]
FRAMES = ["${@a}", "${a@}", "${a@b}", "${@}", "${s:@}", "${s:a@}", "${s:@,1}", "${s:1,@}", "${s@:1}", "${@s:1}", "${a.@}", "${a[@]}", "${a}@", "@${a}", "${a}@${b}", "x@${s:1}", "${s@1}", "${s.@:1}", "${@.s:1}"]


def accept(s, res):
    """creation accepts what the grammar accepts and refuses the rest"""
    if "${" not in s:
        return
    res.count("transitions")
    res.count("quick")
    try:
        gram.parse_value(s)
        exp = "ok"
    except gram.Reject:
        exp = "reject"
    got = p_create(s)
    if got[0] != exp or exp == "ok" and got[1] != s:
        res.violation(f"create {s!r}", f"OmegaConf.create({{'k': {s!r}}}): {got}, the grammar says {exp}", dict(kind="q", s=s))


def one(w, res):
    k, a = w
    if k == "h":
        forget_tables()
        first, al, n = a
        for rest in itertools.product(al, repeat=n - len(first)):
            in_order(first + rest, res)
        res.sample(f"all histories of {n} parses starting {first}")
    elif k == "n":
        forget_tables()
        x, al = a
        for y in al:
            nested(x, (y,), res)
            for z in SMALL:
                nested(x, (y, z), res)
    elif k == "p":
        forget_tables()
        first, al, n = a
        for rest in itertools.product(al, repeat=n - len(first)):
            public(first + rest, res)
    elif k == "q":
        al, n, first = a
        for t in itertools.product(al, repeat=n - len(first)):
            accept("".join(first + t), res)
    elif k == "f":
        al, n, frame = a
        for m in range(n + 1):
            for t in itertools.product(al, repeat=m):
                accept(frame.replace("@", "".join(t)), res)
    res.seen(w)


def setup():
    warnings.simplefilter("ignore")
    OmegaConf.register_new_resolver("raw", lambda: CUR[0], replace=True, use_cache=False)
    OmegaConf.register_new_resolver("inner", inner, replace=True, use_cache=False)
    OmegaConf.register_new_resolver("s", lambda *a: "a" if a == ("a",) else repr(a), replace=True, use_cache=False)


def check(tier):
    setup()
    th = tier == "thorough"
    res = Result()
    # the answers of parsers that do nothing else agree with the reference grammar
    for s, el in ITEMS:
        try:
            (gram.parse_element if el else gram.parse_value)(s)
            exp = "ok"
        except gram.Reject:
            exp = "reject"
        got = alone((s, el))
        res.count("transitions")
        if got[0] != exp:
            res.violation(f"{(s, el)}", f"{'element' if el else 'config value'} {s!r}: {got}, the grammar says {exp}", dict(kind="h", h=((s, el),)))
    for op in itertools.product(PUB, CV + [s for s in EL if "${" in s]):
        pub_alone(op)
    for s in EL:
        pub_alone(("decode", s))
    work = [("h", ((a,), ITEMS, 2)) for a in ITEMS]
    work += [("h", ((a, b), ITEMS if th else SMALL, 3)) for a in ITEMS for b in (ITEMS if th else SMALL)]
    work += [("h", ((a, b), SMALL, 5 if th else 4)) for a in SMALL for b in SMALL]
    work += [("n", (a, ITEMS)) for a in ITEMS if alone(a)[0] == "ok" and alone(a)[-1]]
    pubs = [(k, s) for k in PUB for s, el in (ITEMS if th else SMALL) if not (el and k != "decode")]
    work += [("p", ((op,), pubs, 3 if th else 2)) for op in pubs]
    if not th:
        work += [("p", ((op,), [p for p in pubs if p[0] != "create"][::3], 3)) for op in pubs]
    for al, n in ((QT, 6 if th else 5), (QT2, 5 if th else 4)):
        for m in range(0, n):
            for f in itertools.product(al, repeat=max(0, m - 2)):
                work.append(("q", (al, m + 1, ("${",) + f)))
                if al is QT and m < n - 1:
                    work.append(("q", (al, m + 2, ("a", "${") + f)))
    work += [("f", (QT + QT2[4:] + QT3, 3 if th else 2, fr)) for fr in FRAMES]
    out = parallel(one, work)
    res.merge(out)
    res.n["states"] = res.n.get("histories", 0) + res.n.get("quick", 0)
    res.n["validated"] = res.n.get("transitions", 0)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    setup()
    t = lambda h: tuple(map(tuple, h))
    k = case["kind"]
    if k == "h":
        in_order(t(case["h"]), res)
    elif k == "n":
        nested(tuple(case["a"]), t(case["h"]), res)
    elif k == "p":
        public(t(case["h"]), res)
    else:
        accept(case["s"], res)
    OmegaConf.clear_resolvers()
