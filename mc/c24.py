"""C24: concurrent readers see what a single reader sees.  Real threads under a controlled scheduler; every pair of reading operations x every schedule with at most one preemption (both ways round), switched at the lines
(chosen pairs: at the instructions that touch shared data) of the library; chosen pairs with two preemptions, chosen triples of threads; parsing also inside the ANTLR runtime, with cold and warm tables."""
import copy
import itertools
import os
import pickle
import threading
import warnings
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from . import core
from .core import DictConfig, ListConfig, Node, OmegaConf, Result, children, clone, enc, parallel, show_exc, snap
from .fix import Pt
from .sched import LIB, Sched
from omegaconf import MISSING, SCMode, grammar_parser
from omegaconf.grammar_parser import parse
from omegaconf.grammar_visitor import OmegaConfGrammarLexer, OmegaConfGrammarParser
from omegaconf.vendor.antlr4.dfa.DFA import DFA

LEVEL = "model_checking"
ASSUMPTIONS = ["threads switch between instructions and see each other's writes in order (the interpreter lock)", "instructions that touch only local variables commute with other threads", "the ANTLR runtime is switched at function calls and, for the prediction code, at lines"]
VENDOR = LIB + "vendor" + os.sep
GEN = LIB + "grammar" + os.sep + "gen" + os.sep
HOT = tuple(VENDOR + os.path.join("antlr4", *p) for p in (("atn", "LexerATNSimulator.py"), ("atn", "ParserATNSimulator.py"), ("dfa", "DFA.py"), ("dfa", "DFAState.py"), ("PredictionContext.py",), ("Lexer.py",), ("Parser.py",), ("BufferedTokenStream.py",), ("atn", "ATNSimulator.py")))


def grain_read(code):
    f = code.co_filename
    if f == copy.__file__:
        return "call"
    return "line" if f.startswith(LIB) and not f.startswith((VENDOR, GEN)) else None


def grain_ops(code):
    f = code.co_filename
    if f == copy.__file__:
        return "call"
    return "opcode" if f.startswith(LIB) and not f.startswith((VENDOR, GEN)) else None


def grain_parse(code):
    f = code.co_filename
    if not f.startswith(LIB):
        return None
    if f.startswith(HOT):
        return "call" if code.co_name in ("__init__", "__hash__", "__eq__", "__iter__") else "line"
    if f.startswith((VENDOR, GEN)):
        return "call"
    return "opcode" if f.endswith("grammar_parser.py") else "line"


DFA_FN = {"addDFAState", "addDFAEdge", "getExistingTargetState", "match", "matchATN", "getCachedContext", "add", "get", "computeTargetState", "adaptivePredict", "setPrecedenceStartState", "getPrecedenceStartState"}


def grain_dfa(code):
    """the code that reads and writes the prediction tables, and omegaconf's own"""
    f = code.co_filename
    if not f.startswith(LIB):
        return None
    if f.startswith((VENDOR, GEN)):
        return "line" if code.co_name in DFA_FN else None
    return "line"


def grain_parse_coarse(code):
    f = code.co_filename
    if not f.startswith(LIB):
        return None
    if f.startswith((VENDOR, GEN)):
        return "call"
    return "line"


# ---------------------------------------------------------------- the shared config
@dataclass
class Typed:
    i: int = 1
    o: Optional[str] = None
    m: int = MISSING
    u: Union[int, str] = "x"
    l: List[int] = field(default_factory=lambda: [1, 2])
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    pt: Pt = field(default_factory=Pt)
    r: int = "${a.b}"  # type: ignore


def build():
    c = OmegaConf.create({"a": {"b": 1, "m": "???", "d": {"e": [1, {"z": "${a.b}"}]}}, "i": "${a.d}", "s": "x${a.b}", "k": "${cached:1}", "k2": "${cached:2}", "q": "${plain:${a.b},[2,{y: 3}]}", "l": [3, "${a.b}", None], "n": None, "p": Typed})
    OmegaConf.set_readonly(c.a, True)
    OmegaConf.set_struct(c.p, True)
    OmegaConf.set_struct(c, False)
    cold(c)
    return c


def cold(n):
    n.__dict__["_flags_cache"] = None
    for _, x in children(n):
        cold(x)


def parents(n):
    for k, x in children(n):
        if x.__dict__["_parent"] is not n:
            return f"{k!r} has lost its parent"
        p = parents(x)
        if p:
            return p
    return ""


READS = {
    "item": lambda c: c.a.d.e[1].z,
    "node inter": lambda c: (c.i.e[0], c.s),
    "cached": lambda c: (c.k, c.k2, c.k),
    "resolver": lambda c: c.q,
    "missing": lambda c: c.a.m,
    "typed": lambda c: (c.p.i, c.p.u, c.p.r, c.p.o),
    "flags": lambda c: (OmegaConf.is_readonly(c.a.d.e), OmegaConf.is_struct(c.p.d), OmegaConf.is_readonly(c.p), OmegaConf.is_struct(c.l)),
    "resolve": lambda c: OmegaConf.to_container(c, resolve=True),
    "raw": lambda c: OmegaConf.to_container(c),
    "yaml": lambda c: OmegaConf.to_yaml(c, sort_keys=True),
    "object": lambda c: OmegaConf.to_container(c.p, structured_config_mode=SCMode.DICT),
    "deepcopy": lambda c: copy.deepcopy(c),
    "deepcopy a": lambda c: copy.deepcopy(c.a),
    "deepcopy l": lambda c: copy.deepcopy(c.l),
    "deepcopy p": lambda c: copy.deepcopy(c.p),
    "deepcopy u": lambda c: (copy.deepcopy(c.p._get_node("u")), copy.deepcopy(c._get_node("n"))),
    "copy": lambda c: copy.copy(c),
    "copy l": lambda c: copy.copy(c.l),
    "select": lambda c: (OmegaConf.select(c, "a.d.e[1].z"), OmegaConf.select(c, "i.e"), OmegaConf.select(c, "nope", default=3)),
    "equal": lambda c: (c.a == {"b": 1}, c.l == c.l, c.l == [3, 1, None], c.p.pt == c.p.pt),
    "equal all": lambda c: c == c,
    "iterate": lambda c: (list(c.l), [k for k in c], list(c.p.d.items()), len(c), "b" in c.a, "zz" in c, 1 in c.l),
    "items": lambda c: [(k, v) for k, v in c.items_ex(resolve=False)],
    "merge into new": lambda c: OmegaConf.merge({"z": 1}, c),
    "merge": lambda c: OmegaConf.merge(c, {"l": [1]}),
    "create": lambda c: OmegaConf.create({"x": c.a, "y": c.l}),
    "queries": lambda c: (OmegaConf.missing_keys(c), OmegaConf.is_missing(c.a, "m"), OmegaConf.is_interpolation(c, "i"), OmegaConf.get_type(c, "p")),
    "masked": lambda c: OmegaConf.masked_copy(c, ["a", "p"]),
    "list ops": lambda c: (c.l + [1], c.l[0:2], c.l.index(3), c.l.count(1), c.p.l[-1]),
    "pickle": lambda c: pickle.loads(pickle.dumps(c)),
    "hash": lambda c: (hash(c.a.d.e[0]), hash(c.p.l), repr(c)),
    "structured": lambda c: OmegaConf.structured(Pt(x=3)).x,
    "cache": lambda c: (OmegaConf.has_resolver("cached"), len(OmegaConf.get_cache(c)) <= 1),
    "observe": lambda c: (c.a.d.e[1].z, c.s, c.k, OmegaConf.is_readonly(c.a.d.e), OmegaConf.is_struct(c.p.d), c.p.i, c.p.u, c.p.pt.x, c.l[1], "m" in c.a, c.n, OmegaConf.is_missing(c.p, "m")),
    "create string": lambda c: OmegaConf.create("a: [1, '${b}']\nb: 2").a[1],
}
CALLS = [0]


def cached(x):
    CALLS[0] += 1
    return [x]


def norm(r):
    """the outcome of an operation, comparable"""
    k, v = r
    if k == "exc":
        return ("exc", show_exc(v))

    def f(x):
        if isinstance(x, Node):
            return (snap(x), parents(x))
        if isinstance(x, (tuple, list)):
            return (type(x).__name__,) + tuple(f(y) for y in x)
        return enc(x)
    return ("ok", f(v))


WARM = ["${cached:2}", "${a.b}", "${a.d}", "x${a.b}", "${cached:1}", "${plain:${a.b},[2,{y: 3}]}", "${b}"]


def warm():
    for s in WARM:
        parse(s)


BASE = {}
ALONE = {}


def fixture(gr="line"):
    return clone(BASE["cold" if "cold" in gr else "half" if "half" in gr else "warm"])


def half(n):
    n._get_flag("readonly")
    for _, x in children(n):
        half(x)


def alone(op):
    if op not in ALONE:
        c = fixture()
        try:
            r = ("ok", READS[op](c))
        except Exception as e:
            r = ("exc", e)
        ALONE[op] = (norm(r), snap(c))
    return ALONE[op]


class Env:
    """a scheduler and its warmed threads"""

    def __init__(self, n, grain, prep=warm):
        self.s = Sched(n, grain, grain in (grain_ops, grain_parse))
        if prep:
            self.s.run([prep] * n, [])

    def close(self):
        self.s.close()


def state(c):
    """the shared data, caches included, down to object identities"""
    out = []

    def f(n):
        d = n.__dict__
        m = d["_metadata"]
        fc = d["_flags_cache"]
        out.append((id(n), id(d["_parent"]), None if fc is None else tuple(fc.items()), id(m), None if m.flags is None else tuple(m.flags.items()), m.ref_type, m.optional, m.key, m.flags_root))
        if "_val" in d:
            out.append(id(d["_val"]))
        else:
            k = d["_content"]
            rc = getattr(m, "resolver_cache", None)
            out.append((type(k), m.object_type, tuple((x, tuple(y)) for x, y in rc.items()) if rc else None))
            if isinstance(k, dict):
                for q, x in k.items():
                    out.append(q)
                    f(x)
            elif isinstance(k, list):
                for x in k:
                    f(x)
            elif isinstance(k, Node):
                f(k)
    f(c)
    return out


def job(op, c):
    f = READS[op]
    return lambda: f(c)


def judge(op, r, res, how, case):
    n = norm(r)
    if n != alone(op)[0]:
        res.violation(f"{op} {how[0]} {show_exc(r[1]) if r[0] == 'exc' else ''}"[:90], f"{how}: {op!r} gives {n}, alone {alone(op)[0]}"[:1500], case)


def finish(c, ops, res, how, case):
    exp = alone(ops[0])[1]
    if snap(c) != exp:
        res.violation(f"{ops} config", f"{how}: the config has changed: {core.sdiff(exp, snap(c))}", case)
    p = parents(c)
    if p:
        res.violation(f"{ops} parent", f"{how}: {p}", case)
    # whatever the threads left in the caches is right
    for o in dict.fromkeys(ops + ("flags",)):
        judge(o, attempt(o, c), res, (f"after {how}",), case)


def attempt(o, c):
    try:
        return ("ok", READS[o](c))
    except Exception as e:
        return ("exc", e)


def execute(env, ops, schedule, res, gr):
    """one complete execution -> its segments, None if the threads are stuck"""
    c = fixture(gr)
    rs, segs = env.s.run([job(o, c) for o in ops], schedule)
    res.count("schedules")
    res.count("transitions", sum(x[1] for x in segs if x[0] != "blocked"))
    case = dict(kind="read", ops=ops, schedule=schedule, grain=gr)
    how = (f"threads {ops}", f"schedule {segs}")
    if rs is None:
        res.violation(f"{ops} hang", f"{how}: all stuck", case)
        env.s = None
        return None
    for o, r in zip(ops, rs):
        judge(o, r, res, how, case)
    finish(c, ops, res, how, case)
    return segs


def sweep(env, ops, res, gr, start=1, only=None):
    """every schedule in which the first thread is switched away from once and the second one runs to its end"""
    while start is not None and env.s is not None:
        c = fixture(gr)
        case = dict(kind="sweep", ops=ops, start=start, grain=gr)
        k0 = [0]

        def jb(i, r):
            k0[0] = i
            judge(ops[1], r, res, (f"threads {ops}, the second one run at point {i} of the first",), dict(case, start=i))
        r, nxt, k, blocked = env.s.sweep(job(ops[0], c), job(ops[1], c), start, lambda: state(c), jb)
        res.count("schedules", k)
        res.count("executions")
        res.count("blocked", int(blocked))
        if r is None:
            res.violation(f"{ops} hang", f"threads {ops}, the second one started at point {k0[0]} of the first: stuck", case)
            env.s = None
            return
        how = (f"threads {ops}, the second one run at points {start} to {k0[0]} of the first",)
        judge(ops[0], r, res, how, case)
        finish(c, ops, res, how, case)
        res.count("transitions", env.s.threads[0].points)
        if only:
            return
        start = nxt


def two_preemptions(env, ops, res, gr, run, first):
    for i in first:
        j = 1
        while env.s is not None:
            segs = run(env, ops, [(0, i), (1, j), (0, None)], res, gr)
            if segs is None or segs[0][0] == "blocked" or segs[0][2]:
                return
            if len(segs) < 2 or segs[1][0] == "blocked" or segs[1][2]:
                break
            j += 1


# ---------------------------------------------------------------- parsing
PARSE = {
    "a": "${a.b}", "mix": "x${a}y${s:1,b}", "q": "${s:'q ${a}',[1,{k: v}]}", "bad": "${a", "bad2": "${s:1:}}", "esc": "\\${a}${b}", "rel": "${..a[b]}", "nest": "${${s:a}}", "el": ("[1,{a: b}]",), "bad3": ("x}",), "num": ("1.5",),
}


def do_parse(name):
    s = PARSE[name]
    try:
        t = parse(s[0], parser_rule="singleElement", lexer_mode="VALUE_MODE") if isinstance(s, tuple) else parse(s)
        return t.toStringTree(recog=None) if hasattr(t, "toStringTree") and False else dump(t)
    except Exception as e:
        return ("exc", show_exc(e))


def dump(t):
    sym = getattr(t, "symbol", None)
    if sym is not None:
        return (sym.type, sym.text)
    return (type(t).__name__,) + tuple(dump(x) for x in t.getChildren())


def forget_tables():
    for cls in (OmegaConfGrammarLexer, OmegaConfGrammarParser):
        cls.decisionsToDFA[:] = [DFA(ds, i) for i, ds in enumerate(cls.atn.decisionToState)]


PALONE = {}


def palone(name):
    if name not in PALONE:
        forget_tables()
        grammar_parser._grammar_cache = threading.local()
        PALONE[name] = do_parse(name)
    return PALONE[name]


def pexecute(env, ops, schedule, res, gr):
    exps = [tuple(palone(o) for o in op) for op in ops]
    if "cold" in gr:
        forget_tables()
    rs, segs = env.s.run([pjob(op) for op in ops], schedule)
    res.count("schedules")
    res.count("transitions", sum(x[1] for x in segs if x[0] != "blocked"))
    case = dict(kind="parse", ops=ops, schedule=schedule, grain=gr)
    if rs is None:
        res.violation(f"parse {ops} hang", f"threads parsing {ops} under schedule {segs} are all stuck", case)
        env.s = None
        return None
    for op, r, e in zip(ops, rs, exps):
        if r != ("ok", e):
            res.violation(f"parse {ops} {op}", f"threads parsing {ops}, schedule {segs}: {op!r} gives {r if r[0] == 'ok' else show_exc(r[1])}, alone {e}"[:1500], case)
    for o in {o for op in ops for o in op}:
        g = do_parse(o)
        if g != palone(o):
            res.violation(f"parse {ops} afterwards {o}", f"after threads parsing {ops}, schedule {segs}: {o!r} gives {g}, alone {palone(o)}"[:1500], case)
    return segs


def pjob(op):
    return lambda: tuple(do_parse(o) for o in op)


def psweep(env, ops, res, gr, start=1, only=None):
    exps = [tuple(palone(o) for o in op) for op in ops]

    def state():
        return [sum(len(d.states) for d in cls.decisionsToDFA) for cls in (OmegaConfGrammarLexer, OmegaConfGrammarParser)]

    def jd(op, e, r, how, case):
        if r != ("ok", e):
            res.violation(f"parse {ops} {op}", f"{how}: {op!r} gives {r if r[0] == 'ok' else show_exc(r[1])}, alone {e}"[:1500], case)
    while start is not None and env.s is not None:
        if "cold" in gr:
            forget_tables()
        case = dict(kind="psweep", ops=ops, start=start, grain=gr)
        k0 = [0]

        def jb(i, r):
            k0[0] = i
            jd(ops[1], exps[1], r, f"threads parsing {ops}, the second one run at point {i} of the first", dict(case, start=i))
        r, nxt, k, blocked = env.s.sweep(pjob(ops[0]), pjob(ops[1]), start, state, jb)
        res.count("schedules", k)
        res.count("executions")
        res.count("blocked", int(blocked))
        if r is None:
            res.violation(f"parse {ops} hang", f"threads parsing {ops}, the second one started at point {k0[0]} of the first: stuck", case)
            env.s = None
            return
        how = f"threads parsing {ops}, the second one run at points {start} to {k0[0]} of the first"
        jd(ops[0], exps[0], r, how, case)
        for o in {o for op in ops for o in op}:
            g = do_parse(o)
            if g != palone(o):
                res.violation(f"parse {ops} afterwards {o}", f"after {how}: {o!r} gives {g}, alone {palone(o)}"[:1500], case)
        res.count("transitions", env.s.threads[0].points)
        if only:
            return
        start = nxt


GRAINS = {"line": grain_read, "opcode": grain_ops, "fine": grain_parse, "coarse": grain_parse_coarse, "dfa": grain_dfa}


def grain(gr):
    return GRAINS[gr.split()[-1]]


# ---------------------------------------------------------------- driver
def one(w, res):
    kind, ops, gr = w[:3]
    setup()
    parsing = kind.startswith("p")
    env = Env(3 if kind == "three" else 2, grain(gr), None if parsing and "new" in gr else (lambda: [do_parse(o) for o in PARSE]) if parsing else warm)
    if kind == "sweep":
        sweep(env, ops, res, gr)
        res.sample(f"all schedules with one preemption of {ops[0]!r} by {ops[1]!r}, {gr}")
    elif kind == "psweep":
        psweep(env, ops, res, gr)
        res.sample(f"all schedules with one preemption of two threads parsing {ops}, {gr}")
    elif kind == "two":
        two_preemptions(env, ops, res, gr, execute, w[3])
    elif kind == "ptwo":
        two_preemptions(env, ops, res, gr, pexecute, w[3])
    elif kind == "three":
        for i in w[3]:
            j = 1
            while env.s is not None:
                segs = execute(env, ops, [(0, i), (1, j), (2, None), (1, None)], res, gr)
                if segs is None or segs[0][0] == "blocked" or segs[0][2] or segs[1][0] == "blocked" or segs[1][2]:
                    break
                j += 1
    if env.s is not None:
        env.close()
    res.seen(w)


def setup():
    warnings.simplefilter("ignore")
    OmegaConf.register_new_resolver("cached", cached, replace=True, use_cache=True)
    OmegaConf.register_new_resolver("plain", lambda *a: [str(x) for x in a], replace=True, use_cache=False)
    if not BASE:
        BASE["cold"] = build()
        warm()
        BASE["warm"] = clone(BASE["cold"])
        BASE["half"] = clone(BASE["cold"])
        half(BASE["half"])
        BASE["half"].k
        for o in READS:
            attempt(o, BASE["warm"])


KEY = ["item", "node inter", "cached", "flags", "deepcopy", "resolve", "missing", "typed", "merge into new"]


def check(tier):
    setup()
    for o in READS:
        alone(o)
    th = tier == "thorough"
    work = []
    big = ("equal all", "merge", "merge into new", "resolve", "masked", "copy")
    for a in READS:
        if th or a not in big[:2]:
            work.append(("sweep", (a, "observe"), "line"))
    fill = ["flags", "cached"]
    small = ["flags", "item", "cached", "missing", "typed", "deepcopy a", "deepcopy l", "cache", "hash"]
    for a in small:
        for b in fill + ["deepcopy a", "observe"] if th or a in ("flags", "typed", "deepcopy a") else ["flags", "deepcopy a"]:
            work.append(("sweep", (a, b), "cold line"))
    for a, b in (("flags", "flags"), ("missing", "flags")):
        work.append(("sweep", (a, b), "cold opcode"))
    if th:
        work += [("sweep", (a, b), "cold opcode") for a in ("flags", "cached", "missing", "deepcopy a") for b in ("flags", "cached")]
    for a in ("deepcopy a", "copy l", "flags", "cached", "pickle", "deepcopy u"):
        for b in fill:
            work.append(("sweep", (a, b), "half line"))
    pa = ["mix", "q", "bad2", "el"]
    for a in PARSE:
        for b in pa:
            work.append(("psweep", ((a,), (b,)), "dfa"))
    for a, b in (("mix", "q"), ("bad", "mix")):
        work.append(("psweep", ((a,), (b,)), "fine"))
    for a, b in (("a", "mix"), ("bad", "a"), ("el", "a")):
        work.append(("psweep", ((a,), (b,)), "cold dfa"))
    for a, b in (("a", "mix"), ("mix", "a"), ("bad", "mix"), ("el", "a")):
        work.append(("psweep", ((a,), (b,)), "new dfa"))
    if th:
        work += [("sweep", (a, b), g) for g in ("half line", "cold line") for a in READS for b in fill + ["deepcopy a", "observe"] if a not in small or g == "half line"]
        work += [("psweep", ((a,), (b,)), "fine") for a in PARSE for b in PARSE]
        work += [("two", (a, b), "cold line", list(range(i, 1200, 40))) for a in ("flags", "cached", "missing") for b in ("flags", "missing", "deepcopy l") for i in range(1, 41)]
        work += [("three", (a, b, c), "cold line", list(range(i, 1200, 40))) for a, b, c in (("flags", "missing", "flags"), ("deepcopy l", "flags", "observe")) for i in range(1, 41)]
        work += [("sweep", (a, b), "opcode") for a in KEY for b in KEY]
        work += [("psweep", ((a,), (b,)), "new cold coarse") for a in ("a", "mix", "bad2", "el") for b in ("a", "q")]
        work += [("sweep", (a, b), "line") for a in READS for b in READS if b != "observe"]
    big = ["merge into new", "resolve", "equal", "copy", "deepcopy", "masked", "observe", "equal all", "structured"]
    cost = lambda w: (50 if "cold dfa" in w[2] else 40 if "opcode" in w[2] else 30 if w[1][0] in big else 0) if len(w) == 3 else 0
    return parallel(one, sorted(work, key=lambda w: -cost(w)) if not th else work)


def replay(case, res):
    setup()
    k, gr = case["kind"], case["grain"]
    parsing = k in ("parse", "psweep")
    ops = tuple(map(tuple, case["ops"])) if parsing else tuple(case["ops"])
    env = Env(len(ops), grain(gr), None if parsing and "new" in gr else (lambda: [do_parse(o) for o in PARSE]) if parsing else warm)
    if k in ("sweep", "psweep"):
        (sweep if k == "sweep" else psweep)(env, ops, res, gr, case["start"], True)
    else:
        (pexecute if parsing else execute)(env, ops, [tuple(x) for x in case["schedule"]], res, gr)
    if env.s is not None:
        env.close()
