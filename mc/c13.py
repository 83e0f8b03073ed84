"""C13: all ways to merge agree and leave their inputs alone.  All pairs and triples of the input list x routes."""
import copy
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional

from .core import Box, DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, children, enc, parallel, plain, sdiff, show_exc, snap
from .ops import NS, at, chunks
from omegaconf import MISSING, ListMergeMode
from omegaconf.errors import ReadonlyConfigError

LEVEL = "exploration"
ASSUMPTIONS = ["routes which must agree may raise different exception types if all of them raise",
               "merging raises nothing but documented errors is C12's concern; here only agreement and purity"]


@dataclass
class Db:
    host: str = "h"
    port: int = MISSING


@dataclass
class Db2(Db):
    extra: List[int] = field(default_factory=lambda: [1])


@dataclass
class S:
    a: int = 1
    d: Db = field(default_factory=Db)
    l: List[int] = field(default_factory=lambda: [1, 2])
    m: Dict[str, int] = field(default_factory=dict)
    o: Optional[Db] = None
    x: Any = None


ENV = dict(NS, Db=Db, Db2=Db2, S=S, ListMergeMode=ListMergeMode)


def fl(src, *flags):
    c = eval(src, dict(ENV)) if isinstance(src, str) else src
    for p, f, v in flags:
        at(c, p)._set_flag(f, v)
    return c


ENV["fl"] = fl

PLAIN = ["{}", "{'a': 1}", "{'a': '5', 'x': {'y': 1}}", "{'a': None, 'd': None}", "{'a': '???', 'l': '???', 'd': {'port': '???'}}", "{'a': '${x}', 'x': 7}", "{'d': {'host': 'z'}, 'l': [3]}", "{'d': {'host': '${a}', 'new': 1}}",
         "{'l': [{'q': 1}, 1], 'x': [1, '${a}']}", "{'x': '${d}'}", "{'d': '${x}', 'x': {'host': 'i'}}", "{'m': {'k': 1}, 'l': []}", "{'x': {'y': {'z': 1}}}", "{'d': {'port': 1}, 'o': {'host': 'p'}}", "{'o': Db2(port=3)}", "{'d': Db2}", "{'x': S}", "{'l': None, 'm': '${d}'}",
         "{'a': {'b': 1}}", "{'d': [1]}"]
TYPED = ["S", "S(a=2, l=[5])", "S(o=Db(port=2), m={'k': 1})", "Db", "Db2(port=4)"]
CONF = [f"OmegaConf.create({p})" for p in PLAIN] + [f"OmegaConf.structured({t})" for t in TYPED]
FLAG = ["fl('OmegaConf.create({\"a\": 1, \"d\": {\"host\": 1}, \"l\": [1]})', ('', 'readonly', True))",
        "fl('OmegaConf.create({\"a\": 2, \"d\": {\"host\": 2}, \"l\": [2]})', ('', 'struct', True))",
        "fl('OmegaConf.create({\"a\": 3, \"d\": {\"host\": 3}, \"x\": {\"y\": 3}})', ('d', 'readonly', True))",
        "fl('OmegaConf.create({\"a\": 4, \"d\": {\"host\": 4, \"port\": 4}, \"x\": {\"y\": 3}})', ('d', 'struct', True), ('x', 'myflag', False))",
        "fl('OmegaConf.create({\"a\": 5, \"d\": {\"port\": 5}})', ('', 'readonly', False), ('', 'struct', False), ('d', 'struct', False), ('', 'myflag', True))",
        "fl('OmegaConf.create({\"l\": [6, 6], \"m\": {\"k\": 6}})', ('l', 'readonly', True), ('m', 'myflag', True))",
        "fl('OmegaConf.create({\"l\": [7], \"m\": {\"k\": 7}})', ('l', 'myflag', False), ('m', 'struct', True))",
        "fl('OmegaConf.structured(S)', ('', 'readonly', True))",
        "fl('OmegaConf.structured(S)', ('', 'struct', False), ('d', 'readonly', True))",
        "OmegaConf.create({'p': {'a': 6, 'd': {'host': '${a}'}, 'x': '${..q}'}, 'q': 1}, flags={'struct': True}).p",
        "OmegaConf.create({'p': S(a=8)}).p",
        "DictConfig({'a': 1, 'l': 2}, element_type=int)", "DictConfig({'d': Db(host='e')}, key_type=str, element_type=Db)",
        "DictConfig(None)", "DictConfig('???')", "DictConfig(None, ref_type=Optional[S] if False else S, is_optional=True)", "OmegaConf.structured(S).d", "ListConfig([1])"]
LISTS = ["[]", "[1, '${0}']", "[{'a': 1}, '???']", "OmegaConf.create([1, {'b': 2}])", "ListConfig([3], element_type=int)", "fl('OmegaConf.create([1, {\"b\": 2}])', ('', 'readonly', True))", "fl('OmegaConf.create([1, {\"b\": 2}])', ('1', 'readonly', True), ('', 'struct', True))",
         "OmegaConf.create({'p': [1, '${1}']}, flags={'readonly': True}).p", "ListConfig(None)", "[Db]", "ListConfig([Db2(port=1)], element_type=Db)", "{}"]
ALL = PLAIN[1:] + TYPED + CONF[1:20:2] + FLAG
MODES = [ListMergeMode.REPLACE, ListMergeMode.EXTEND, ListMergeMode.EXTEND_UNIQUE]


def mk(s):
    return eval(s, dict(ENV))


def root(x):
    while isinstance(x, Node) and x._get_parent() is not None:
        x = x._get_parent()
    return x


def see(x):
    r = root(x)
    return snap(r) if isinstance(r, Node) else enc(vars(r)) if hasattr(r, "__dataclass_fields__") and not isinstance(r, type) else enc(r)


def attempt(f):
    try:
        return ("ok", f())
    except RecursionError:
        raise
    except Exception as e:
        return ("exc", e)


def out(r):
    if r[0] != "ok":
        return ("exc",)
    t = list(snap(r[1]))
    # whether an explicit readonly=False of a later config reaches the root of the result is not specified
    t[2] = tuple(x for x in t[2] if x != ("readonly", False))
    return ("ok", tuple(t))


def show(r):
    return repr(plain(r[1])) if r[0] == "ok" else show_exc(r[1])


def diff(a, b):
    if a[0] != b[0]:
        return "one fails"
    return sdiff(out(a)[1], out(b)[1])[:300]


def own_flags(x):
    return {k: v for k, v in (x._metadata.flags or {}).items() if v is not None} if isinstance(x, Node) else {}


def conv(s):
    """another spelling of the same content"""
    if s.startswith("{") or s.startswith("["):
        return f"OmegaConf.create({s})"
    if s.startswith("S") or s.startswith("Db"):
        return f"OmegaConf.structured({s})"
    return None


def group(srcs, mode, res):
    """one tuple of inputs: all routes"""
    def bad(msg):
        res.violation(f"{' | '.join(srcs)} {mode.name}", f"merging {srcs} ({mode.name}): {msg}", dict(srcs=list(srcs), mode=mode.name))

    kw = dict(list_merge_mode=mode)
    ins = [mk(s) for s in srcs]
    before = [see(x) for x in ins]
    ref = attempt(lambda: OmegaConf.merge(*ins, **kw))
    res.count("evaluations")
    for i, x in enumerate(ins):
        if see(x) != before[i]:
            return bad(f"input {i} is modified: {sdiff(before[i], see(x))[:300]}")
    want = out(ref)
    # again with the same inputs
    r = attempt(lambda: OmegaConf.merge(*ins, **kw))
    if out(r) != want:
        return bad(f"the second merge of the same inputs differs: {diff(ref, r)}")
    # one at a time
    if len(ins) > 2:
        r = attempt(lambda: OmegaConf.merge(OmegaConf.merge(*ins[:-1], **kw), ins[-1], **kw))
        if out(r) != want:
            return bad(f"merge(merge(A,B),C) differs from merge(A,B,C): {show(ref)[:300]} / {show(r)[:300]}: {diff(ref, r)}")
    # merge_with on a copy
    a = mk(srcs[0])
    if isinstance(a, (DictConfig, ListConfig)):
        a = copy.deepcopy(a)
        # a read-only config merged into another makes it read-only: later merges into it are then refused
        if not a._get_flag("readonly") and not any(own_flags(x).get("readonly") for x in ins[1:-1]):
            def mw():
                a.merge_with(*ins[1:], **kw)
                return a
            r = attempt(mw)
            if out(r) != want:
                return bad(f"merge_with differs from merge: {show(ref)[:300]} / {show(r)[:300]}: {diff(ref, r)}")
            for i, x in enumerate(ins[1:], 1):
                if see(x) != before[i]:
                    return bad(f"merge_with modifies input {i}: {sdiff(before[i], see(x))[:300]}")
            if len(ins) > 2:
                a2 = copy.deepcopy(mk(srcs[0]))

                def mw2():
                    for x in ins[1:]:
                        a2.merge_with(x, **kw)
                    return a2
                r = attempt(mw2)
                if out(r) != want:
                    return bad(f"successive merge_with differ from merge: {diff(ref, r)}")
    # unsafe_merge of fresh inputs
    fresh = [mk(s) for s in srcs]
    r = attempt(lambda: OmegaConf.unsafe_merge(*fresh, **kw))
    if out(r) != want:
        return bad(f"unsafe_merge differs from merge: {show(ref)[:300]} / {show(r)[:300]}: {diff(ref, r)}")
    # the same content in another form
    for i, s in enumerate(srcs):
        t = conv(s)
        if t:
            other = [mk(t) if j == i else mk(x) for j, x in enumerate(srcs)]
            r = attempt(lambda: OmegaConf.merge(*other, **kw))
            if out(r) != want:
                return bad(f"with input {i} given as {t}: {show(ref)[:300]} / {show(r)[:300]}: {diff(ref, r)}")
    if ref[0] != "ok":
        res.count("failing")
        return
    # flags of the result
    exp = {}
    special = False
    for i, x in enumerate(ins):
        f = own_flags(x)
        special = special or isinstance(x, Node) and (x._is_none() or x._is_missing() or x._is_interpolation())
        exp.update(f)
    if isinstance(ref[1], (DictConfig, ListConfig)) and not special:
        msg = nested_flags(ins, ref[1])
        if msg:
            return bad(msg)
        first = ins[0]
        if isinstance(first, Node) and first._get_flag("readonly"):
            if not ref[1]._get_flag("readonly"):
                return bad("the first config is read-only, the result is not")
            if own_flags(first).get("readonly"):
                exp["readonly"] = True
        got = own_flags(ref[1])
        if exp.get("readonly") is False:
            exp.pop("readonly")
            got.pop("readonly", None)
        if got != exp:
            return bad(f"the flags of the result are {got}, expected {exp}")


def flag_paths(x, p=()):
    """(path, node) of the containers reached through dict keys"""
    yield p, x
    if isinstance(x, DictConfig) and isinstance(x.__dict__["_content"], dict):
        for k, n in x.__dict__["_content"].items():
            if isinstance(n, (DictConfig, ListConfig)):
                yield from flag_paths(n, p + (k,))


def special_(n):
    return n._is_none() or n._is_missing() or n._is_interpolation()


def at_path(x, p):
    for k in p:
        if not isinstance(x, DictConfig) or not isinstance(x.__dict__["_content"], dict):
            return None
        x = x.__dict__["_content"].get(k)
        if x is None:
            return None
    return x


def nested_flags(ins, result):
    """flags of the containers below the root: where every input that has something at a path (and above it) has an ordinary container of the same kind there, the later explicit flags win"""
    confs = [x if isinstance(x, Node) else OmegaConf.create(x) for x in ins]
    for p, n in flag_paths(result):
        if not p or special_(n):
            continue
        exp, plainly = {}, True
        for x in confs:
            for i in range(len(p) + 1):
                m = at_path(x, p[:i])
                if m is None:
                    break
                want = type(n) if i == len(p) else DictConfig
                if type(m) is not want or special_(m):
                    plainly = False
                    break
                if i == len(p):
                    exp.update(own_flags(m))
        if plainly and own_flags(n) != exp:
            return f"the flags of {'.'.join(map(str, p))} in the result are {own_flags(n)}, expected {exp}"
    return None


def unary(s, mode, res):
    kw = dict(list_merge_mode=mode)

    def bad(msg):
        res.violation(f"unary {s} {mode.name}", f"{s} ({mode.name}): {msg}", dict(srcs=[s], mode=mode.name))
    a = mk(s)
    before = see(a)
    base = attempt(lambda: OmegaConf.merge(a))
    res.count("evaluations")
    if base[0] != "ok":
        return bad(f"merge(A) fails: {show_exc(base[1])}")
    want = out(base)
    cfg = OmegaConf.create(a) if not isinstance(a, Node) else copy.deepcopy(a)
    if OmegaConf.to_container(base[1]) != OmegaConf.to_container(cfg):
        return bad(f"merge(A) is {base[1]}")
    isl = isinstance(base[1], ListConfig)
    nested_ro = any(n._get_node_flag("readonly") for n in walk(base[1]))
    for nm, f in [("A, A", lambda: OmegaConf.merge(a, a, **kw)), ("A, copy of A", lambda: OmegaConf.merge(a, copy.deepcopy(a), **kw)), ("A, {}", lambda: OmegaConf.merge(a, [] if isl else {}, **kw)),
                  ("{}, A", lambda: OmegaConf.merge([] if isl else {}, a, **kw))]:
        if isl and (mode == ListMergeMode.EXTEND and nm.startswith("A, ") and "A" in nm[2:] or mode == ListMergeMode.REPLACE and nm == "A, {}"):
            continue
        if isl and mode == ListMergeMode.EXTEND_UNIQUE:
            continue
        r = attempt(f)
        if see(a) != before:
            return bad(f"merge({nm}) modifies A")
        if r[0] == "exc" and isinstance(r[1], ReadonlyConfigError) and nested_ro:
            continue
        if r[0] == "exc":
            return bad(f"merge({nm}) fails: {show_exc(r[1])}")
        if nm == "{}, A":
            if base[1]._is_missing():
                continue  # changes nothing
            if OmegaConf.to_container(r[1]) != OmegaConf.to_container(base[1]):
                return bad(f"merge({nm}) gives {r[1]}")
            continue
        if mode == ListMergeMode.EXTEND and any(isinstance(n, ListConfig) for n in walk(base[1])) and nm != "A, {}":
            continue
        if nm == "A, {}" and (base[1]._is_none() or base[1]._is_missing()):
            continue
        if out(r) != want:
            return bad(f"merge({nm}) differs from A: {show(base)[:300]} / {show(r)[:300]}: {diff(base, r)}")


def walk(n):
    yield n
    for _, x in children(n):
        yield from walk(x)


def one(w, res):
    kind, first, rest, modes = w
    for m in modes:
        if kind == "unary":
            unary(first, m, res)
            continue
        for b in rest:
            if kind == "pairs":
                group((first, b), m, res)
            else:
                for c in ALL if len(modes) > 1 else ALL[(ALL.index(first) + ALL.index(b)) % 3::3]:
                    group((first, b, c), m, res)
    res.seen(w)
    res.sample(f"{kind}: {first} merged with {rest[0] if rest else 'itself'}")


def check(tier):
    everything = PLAIN + TYPED + CONF + FLAG
    work = [("unary", s, [], MODES) for s in everything + LISTS]
    for a in everything:
        for ch in chunks(everything, 20):
            work.append(("pairs", a, ch, MODES))
    for a in LISTS:
        work.append(("pairs", a, LISTS, MODES))
    mids = FLAG + PLAIN[1:6] + TYPED[:1] if tier == "quick" else ALL
    for a in ALL:
        for ch in chunks(mids, 6):
            work.append(("triples", a, ch, MODES[:1] if tier == "quick" else MODES))
    return parallel(one, work)


def replay(case, res):
    if len(case["srcs"]) == 1:
        unary(case["srcs"][0], ListMergeMode[case["mode"]], res)
    else:
        group(tuple(case["srcs"]), ListMergeMode[case["mode"]], res)
