"""C16: observing a config never changes it.  All pairs of observers in sequence on configs of every kind; whole-state snapshots and fresh answers."""
import copy
import enum
import pickle
import sys

from .core import Box, DictConfig, Harness, ListConfig, Node, OmegaConf, Result, UnionNode, children, clone, enc, h, parallel, plain, run, sdiff, show_exc, snap
from .ops import CFGS, NS, at, attr_ok, chunks, node_paths, src_key
from omegaconf import SCMode
import omegaconf

LEVEL = "model_checking"
ASSUMPTIONS = ["the cache of resolvers registered with use_cache=True is the documented effect of reading and is not part of the observed state",
               "resolvers used here are pure"]

try:
    sys.path.insert(0, omegaconf.__path__[0].rsplit("/", 1)[0])
    from pydevd_plugins.extensions.pydevd_plugin_omegaconf import OmegaConfUserResolver
    DBG = OmegaConfUserResolver()
except Exception:  # the debugger is not installed
    DBG = None


class Ro:
    """marks flags: fl(c, (path, flag, value)...)"""


def fl(c, *flags):
    for p, f, v in flags:
        at(c, p)._set_flag(f, v)
    return c


def sub(root, path):
    return at(root, path)


ENV = dict(NS, fl=fl, sub=sub, SCMode=SCMode, copy=copy, pickle=pickle, DBG=DBG, omegaconf=omegaconf)

BASE = {
    "U": CFGS["U"], "NestI": CFGS["NestI"], "Cont": CFGS["Cont"], "Opt": CFGS["Opt"], "Prim": CFGS["Prim"], "Emb": CFGS["Emb"],
    "inter": "OmegaConf.create({'a': 1, 'd': {'x': '${a}', 'y': 'v${..a}'}, 'e': '${d}', 'bad': '${nope}', 'm': '???', 'im': '${m}', 'l': ['${a}', '${d}', '???'], 'r': '${upper:${a}}', 'cyc': '${cyc}', 'u': '${nosuch:1}'})",
    "flags": "fl(OmegaConf.create({'a': 1, 'd': {'x': {'y': 1}}, 'l': [1, {'k': 2}], 'n': None}), ('', 'readonly', True), ('d', 'struct', True), ('l', 'readonly', False))",
    "struct": "fl(OmegaConf.create({'a': 1, 'd': {'x': 1}, 'l': [[1], '???']}), ('', 'struct', True))",
    "special": "OmegaConf.create({'n': DictConfig(None), 'm': DictConfig('???'), 'i': DictConfig('${d}'), 'ln': ListConfig(None), 'lm': ListConfig('???'), 'li': ListConfig('${l}'), 'd': {'x': 1}, 'l': [1]})",
    "deep": "OmegaConf.create({'p': {'m': DictConfig('???'), 'n': DictConfig(None), 'lm': ListConfig('???'), 'ln': ListConfig(None), 'v': '???', 'w': None, 'i': DictConfig('${p.m}')}, 'r': '${p.m.x}', 's': '${p.n.x.y}', 't': 'a${p.lm[0]}'})",
    "sub": "sub(OmegaConf.create({'p': {'a': '${..q}', 'd': {'x': '${q}'}, 'l': ['${...q}']}, 'q': 3}, flags={'struct': True}), 'p')",
    "keys": "OmegaConf.create({1: 'a', True: 'b', 1.5: 'c', b'x': 'd', Color.RED: {'x': 1}, 'e': Color.GREEN})",
    "frozen": "OmegaConf.structured(Frozen)",
    "none": "DictConfig(None)", "miss": "DictConfig('???')", "lnone": "ListConfig(None)",
    "list": "OmegaConf.create([3, 1, {'x': '${0}'}, [1, 2], None, '???', '${2}'])",
    "tl": "ListConfig([1, 2], element_type=int)",
    "td": "DictConfig({'k': Pt()}, key_type=str, element_type=Pt)",
}

ALLC = ["str({X})", "repr({X})", "len({X})", "bool({X})", "list({X})", "hash({X})", "{X} == copy.deepcopy({X})", "{X} != {{}}", "{X} == {{'a': 1}}", "{X} == [1]", "{X} == c", "copy.copy({X})", "copy.deepcopy({X})", "{X}.copy()",
        "pickle.loads(pickle.dumps({X}))", "sorted(map(str, dir({X})))", "OmegaConf.to_container({X})", "OmegaConf.to_container({X}, resolve=True)", "OmegaConf.to_container({X}, resolve=True, throw_on_missing=True)",
        "OmegaConf.to_container({X}, enum_to_str=True)", "OmegaConf.to_container({X}, structured_config_mode=SCMode.DICT_CONFIG)", "OmegaConf.to_object({X})", "OmegaConf.to_yaml({X})", "OmegaConf.to_yaml({X}, resolve=True)", "OmegaConf.to_yaml({X}, sort_keys=True)",
        "OmegaConf.missing_keys({X})", "OmegaConf.is_interpolation({X})", "OmegaConf.get_type({X})", "OmegaConf.is_readonly({X})", "OmegaConf.is_struct({X})", "OmegaConf.masked_copy({X}, ['a', 'd'])", "OmegaConf.create({X})", "OmegaConf.merge({X})",
        "OmegaConf.merge({{}}, {X})", "OmegaConf.merge({X}, {{'a': 5}})", "OmegaConf.merge({X}, {X})", "[OmegaConf.update(o, 'k', {X}) for o in [OmegaConf.create({{}})]]", "[o.__setitem__('k', {X}) for o in [OmegaConf.create({{'k': 1}})]]", "[o.append({X}) for o in [OmegaConf.create([])]]",
        "[o.merge_with({X}) for o in [OmegaConf.create({{'d': {{'x': 0}}}})]]", "OmegaConf.resolve(copy.deepcopy(top_({X})))", "OmegaConf.select({X}, 'a')", "OmegaConf.select({X}, 'd.x')", "OmegaConf.select({X}, 'nope.x', default=3)", "OmegaConf.select({X}, 'a.', default=3)", "OmegaConf.select({X}, 'm', throw_on_missing=True)", "OmegaConf.select({X}, 'bad', throw_on_resolution_failure=False)",
        "{X}['nokey']", "{X}.nokey", "{X}.get('nokey')", "{X}[99]", "'nokey' in {X}", "1 in {X}", "None in {X}", "{X}._get_full_key(None)", "DictConfig({X})", "ListConfig({X})", "DictConfig({{'v': {X}}})", "[{X}]", "OmegaConf.is_config({X})", "OmegaConf.is_missing({X}, 'nokey')", "OmegaConf.unsafe_merge(copy.deepcopy({X}), {{}})", "{X}._get_flag('readonly')", "{X}._get_flag('struct')",
        "exec('with read_write(X): pass', {{**globals_(), 'X': {X}}})", "exec('with open_dict(X): pass', {{**globals_(), 'X': {X}}})", "exec('with flag_override(X, \"struct\", True): len(X)', {{**globals_(), 'X': {X}}})", "OmegaConf.get_resolver_('x')"]
ALLC += [f"OmegaConf.select({{X}}, '{p}{t}')" for p in ("p.m", "p.n", "p.lm", "p.ln", "p.v", "p.w", "p.i", "m", "n", "lm", "v") for t in (".x", ".x.y", "[0]", "[0].y")]
DICT = ["list({X}.items())", "list({X}.values())", "list({X}.keys())", "{X}.items_ex(resolve=False)", "dict(**{X})", "{X}.items_ex(resolve=True)", "list(reversed(list({X})))"]
DKEY = ["{X}[{k}]", "{X}.get({k})", "{X}.get({k}, 5)", "{k} in {X}", "OmegaConf.is_missing({X}, {k})", "OmegaConf.is_interpolation({X}, {k})", "OmegaConf.get_type({X}, {k})", "{X}._get_full_key({k})"]
LIST = ["{X}[0:2]", "{X}[::-1]", "{X}[-1]", "{X}.index(1)", "{X}.index('zz')", "{X}.count(1)", "{X} + [1]", "[1] + {X}", "sorted({X})", "{X}.__contains__({{'x': 1}})", "list(zip({X}, {X}))", "{X}.get(0)", "{X}.get(9, 3)", "{X}[None]", "{X}['0']", "OmegaConf.select({X}, '[0]')", "OmegaConf.select({X}, '2.x')"]
LKEY = ["{X}[{k}]", "OmegaConf.is_missing({X}, {k})", "OmegaConf.is_interpolation({X}, {k})", "OmegaConf.get_type({X}, {k})"]
NODE = ["str({X})", "repr({X})", "hash({X})", "{X} == 1", "copy.deepcopy({X})", "copy.copy({X})", "{X}._is_none()", "{X}._is_missing()", "{X}._is_interpolation()", "{X}._maybe_dereference_node()", "{X}._get_full_key('')"]
DEBUG = ["DBG.get_str({X})", "DBG.get_dictionary({X})"]


def globals_():
    return ENV


ENV["globals_"] = globals_
ENV["top_"] = lambda n: top(n)


def observers(src, tier):
    c = eval(src, dict(ENV))
    out = []
    k = 0
    for path, n in node_paths(c):
        X = f"at(c, {path!r})" if path else "c"
        if isinstance(n, (DictConfig, ListConfig)):
            depth = path.count("|") + 1 if path else 0
            gen = [o for o in ALLC if "get_resolver_" not in o and (not path or "'p." not in o)]
            out += [o.format(X=X) for o in (gen if depth < 2 else gen[::4])]
            isd = isinstance(n, DictConfig)
            cont = n.__dict__["_content"]
            out += [o.format(X=X) for o in (DICT if isd else LIST)]
            for key in (list(cont) if isinstance(cont, dict) else range(len(cont)) if isinstance(cont, list) else [])[:7]:
                k += 1
                kk = src_key(key)
                ks = DKEY if isd else LKEY
                out += [o.format(X=X, k=kk) for o in (ks if isd and tier == "thorough" else ks[:1] + ks[1 + k % 3::3])]
                if isd and attr_ok(kk):
                    out.append(f"{X}.{kk[1:-1]}")
        else:
            k += 1
            out += [o.format(X=X) for o in NODE[k % 4::4]]
        if DBG is not None and (not path or k % 2):
            out += [o.format(X=X) for o in DEBUG]
    return list(dict.fromkeys(out))


def top(n):
    while n is not None and n._get_parent() is not None:
        n = n._get_parent()
    return n


def state(ns):
    return snap(top(ns["c"]))


def norm(v):
    if isinstance(v, Node):
        return ("node", snap(v))
    if isinstance(v, dict):
        return ("dict", tuple((norm(k), norm(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple, set)):
        return (type(v).__name__, tuple(norm(x) for x in v))
    return enc(v)


def answer(ns, op):
    try:
        r = run(op, ns)
    except RecursionError:
        return ("exc", "RecursionError")
    if r[0] == "ok":
        return ("ok", norm(r[1]))
    if isinstance(r[1], (NameError, SyntaxError)) and "nokey" not in op and not isinstance(r[1], AttributeError):
        raise Harness(f"{op}: {r[1]}")
    return ("exc", type(r[1]).__name__, str(r[1]).splitlines()[:1])


def build(src):
    ns = dict(ENV)
    ns["c"] = eval(src, ns)
    return ns


def copy_ns(ns):
    out = dict(ns)
    out["c"] = clone(ns["c"], {})
    return out


def setup():
    OmegaConf.register_new_resolver("upper", lambda s: str(s).upper(), replace=True)


def report(src, hist, msg, res):
    res.violation(f"{src} ;; {' ;; '.join(hist)}", f"c = {src}\n" + "\n".join(hist) + f"\n{msg}", dict(src=src, hist=list(hist)))


def one(w, res):
    name, src, firsts, seconds, deep = w
    ns0 = build(src)
    s0 = state(ns0)
    fresh = {}

    def ans(o):
        if o not in fresh:
            ns = copy_ns(ns0)
            fresh[o] = answer(ns, o)
            if state(ns) != s0:
                report(src, [o], f"the observation changes the config: {sdiff(s0, state(ns))[:400]}", res)
        return fresh[o]

    for o1 in firsts:
        ans(o1)
        base = copy_ns(ns0)
        answer(base, o1)
        res.count("states")
        for o2 in seconds:
            want = ans(o2)
            ns = copy_ns(base)
            got = answer(ns, o2)
            res.count("transitions")
            res.count("validated")
            if got != want:
                report(src, [o1, o2], f"the second answer is {str(got)[:400]}, without the first observation it is {str(want)[:400]}", res)
            s = state(ns)
            if s != s0:
                report(src, [o1, o2], f"the observations change the config: {sdiff(s0, s)[:400]}", res)
            if deep:
                for o3 in deep:
                    ns3 = copy_ns(ns)
                    if answer(ns3, o3) != ans(o3):
                        report(src, [o1, o2, o3], "the third answer differs", res)
                    res.count("transitions")
                    if state(ns3) != s0:
                        report(src, [o1, o2, o3], "the observations change the config", res)
            if len(res.viol) > Result.MAXV:
                return
    res.sample(f"c = {src}: {firsts[0]}, then each of {len(seconds)} observers")
    res.seen(w[:3])


FLAGOPS = ["OmegaConf.set_readonly(c, True)", "OmegaConf.set_readonly(c, False)", "OmegaConf.set_readonly(c, None)", "OmegaConf.set_struct(c, True)", "OmegaConf.set_struct(c, False)", "OmegaConf.set_struct(c, None)", "OmegaConf.resolve(c)",
           "c.merge_with({})", "OmegaConf.update(c, 'd.x', 77, force_add=True)", "OmegaConf.update(c, 'd', {'x': 76}, force_add=True)", "OmegaConf.update(c, 'a', 75, force_add=True)", "c.merge_with({'a': 74})", "c.merge_with({'l': [73]})", "c.clear()", "OmegaConf.update(c, 'a', None)", "OmegaConf.update(c, 'a', '???')", "OmegaConf.update(c, 'a', '${d}')"]


def changes(src):
    """mutations of single values everywhere, and flag changes on every container"""
    from . import ops
    ops.NS.update({k: v for k, v in ENV.items() if k not in ops.NS})
    out = list(FLAGOPS)
    c = eval(src, dict(ENV))
    for path, n in node_paths(c):
        if path and isinstance(n, (DictConfig, ListConfig)):
            out += [f"OmegaConf.set_readonly(at(c, {path!r}), True)", f"OmegaConf.set_struct(at(c, {path!r}), True)", f"at(c, {path!r})._set_flag('readonly', None)"]
    return list(dict.fromkeys(out + ops.simple_ops(src, ["5", "{'x': 2}", "'${a}'"])))


def warm(w, res):
    """observe everything, change something, observe everything: the answers are those of a config which was only observed after the change"""
    name, src, obs, muts = w
    ns0 = build(src)
    hot = copy_ns(ns0)
    for o in obs:
        answer(hot, o)
    for m in muts:
        a, b = copy_ns(ns0), copy_ns(hot)
        ra, rb = answer(a, m), answer(b, m)
        res.count("transitions")
        if ra != rb:
            report(src, ["(all observers)", m], f"after the observations the change gives {str(rb)[:300]}, without them {str(ra)[:300]}", res)
        if state(a) != state(b):
            report(src, ["(all observers)", m], f"after the observations the change leads to another state: {sdiff(state(a), state(b))[:300]}", res)
        for o in obs:
            x, y = answer(a, o), answer(b, o)
            res.count("transitions")
            res.count("validated")
            if x != y:
                report(src, ["(all observers)", m, o], f"gives {str(y)[:300]} when everything was observed before the change, {str(x)[:300]} otherwise", res)
        res.count("states")
        if len(res.viol) > Result.MAXV:
            return


def dispatch(w, res):
    if w[0] == "warm":
        return warm(w[1:], res)
    return one(w, res)


def check(tier):
    setup()
    work = []
    for i, (name, src) in enumerate(BASE.items()):
        muts = changes(src)
        nf = len(FLAGOPS)
        if tier == "quick":
            muts = muts[:nf] + muts[nf + i % 6::6]
        for ch in chunks(muts, 6):
            work.append(("warm", name, src, observers(src, tier), ch))
    for name, src in BASE.items():
        obs = observers(src, tier)
        for i, ch in enumerate(chunks(obs, 6)):
            # quick: every first observer, a rotating fifth of the second ones
            work.append((name, src, ch, obs[i % 5::5] if tier == "quick" else obs, None))
        if tier == "thorough":
            small = obs[::6]
            for ch in chunks(small, 3):
                work.append((name, src, ch, small, small))
    res = parallel(dispatch, work)
    OmegaConf.clear_resolvers()
    return res


def replay(case, res):
    setup()
    src, hist = case["src"], case["hist"]
    if hist[0] == "(all observers)":
        obs = observers(src, "thorough")
        warm(("replay", src, obs + [o for o in observers(src, "quick") if o not in obs], [hist[1]]), res)
        return
    ns0 = build(src)
    s0 = state(ns0)
    ns = copy_ns(ns0)
    for o in hist:
        got = answer(ns, o)
        want = answer(copy_ns(ns0), o)
        if got != want or state(ns) != s0:
            report(src, hist, f"after {o}: {got} / {want}; {sdiff(s0, state(ns))[:400]}", res)
            return
