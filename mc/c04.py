"""C04: struct mode.  Every placement of struct flags x every operation, against an identical config that is open everywhere."""
import itertools
import re

from .core import DictConfig, ListConfig, OmegaConf, Result, children, clone, enc, parallel, plain, run, sdiff, show_exc, snap
from .ops import NS, all_ops, at, attr_ok, chunks, node_paths, src_key

LEVEL = "model_checking"
ASSUMPTIONS = ["merging a structured config into a node gives the node that class together with the fields of the class",
               "a value assigned to an existing key may bring any keys with it",
               "`del cfg.key` (attribute deletion) is allowed in struct mode, as the project's tests require"]

SRC = {
    "U": "OmegaConf.create({'a': 1, 'd': {'x': 1, 'e': {'y': 2}}, 'l': [3, {'k': 2}, [3]], 'm': '???', 'n': None, 'i': '${d}'})",
    "Mixed": "OmegaConf.create({'s': Pt, 'd': {'p': Pt3(), 'q': {}}, 't': DictConfig({'k': 1}, element_type=int), 1: {2: 3}, Color.RED: {True: 1}})",
    "Nest": "OmegaConf.structured(Nest(opt=Pt3(), a={'q': {'r': 1}}))",
    "Cont": "OmegaConf.structured(Cont)",
    "Special": "OmegaConf.create({'dn': DictConfig(None), 'dm': DictConfig('???'), 'di': DictConfig('${u}'), 'u': {'q': 1}, 'v': [{'w': 1}]})",
    "TSpecial": "OmegaConf.create({'tn': DictConfig(None, ref_type=Dict[str, int], element_type=int, key_type=str), 'tm': DictConfig('???', ref_type=Pt), 'on': DictConfig(None, ref_type=Pt), 'ds': DictConfig({'p': Pt(2)}, element_type=Pt)})",
}
VALS = ["5", "None", "'???'", "'${a}'", "{'q': 1}", "{'x': 1}", "[1]", "Pt(3)", "{}"]
QVALS = ["5", "None", "{'q': 1}", "Pt(3)"]


def extra(src):
    c = eval(src, dict(NS))
    out = []
    for p, n in node_paths(c):
        X = f"at(c, {p!r})"
        if isinstance(n, DictConfig):
            cont = n.__dict__["_content"]
            keys = [src_key(k) for k in cont][:4] if isinstance(cont, dict) else []
            for k in keys + ["'zz'", "7", "Color.GREEN", "b'zz'"]:
                out += [f"{X}[{k}]", f"{X}.get({k})", f"{X}.get({k}, 'D')", f"{k} in {X}"]
                if attr_ok(k):
                    out += [f"{X}.{k[1:-1]}", f"getattr({X}, {k}, 'D')", f"hasattr({X}, {k})", f"OmegaConf.select({X}, {k})", f"OmegaConf.select({X}, {k}, default='D')",
                            f"OmegaConf.is_missing({X}, {k})", f"OmegaConf.is_interpolation({X}, {k})", f"OmegaConf.masked_copy({X}, [{k}])"]
                else:
                    out += [f"{X}[{k}] = 5"]
            out += [f"list({X})", f"len({X})", f"str({X})", f"{X}.copy()", f"OmegaConf.to_container({X})", f"{X} == {X}.copy()"]
            for v in ("{}", "{'zz': 7}", "{'x': 7}", "{'d': {'zz': 7}}", "{'d': {'e': {'zz': 1}}}", "{'a': 2}", "{'d': {'x': 4}}", "{'l': [{'zz': 1}]}", "{'n': {'zz': 1}}", "{'m': {'zz': 1}}",
                      "{'d': None}", "{'d': '${l}'}", "{'d': 5}", "{'pt': {'zz': 1}}", "{'pt': Pt3(7)}", "{'opt': {'z': 'q'}}", "{'opt': {'zz': 'q'}}", "Pt3(4)", "Pt(2)", "Nest()",
                      "OmegaConf.create({'zz': 7})", "{'a': {'q': {'zz': 1}}}", "{'a': {'zz': {}}}", "{'ds': {'new': 3}}", "{'dp': {'p': {'zz': 1}}}", "{'dp': {'np': {'x': 1}}}",
                      "{'dp': {'np': {'zz': 1}}}", "{'li': [1]}", "{'s': {'zz': 1}}", "{'d': {'p': {'zz': 1}}}", "{'t': {'n': 3}}", "{1: {3: 4}}", "{1: {2: 4}}", "{Color.RED: {False: 1}}",
                      "{Color.GREEN: 1}", "{'dn': {'zz': 1}}", "{'dm': {'zz': 1}}", "{'di': {'zz': 1}}", "{'di': {'q': 2}}", "{'tn': {'zz': 1}}", "{'tm': {'x': 5}}", "{'tm': {'zz': 5}}",
                      "{'on': {'zz': 5}}", "{'v': [{'zz': 2}]}", "DictConfig(None)", "DictConfig('???')", "DictConfig('${a}')"):
                out += [f"{X}.merge_with({v})", f"OmegaConf.unsafe_merge({X}, {v})"]
                if v[0] == "{":
                    out.append(f"{X}.update({v})")
            for k in ("'d.zz'", "'d.x'", "'zz.y'", "'d.e.zz.w'", "'d[zz]'", "'l.1.zz'", "'pt.zz'", "'pt.x'", "'n.zz'", "'opt.zz'", "'a.q.zz'", "'dp.np'", "'dp.p.zz'", "'dp.np.x'", "'s.zz'", "'tm.x'", "'dn.zz'", "'v[0].zz'"):
                for v in ("9", "{'w': 1}"):
                    for fl in ("", ", merge=False", ", force_add=True", ", merge=False, force_add=True"):
                        out.append(f"OmegaConf.update({X}, {k}, {v}{fl})")
            out += [f"{X}.merge_with_dotlist([{a!r}])" for a in ("zz=1", "x=2", "d.zz=1", "d.x=5", "a=3", "pt.zz=1", "zz.y=1")]
            out += [f"{X}.update(zz=1)", f"{X}.update(x=2)", f"{X}.setdefault('zz')", f"{X}.update([('zz', 1)])", f"{X}.update([('x', 5)])"]
        elif isinstance(n, ListConfig):
            out += [f"{X}.append({{'zz': 1}})", f"{X}.merge_with([{{'zz': 1}}])", f"{X}.merge_with([{{'zz': 1}}], list_merge_mode=ListMergeMode.EXTEND)",
                    f"OmegaConf.update({X}, '0.zz', 1)", f"OmegaConf.update({X}, '1.zz', 1)", f"OmegaConf.update({X}, '1.k', 1)", f"OmegaConf.update({X}, '0.zz', 1, force_add=True)", f"OmegaConf.update({X}, '1.zz', 1, force_add=True)"]
    return out


def closed(n):
    """Does struct mode hold at this dict? (own flag, else structured class, else nearest ancestor's flag)"""
    own = (n._metadata.flags or {}).get("struct")
    ot = n._metadata.object_type
    from omegaconf._utils import is_structured_config
    if own is not None and (own or True):
        if own:
            return True
        return False
    if is_structured_config(ot):
        return True
    p = n._get_parent()
    while p is not None:
        f = (p._metadata.flags or {}).get("struct")
        if f is not None:
            return f
        p = p._get_parent()
    return False


def nodes(n):
    yield n
    for _, x in children(n):
        yield from nodes(x)


def keys(n):
    c = n.__dict__["_content"]
    return [enc(k) for k in c] if isinstance(c, dict) else None


def opened(c):
    for n in nodes(c):
        if n._metadata.flags:
            n._metadata.flags.pop("struct", None)
        n.__dict__["_flags_cache"] = None
    for n in nodes(c):
        if isinstance(n, DictConfig):
            OmegaConf.set_struct(n, False)
    return c


TGT = re.compile(r"at\(c, '([^']*)'\)")
DEL = re.compile(r"\.(pop|popitem|__delitem__)\(")
READ = re.compile(r"^at\(c, '[^']*'\)(\[[^=]*\]|\.\w+|\._get_node\(.*\))$")


def try_op(placement, op, base, res):
    tgt_path = TGT.search(op).group(1)
    ns, t = dict(NS), dict(NS)
    c = ns["c"] = clone(base)
    tw = t["c"] = opened(clone(base))
    tgt = at(c, tgt_path)
    pair = {id(a): b for a, b in zip(nodes(c), nodes(tw))}
    before = {id(n): (n, keys(n), n._metadata.object_type) for n in nodes(c) if isinstance(n, DictConfig) and closed(n)}
    force = "force_add=True" in op
    mergelike = "merge" in op and "merge=False" not in op or op.startswith("OmegaConf.update") and "merge=False" not in op
    last = tgt
    if op.startswith("OmegaConf.update"):
        for part in re.findall(r"\w+", re.search(r"\), '([^']*)'", op).group(1))[:-1] if "at(c, '') , " not in op else []:
            nxt = at(last, part) if isinstance(last, DictConfig) or isinstance(last, ListConfig) and part.isdigit() else None
            if nxt is None or not isinstance(nxt, (DictConfig, ListConfig)):
                break
            last = nxt
    exempt = set()
    if not mergelike:
        exempt = {id(n) for n in nodes(last)} - {id(last)}
    old = {id(b): keys(b) for b in pair.values() if isinstance(b, DictConfig)}
    r, rt = run(op, ns), run(op, t)
    res.count("transitions", 2)
    res.count("states")
    here = {id(n): n for n in nodes(c)}

    def grown(n, ks, ot, removed=False):
        if ks is None or id(n) in exempt and True:
            return None
        now = keys(n)
        if now is None:
            return None
        if n._metadata.object_type is not ot:
            return None  # became a structured config
        return [k for k in now if k not in ks] or ([k for k in ks if k not in now] if removed else None)

    for i, (n, ks, ot) in before.items():
        if force and n is last or i not in here:
            continue
        g = grown(n, ks, ot)
        if g and not (r[0] == "exc" and mergelike and re.search(r"Pt|Nest", op)):
            return f"a key appeared in struct mode: {g} ({outcome(r)})"
    if force:
        return same(c, tw, r, rt, "force_add=True must act as on an open config")
    if DEL.search(op) and id(tgt) in before:
        if r[0] == "ok":
            return f"a key can be popped or deleted in struct mode ({outcome(r)})"
        res.count("refused")
        if keys(tgt) != before[id(tgt)][1]:
            return "keys changed by a refused deletion"
        return None
    if READ.match(op) and id(tgt) in before and r[0] == "ok" and rt[0] == "exc":
        return f"reading works only in struct mode: {outcome(r)}"
    if READ.match(op) and "_get_node" not in op and id(tgt) in before and before[id(tgt)][1] is not None:
        k = eval(op[op.index(")") + 2:-1], dict(NS)) if op.endswith("]") else op.rsplit(".", 1)[1]
        if enc(k) not in before[id(tgt)][1] and not hasattr(DictConfig, str(k)):
            if r[0] == "ok" and OmegaConf.get_type(tgt) is dict and not isinstance(k, str):
                pass
            if r[0] == "ok" and not converts(tgt, k, before[id(tgt)][1]):
                return f"reading an unknown key in struct mode gives {r[1]!r}"
            res.count("refused")
            return None
    unknown = re.match(r"^OmegaConf\.(is_missing|is_interpolation)\(at\(c, '[^']*'\), ('\w+')\)$", op)
    if unknown and id(tgt) in before and enc(eval(unknown[2])) not in (before[id(tgt)][1] or []):
        return None  # reading an unknown key: may raise
    twhere = {id(n) for n in nodes(tw)}
    needs = [n for i, (n, ks, ot) in before.items() if id(pair[i]) in twhere and i not in exempt and ks is not None
             and keys(pair[i]) is not None and pair[i]._metadata.object_type is ot and keys(pair[i]) != ks]
    if "del" in op and op.startswith("delattr"):
        needs = []
        if OmegaConf.get_type(tgt) is not dict or r[0] == "exc":
            return None
    if needs:
        res.count("refused")
        if op.endswith(".clear()"):
            return None  # the keys were checked above
        if r[0] == "ok":
            return f"adds a key to the open twin, but succeeds in struct mode ({outcome(r)})"
        return None
    if r[0] == "exc" and re.search(r"is not in struct|not in '", str(r[1])) and (mergelike or op.startswith("OmegaConf.update")):
        if any(isinstance(n, DictConfig) and keys(n) and old.get(id(n)) is None for n in nodes(tw)):
            return None  # new keys in a node that had no content yet
    res.count("compared")
    return same(c, tw, r, rt, "adds and removes no key, so must act as on an open config")


def converts(n, k, ks):
    """unknown as written but converted to an existing key of a typed dict"""
    try:
        return enc(n._validate_and_normalize_key(k)) in ks
    except Exception:
        return False


def same(c, tw, r, rt, why):
    if r[0] != rt[0]:
        return f"{why}: {outcome(r)}; open config: {outcome(rt)}"
    if r[0] == "ok" and val(r[1]) != val(rt[1]):
        return f"{why}: returns {plain(r[1])!r}; open config: {plain(rt[1])!r}"
    a, b = snap(c, flags=False), snap(tw, flags=False)
    if a != b and r[0] == "ok":
        return f"{why}: {sdiff(b, a)}"


def val(v):
    """value without flags"""
    if isinstance(v, (tuple, list)):
        return tuple(map(val, v))
    return snap(v, flags=False) if isinstance(v, (DictConfig, ListConfig)) else enc(v)


def outcome(r):
    return f"returns {r[1]!r}"[:150] if r[0] == "ok" else "raises " + show_exc(r[1])


def one(w, res):
    src, ops, pl = w
    base = eval(src, dict(NS))
    for p, v in pl:
        OmegaConf.set_struct(at(base, p), v)
    for op in ops:
        bad = try_op(pl, op, base, res)
        if bad:
            res.violation(f"{src} {pl} {op}", f"c = {src}\nstruct flags {pl}\n{op}\n{bad}", dict(src=src, placement=pl, op=op))
            if len(res.viol) >= Result.MAXV:
                return
    res.sample(f"c = {src}; struct flags {pl}: {len(ops)} operations, e.g. {ops[len(ops) // 2]}")


def placements(src, tier):
    c = eval(src, dict(NS))
    conts = [p for p, n in node_paths(c) if isinstance(n, (DictConfig, ListConfig))]
    below = lambda a, b: a != b and (a == "" or b.startswith(a + "|"))
    out = [()] + [((p, True),) for p in conts] + [((a, True), (b, False)) for a in conts for b in conts if below(a, b) and (a == "" or tier != "quick")]
    out += [((a, False),) for a in conts if tier != "quick" or src.startswith("OmegaConf.structured")]
    if tier != "quick":
        out += [((a, False), (b, True)) for a in conts for b in conts if below(a, b)]
        out += [((a, True), (b, False), (d, True)) for a, b, d in itertools.product(conts, repeat=3) if below(a, b) and below(b, d)]
        out += [((a, True), (b, True)) for a, b in itertools.combinations(conts, 2) if not below(a, b)]
    return out


def check(tier):
    work = []
    for name, src in SRC.items():
        ops = list(dict.fromkeys(all_ops(src, QVALS if tier == "quick" else VALS, newkeys=("'zz'", "'x'")) + extra(src)))
        for pl in placements(src, tier):
            for ch in chunks(ops, 600):
                work.append((src, ch, pl))
    res = parallel(one, work)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    base = eval(case["src"], dict(NS))
    for p, v in case["placement"]:
        OmegaConf.set_struct(at(base, p), v)
    bad = try_op(case["placement"], case["op"], base, res)
    if bad:
        res.violation("replay", bad, case)
