"""C06: read_write, open_dict and flag_override restore the explicit flags.  All nestings of blocks over nodes and flags x body x exit."""
import itertools

from .core import DictConfig, ListConfig, Node, OmegaConf, Result, UnionNode, children, clone, parallel, show_exc
from .ops import NS, at, chunks
from omegaconf import flag_override, open_dict, read_write

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["blocks are left in the reverse order of entering them (the with statement)",
               "a flag which the body itself sets on a node keeps that value unless a surrounding block overrides that flag of that node"]

SRC = ["OmegaConf.create({'d': {'x': 1, 'e': {'y': 2}}, 'l': [1, {'k': 2}], 'a': 1})",
       "OmegaConf.structured(Nest(opt=Pt()))",
       "OmegaConf.create({'d': Frozen, 'l': DictConfig(None), 'a': '???'})"]
NODES = {0: ["", "d", "d|e", "l", "a"], 1: ["", "pt", "li", "u", "pt|x"], 2: ["", "d", "d|sub", "l", "a"]}
INIT = [(), (("", "readonly", True),), (("", "struct", True), (1, "struct", False)), ((1, "readonly", True), (1, "struct", True)), (("", "readonly", False), (1, "readonly", True), ("", "other", False)),
        ((3, "readonly", True), ("", "struct", False), (1, "other", True))]
BLOCKS = [("rw", None), ("od", None), ("fo", ("readonly", True)), ("fo", (["readonly", "struct"], [True, False])), ("fo", (["struct", "readonly"], None)), ("fo", ("other", True)),
          ("fo", (["readonly", "other", "struct"], False))]
# body: (source, flag changes it makes itself)
BODY = ["pass", "c[k0] = {'new': 1}", "n[k0] = 5", "n.zz = 1", "del n[k0]", "c.merge_with({k1: {'x': 3}})", "OmegaConf.update(c, k1 + '.zz', 1, force_add=True)", "OmegaConf.update(n, 'q.r', 1, force_add=True)",
        "n._set_value(None)", "n._set_value({'x': object()})", "n.update({k0: 1})", "n.clear()", "OmegaConf.set_readonly(n, True)", "OmegaConf.set_struct(n, None)", "copy.deepcopy(c)", "n._set_value('???')",
        "OmegaConf.merge(c, {k1: {'x': 3}})", "c.merge_with({k1: None})", "flag_override(n, ['readonly', 'struct'], [True, True, False]).__enter__()"]
EXITS = ["normal", "raise", "return", "close", "raise1", "raise0"]


class Boom(BaseException):
    pass


def enter(b, n):
    kind, a = b
    return read_write(n) if kind == "rw" else open_dict(n) if kind == "od" else flag_override(n, *a)


def names(b):
    """{flag: value} which the block sets"""
    kind, a = b
    if kind == "rw":
        return {"readonly": False}
    if kind == "od":
        return {"struct": False}
    ns, vs = a
    ns = [ns] if isinstance(ns, str) else ns
    vs = vs if isinstance(vs, list) else [vs] * len(ns)
    return dict(zip(ns, vs))


def nodes(n):
    """the nodes a user can reach (not the value node inside a union node)"""
    yield n
    if not isinstance(n, UnionNode):
        for _, x in children(n):
            yield from nodes(x)


def flags(n):
    return {k: v for k, v in (n._metadata.flags or {}).items() if v is not None}


def effective(n, f):
    while n is not None:
        v = flags(n).get(f)
        if v is not None:
            return v
        if n._metadata.flags_root:
            return None
        n = n._get_parent()


def execute(src_i, init, blocks, body, exit_):
    """-> None or message"""
    c = clone(BASE[src_i])
    paths = NODES[src_i]
    for p, f, v in init:
        at(c, paths[p] if p else "")._set_flag(f, v)
    allnodes = list(nodes(c))
    for n in allnodes:
        for f in ("readonly", "struct", "other"):
            n._get_flag(f)
    model = {id(n): flags(n) for n in allnodes}
    ns = dict(NS)
    tgt = at(c, paths[blocks[-1][1]])
    ns.update(c=c, n=tgt, k1=paths[1])
    ns["k0"] = next(iter(tgt.__dict__["_content"]), 0) if isinstance(tgt, DictConfig) and isinstance(tgt.__dict__["_content"], dict) else 0
    bad = []

    def compare(where):
        if bad:
            return
        live = {id(x) for x in nodes(c)}
        for n in allnodes:
            if flags(n) != model[id(n)]:
                bad.append(f"{where}: explicit flags of {type(n).__name__} {n._metadata.key!r} are {flags(n)}, should be {model[id(n)]}")
                return
            if id(n) in live:
                for f in ("readonly", "struct", "other"):
                    if n._get_flag(f) != effective(n, f):
                        bad.append(f"{where}: {type(n).__name__} {n._metadata.key!r}: {f} is {n._get_flag(f)}, inherited value {effective(n, f)}")
                        return

    def inner():
        """body as a generator, so that it can be closed at its yield"""
        try:
            exec(compile(body, "<body>", "exec"), ns)
        except Exception as e:
            self_raised.append(e)
            note_flags(body)
            compare("after the failed body")
            raise
        note_flags(body)
        compare("after the body")
        if exit_ == "raise":
            raise boom
        yield 1

    def note_flags(b):
        if b.startswith("OmegaConf.set_readonly"):
            model[id(tgt)]["readonly"] = True
        elif b.startswith("OmegaConf.set_struct"):
            model[id(tgt)].pop("struct", None)

    def go(i):
        if i == len(blocks):
            yield from inner()
            return
        b, p = blocks[i]
        n = at(c, paths[p]) if at(c, paths[p]) in allnodes_id else tgt
        n = picked[i]
        m = model[id(n)]
        want = names(b)
        prev = {f: m.get(f) for f in want}
        try:
            with enter(b, n) as got:
                for f, v in want.items():
                    m.pop(f, None)
                    if v is not None:
                        m[f] = v
                if got is not n:
                    bad.append("the block does not give the node itself")
                compare(f"inside block {i}")
                yield from go(i + 1)
                if exit_ == f"raise{i}":
                    raise boom
        finally:
            for f, v in prev.items():
                m.pop(f, None)
                if v is not None:
                    m[f] = v
            compare(f"after block {i}")

    allnodes_id = ()
    picked = [at(c, paths[p]) for _, p in blocks]
    boom = Boom()
    self_raised = []

    def drive():
        g = go(0)
        if exit_ == "close":
            next(g)
            g.close()
        elif exit_ == "return":
            for _ in g:
                return 7
        else:
            for _ in g:
                pass

    caught = None
    try:
        drive()
    except (Boom, Exception) as e:
        caught = e
    want = self_raised[0] if self_raised else boom if exit_.startswith("raise") and (exit_ == "raise" or int(exit_[5:]) < len(blocks)) else None
    if not bad and caught is not want:
        bad.append(f"raises {caught!r}, should " + (f"raise {want!r}" if want is not None else "not raise"))
    import gc
    compare("at the end")
    return bad[0] if bad else None


BASE = []


def one(w, res):
    if not BASE:
        BASE.extend(eval(s, dict(NS)) for s in SRC)
    src_i, blocks, bodies, inits, exits = w
    for bl in blocks:
        for init in inits:
            for body in bodies:
                for ex in exits:
                    bad = execute(src_i, INIT[init], bl, body, ex)
                    res.count("evaluations")
                    res.count("faults", ex.startswith("raise") or ex == "close")
                    res.seen((src_i, init, bl, body, ex))
                    if bad:
                        case = dict(src=src_i, init=init, blocks=bl, body=body, exit=ex)
                        res.violation(f"{SRC[src_i]} {INIT[init]} {bl} {body} {ex}", f"c = {SRC[src_i]}\nflags {INIT[init]}\nblocks {[(b, NODES[src_i][p]) for b, p in bl]}\n{body}; exit: {ex}\n{bad}", case)
                        if len(res.viol) >= Result.MAXV:
                            return
    res.sample(f"{SRC[src_i]}: blocks {blocks[0]}, body {bodies[-1]}, exit {exits[-1]}")


def check(tier):
    work = []
    q = tier == "quick"
    for s in range(len(SRC)):
        B = [(b, p) for b in BLOCKS for p in range(5)]
        one_ = [(b,) for b in B]
        for ch in chunks(one_, 6):
            work.append((s, ch, BODY, range(len(INIT)), ["normal", "raise", "return", "close", "raise0"]))
        two = list(itertools.product(B, B))
        for ch in chunks(two, 40):
            work.append((s, ch, [BODY[0], BODY[2], BODY[9]] if q else BODY, range(0, len(INIT), 2 if q else 1), ["normal", "raise", "raise1"] if q else EXITS))
        small = [(b, p) for b in (BLOCKS[0], BLOCKS[1], BLOCKS[4], BLOCKS[6]) for p in ((0, 1) if q else (0, 1, 2))]
        for ch in chunks(list(itertools.product(small, repeat=3)), 40):
            work.append((s, ch, ["pass", "n[k0] = 5"] if q else BODY[:3], [4] if q else [2, 4], ["normal", "raise", "raise1"]))
        if not q:
            small = [(b, p) for b in (BLOCKS[0], BLOCKS[1], BLOCKS[6]) for p in (0, 1)]
            for ch in chunks(list(itertools.product(small, repeat=4)), 40):
                work.append((s, ch, ["n[k0] = 5"], [2, 4], ["normal", "raise", "raise1", "raise0"]))
    return parallel(one, work)


def COVERAGE(tier, res):
    return dict(rule="a case is (config, initial flags, nested blocks, body, way of leaving); all are distinct and each executes its blocks on the real code", points_enumerated=res.n.get("evaluations", 0), faults_injected=res.n.get("faults", 0), crash_points=res.n.get("faults", 0))


def replay(case, res):
    if not BASE:
        BASE.extend(eval(s, dict(NS)) for s in SRC)
    bl = [((b[0], tuple(b[1]) if b[1] else None), p) for b, p in case["blocks"]]
    bad = execute(case["src"], [tuple(x) for x in INIT[case["init"]]], bl, case["body"], case["exit"])
    if bad:
        res.violation("replay", bad, case)
