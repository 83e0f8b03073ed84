"""C07: a failing single-value mutation leaves everything as it was, from every reachable state."""
from .core import sdiff, show_exc, snap
from .ops import CFGS, Gen, all_ops, replay_gen, simple_ops, sweep, tree_bad

LEVEL = "model_checking"
ASSUMPTIONS = ["mutations of several values at once (extend, slices, dict.update, merge) are outside the property"]
VALS = ["5", "'foo'", "None", "'???'", "'${a}'", "'${'", "{'q': 1}", "{'q': '${'}", "[1]", "[1, '${']", "[{'z': object()}]", "object()", "Pt(3)",
        "{'x': 'bad'}", "Pt('bad')", "Pt3(y='bad')", "Other()", "Other", "StringNode('foo')", "DictConfig({'x': 1}, flags={'readonly': True})",
        "1.5", "b'b'", "ListConfig([1, 'x'])", "DictConfig({'x': 'bad', 'zz': 1})"]
MID = ["5", "'${a}'", "None", "'???'", "{'x': 2}", "Pt3(x=2)", "[3]"]
BAD = ["'foo'", "'${'", "{'q': '${'}", "['x', '${']", "[{'z': object()}]", "object()", "Pt('bad')", "None", "Other()"]
FLAGGED = {
    "Uro": "OmegaConf.create({'a': 1, 'd': {'x': 1}, 'l': [1, [2]], 'r': DictConfig({'x': {'y': 1}}, flags={'readonly': True})}, flags={'struct': True})",
    "Pro": "OmegaConf.create({'p': DictConfig(Pt(2), flags={'readonly': True}), 'q': DictConfig(Pt(2), flags={'struct': False}), 'f': Frozen})",
}


class W(Gen):
    def pre(self, ns, op):
        return snap(ns["c"]), tree_bad(ns["c"])

    def mon(self, ns, op, pre, r):
        if r[0] == "ok":
            return None
        if snap(ns["c"]) != pre[0]:
            return f"{show_exc(r[1])}, but the config changed: {sdiff(pre[0], snap(ns['c']))}"
        b = tree_bad(ns["c"])
        if b and not pre[1]:
            return f"{show_exc(r[1])}, but afterwards {b}"


def check(tier):
    plan = []
    for name, src in {**CFGS, **FLAGGED}.items():
        ops = all_ops(src, VALS, multi=False)
        if name != "NestI" or tier != "quick":
            plan.append((src, 1, ops))
        if tier == "quick":
            plan.append((src, 2, simple_ops(src, MID), simple_ops(src, BAD)))
        else:
            plan.append((src, 2, all_ops(src, MID[:5], multi=False), all_ops(src, BAD + MID[:3], multi=False)))
            plan.append((src, 3, simple_ops(src, MID[:3]), simple_ops(src, MID[:3]), simple_ops(src, BAD[:5])))
    res = sweep(W, plan)
    res.n["validated"] = res.n["transitions"]
    return res


def replay(case, res):
    replay_gen(W, case, res)
