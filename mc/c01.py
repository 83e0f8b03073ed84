"""C01: ListConfig == python list, in lockstep, for every operation history up to a bound."""
import itertools

from .core import (DictConfig, ListConfig, OmegaConf, Result, World, bfs, clone, enc, parallel, plain, run, show_exc)

LEVEL = "model_checking"
ASSUMPTIONS = [
    "element alphabet: ints, a float, a bool, None, strings, one nested dict, one nested list, '???', interpolations",
    "operations a ListConfig documents not to support (non int/slice keys, index() with negative bounds) are outside",
]


def wellformed(c):
    for i in range(len(c)):
        n = c._get_node(i)
        if n is None or n._key() != i or n._get_parent() is not c:
            return f"element {i}: key={getattr(n, '_key', lambda: None)()!r}, parent ok={n is not None and n._get_parent() is c}"
    return None


class Lists(World):
    """c: the config list; L: the python list; every op is the same source text run on both (X)."""

    roots = ("root", "c", "L")

    def __init__(self, init, ops, embed, verbatim=False):
        self.init, self.ops, self.embed, self.verbatim = init, ops, embed, verbatim

    def build(self):
        L = eval(self.init)
        if self.embed:
            root = OmegaConf.create({"x": 7, "y": {"z": 8}, "l": eval(self.init)})
            c = root._get_node("l")
        else:
            root = c = OmegaConf.create(eval(self.init))
        return {"root": root, "c": c, "L": L, "OmegaConf": OmegaConf}

    def canon(self, ns):
        return (enc(ns["L"]), enc(plain(ns["c"])))

    def report(self, res, hist, op, sig, msg):
        if hist is None:
            return
        hist = hist + (op,)
        prog = ("from omegaconf import OmegaConf\n"
                f"L = {self.init}\n" +
                (f"root = OmegaConf.create(dict(x=7, y=dict(z=8), l={self.init})); c = root._get_node('l')\n"
                 if self.embed else f"c = OmegaConf.create({self.init})\n") +
                "for X in (L, c):\n" +
                "".join("    try: " + ("print(" + o + ")" if not _is_stmt(o) else o) +
                        "\n    except Exception as e: print(type(e).__name__)\n" for o in hist) +
                "    print(X)\n")
        res.violation(sig, f"init {self.init}; ops {' ; '.join(hist)}\n{msg}",
                      dict(init=self.init, embed=self.embed, verbatim=self.verbatim, hist=list(hist), program=prog))

    def step(self, ns, op, hist, res):
        c, L = ns["c"], ns["L"]
        if self.skip(op, L):
            return False
        before = enc(plain(c))
        ref = run(op, {"X": L})
        got = run(op, {"X": c})
        # augmented assignment rebinds nothing relevant: both mutate in place
        bad = None
        if ref[0] != got[0]:
            bad = f"python list: {self.show(ref)}; config: {self.show(got)}"
        elif ref[0] == "exc":
            if not isinstance(got[1], type(ref[1])) and not (
                    isinstance(ref[1], ValueError) and isinstance(got[1], ValueError)):
                bad = f"python list raises {show_exc(ref[1])}; config raises {show_exc(got[1])}"
            elif "sort" not in op and enc(plain(c)) != before:
                bad = f"failed operation changed the list to {plain(c)!r}"
        elif enc(plain(ref[1])) != enc(deep_plain(got[1])):
            bad = f"result: python {ref[1]!r}, config {got[1]!r}"
        if bad is None and enc(plain(c)) != enc(L):
            bad = f"content: python {L!r}, config {plain(c)!r}"
        if bad is None:
            w = wellformed(c)
            if w:
                bad = "list structure: " + w
        if bad is None and not self.verbatim:
            if [enc(deep_plain(x)) for x in c] != [enc(x) for x in L] or len(c) != len(L):
                bad = f"iteration gives {list(c)!r}, python {L!r}"
        if bad:
            self.report(res, hist, op, f"{op} on {self.init}", bad)
            return False
        return True

    def on_new(self, ns, hist, res):
        c, L = ns["c"], ns["L"]
        if not self.verbatim and (not (c == L) or c != L or (c == L + [99])):
            self.report(res, hist[:-1], hist[-1] if hist else "len(X)", "equality " + self.init,
                        f"{c!r} does not compare equal to the equal python list {L!r} (or equals a longer one)")
            return False
        return True

    def skip(self, op, L):
        if "sort" in op:
            return any(isinstance(x, (list, dict)) for x in L)
        return len(L) > 6

    @staticmethod
    def show(r):
        return f"returns {r[1]!r}" if r[0] == "ok" else "raises " + show_exc(r[1])


def _is_stmt(o):
    try:
        compile(o, "x", "eval")
        return False
    except SyntaxError:
        return True


def deep_plain(v):
    if isinstance(v, (list, tuple)):
        return type(v)(deep_plain(x) for x in v)
    if isinstance(v, dict):
        return {k: deep_plain(x) for k, x in v.items()}
    return plain(v)


VALS = ["9", "'s'", "None", "{'a': 1}", "[5]", "True", "1.5"]


def alphabet(tier):
    ops = []
    idx = range(-4, 5) if tier == "quick" else range(-5, 6)
    for i in idx:
        ops += [f"X[{i}]", f"del X[{i}]", f"X.pop({i})", f"X.insert({i}, 9)", f"X[{i}] = 9"]
    for i in (0, 1, -1):
        for v in VALS[1:]:
            ops.append(f"X[{i}] = {v}")
    ops += ["X.insert(1, {'a': 1})", "X.insert(0, None)", "X.insert(-1, [5])", "X.insert(0, 's')"]
    ops += [f"X.append({v})" for v in VALS]
    ops += ["X.pop()", "X.extend([])", "X.extend([1, 's'])", "X.extend((8,))", "X += [1]", "X += (2, None)",
            "X + [1]", "[1] + X", "X.clear()", "X.reverse()", "X.sort()", "X.sort(reverse=True)",
            "X.sort(key=str)", "X.sort(key=lambda v: -v)", "X.remove(9)", "X.remove('s')", "X.remove(1)",
            "X.remove(None)", "X.remove({'a': 1})",
            "X.index(9)", "X.index('s')", "X.index(1)", "X.index({'a': 1})", "X.count(1)", "X.count(9)", "X.count(None)",
            "9 in X", "'s' in X", "None in X", "1 in X", "{'a': 1} in X", "[5] in X", "7 not in X", "len(X)",
            "bool(X)", "list(reversed(X))", "X.extend(X)", "X += X", "X.copy()", "X.extend([X[0]])", "X.append(X[0])",
            "X[0] = X[-1]", "X[0], X[-1] = X[-1], X[0]", "X.insert(0, X[-1])"]
    for a, b in itertools.product((None, 0, 1, -1, 2, 9), repeat=2):
        s = f"{'' if a is None else a}:{'' if b is None else b}"
        ops.append(f"X[{s}]")
        if (a, b) in ((None, None), (0, 1), (1, None), (None, -1), (-1, 9), (1, 1), (2, 1), (-1, None)):
            ops += [f"del X[{s}]", f"X[{s}] = []", f"X[{s}] = [7]", f"X[{s}] = [7, None, 's']", f"X[{s}] = [{{'a': 1}}, [5]]"]
    ops += ["X[::2]", "X[::-1]", "del X[::2]", "X[::2] = [7]", "X[::2] = [7, 8]", "X[::-1] = [7, 8, 9]", "X[1:] = X", "X[:] = X",
            "X[0:1] = 3"]
    return ops


# structure-only operations on lists with missing values and interpolations: nothing is read, so the config must hold
# exactly the raw elements a python list of the same strings would hold
VVALS = ["9", "'???'", "'${x}'", "'a${y.z}b'", "{'k': '???', 'r': '${x}'}", "['${x}']", r"'\\\\${x}'"]


def alphabet_verbatim(tier):
    ops = []
    for i in (-4, -2, -1, 0, 1, 2, 4):
        ops += [f"del X[{i}]", f"X[{i}] = 9", f"X[{i}] = '${{x}}'", f"X[{i}] = '???'", f"X.insert({i}, '???')",
                f"X.insert({i}, '${{x}}')"]
    ops += [f"X.append({v})" for v in VVALS] + [f"X.insert(1, {v})" for v in VVALS]
    ops += ["X.extend(['???', '${x}'])", "X += ['${x}']", "X.clear()", "X.reverse()", "len(X)"]
    for s in ("0:1", "1:", ":-1", "1:1", "1:2", "-1:", ":", "5:", "::2"):
        ops += [f"del X[{s}]"]
        for v in ("[]", "[9]", "['???', 9]", "['${x}', {'k': '${x}'}]"):
            ops.append(f"X[{s}] = {v}")
    return ops


INITS = ["[]", "[1]", "[1, 's']", "[3, 1, 2]", "[None, {'a': 1}, [5]]", "[True, 1, 1.0]", "['b', 'a']",
         "[[1, 2], [3]]", "[{'a': [1, {'b': 2}]}, 9, 9]"]
VINITS = ["['???']", "['${x}', 1]", "[1, '???', '${x}']", "[{'k': '???'}, '${x}', 's']", "['???', ['${x}', '???']]",
          r"['\\${x}', 1]"]


def slices(tier):
    n = 5 if tier == "quick" else 7
    r = range(-n - 1, n + 2)
    for ln in range(n + 1):
        yield ("slice", ln, list(r))


def check(tier):
    d = 2 if tier == "quick" else 3
    ops, vops = alphabet(tier), alphabet_verbatim(tier)
    work = list(slices(tier))
    first = 12
    for init in INITS:
        for emb in (False, True):
            if tier == "quick" and emb and init not in INITS[3:5]:
                continue
            for i in range(0, len(ops), first):
                work.append(("bfs", init, emb, False, ops[i:i + first], d))
    for init in VINITS:
        for i in range(0, len(vops), first):
            work.append(("bfs", init, True, True, vops[i:i + first], d))
    # longer histories over a reduced alphabet
    red = ["X.insert(-1, 9)", "X.insert(1, {'a': 1})", "X.append('s')", "X.pop()", "X.pop(0)", "del X[1]", "X[-1] = [5]",
           "X[0] = 9", "X.sort(key=str)", "X.reverse()", "X[1:] = [7, 8]", "X[:1] = []", "del X[::2]", "X.extend([1, 2])",
           "X.remove(9)", "X += X", "X[0] = X[-1]", "X.insert(0, None)", "X.clear()"]
    for init in ("[1]", "[3, 1, 2]"):
        for o in red:
            work.append(("red", init, False, red, [o], 4 if tier == "quick" else 5))
    res = parallel(one, work)
    res.n["validated"] = res.n.get("transitions", 0)
    return res


def one(w, res):
    if w[0] == "slice":
        return do_slices(w[1], w[2], res)
    if w[0] == "red":
        _, init, emb, ops, only, d = w
        return bfs(Lists(init, ops, emb), d, res, only=only)
    _, init, emb, verb, only, d = w
    world = Lists(init, alphabet_verbatim("quick") if verb else alphabet("quick"), emb, verb)
    bfs(world, d, res, only=only)
    res.sample(f"init {init} embedded={emb}: every sequence of {d} of {len(world.ops)} operations starting with {only[0]}")


def do_slices(ln, rng, res):
    """Exhaustive slice reads, deletions and assignments on one list length."""
    import omegaconf  # noqa: F401

    base = list(range(10, 10 + ln))
    bounds = [None] + rng
    for a in bounds:
        for b in bounds:
            for s in (None, 1, 2, 3, -1, -2, -3):
                sl = f"{'' if a is None else a}:{'' if b is None else b}:{'' if s is None else s}"
                ops = [f"X[{sl}]", f"del X[{sl}]"]
                if (a is None or abs(a) <= ln + 1) and (b is None or abs(b) <= ln + 1):
                    ops += [f"X[{sl}] = [7]", f"X[{sl}] = [7, 8, 9]", f"X[{sl}] = []"]
                w = Lists(repr(base), ops, False)
                for op in ops:
                    ns = w.build()
                    w.step(ns, op, (), res)
                    res.count("transitions")
                    res.count("slice_cases")
                    if len(res.viol) >= Result.MAXV:
                        return


def replay(case, res):
    w = Lists(case["init"], [], case["embed"], case["verbatim"])
    ns = w.build()
    for o in case["hist"]:
        w.step(ns, o, (), res)
