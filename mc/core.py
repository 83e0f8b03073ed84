"""Explorer core: lockstep execution of op histories on the real code, exhaustive enumeration, evidence, replay."""
import hashlib
import json
import math
import multiprocessing
import os
import sys
import time
import traceback

from . import boot as _boot

_boot.boot()

import omegaconf  # noqa: E402
from omegaconf import DictConfig, ListConfig, OmegaConf  # noqa: E402
from omegaconf.base import Box, Metadata, Node, UnionNode  # noqa: E402
from omegaconf.nodes import ValueNode  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_NPROC", "0")) or min(8, os.cpu_count() or 1)
# wall-clock budget for thorough runs (quick runs never hit it)
BUDGET = float(os.environ.get("MC_BUDGET", "760"))
DEADLINE = time.time() + BUDGET


# ---------------------------------------------------------------- values
def enc(v):
    """Canonical, type-exact encoding of a plain value (distinguishes 1/1.0/True, handles nan)."""
    if isinstance(v, Node):
        return ("node", type(v).__name__, snap(v))
    if isinstance(v, dict):
        return ("dict", type(v).__name__, tuple((enc(k), enc(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(enc(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted(map(repr, map(enc, v)))))
    if isinstance(v, float):
        return ("float", "nan" if math.isnan(v) else repr(v))
    if isinstance(v, type):
        return ("type", v.__module__ + "." + v.__qualname__)
    if isinstance(v, (str, bytes, int, bool, type(None))):
        return (type(v).__name__, v)
    return (type(v).__name__, repr(v))


def plain(v):
    """to_container for configs, identity otherwise (unresolved)."""
    if isinstance(v, (DictConfig, ListConfig)):
        return OmegaConf.to_container(v, resolve=False)
    if isinstance(v, Node):
        return v._value()
    return v


def children(n):
    """[(key, child node)] of a Box (containers and the value inside a union)."""
    c = n.__dict__.get("_content")
    if isinstance(n, UnionNode):
        return [(None, c)] if isinstance(c, Node) else []
    if isinstance(c, dict):
        return list(c.items())
    if isinstance(c, list):
        return list(enumerate(c))
    return []


def snap(n, flags=True, types=True, keys=True):
    """Everything observable about a tree: content, element order, static types, runtime types, flags, stored keys."""
    if not isinstance(n, Node):
        return ("NOT-A-NODE", repr(n))
    m = n._metadata
    out = [type(n).__name__]
    if types:
        out.append((str(m.ref_type), m.optional, str(m.object_type), str(getattr(m, "key_type", None)),
                    str(getattr(m, "element_type", None))))
    if flags:
        out.append(tuple(sorted((k, v) for k, v in (m.flags or {}).items() if v is not None)))
        out.append(bool(m.flags_root))
    if keys:
        out.append(enc(m.key))
    if isinstance(n, Box):
        c = n.__dict__["_content"]
        if c is None or isinstance(c, str):
            out.append(("special", c))
        else:
            out.append(tuple((enc(k), snap(x, flags, types, keys)) for k, x in children(n)))
    else:
        out.append(enc(n._value()))
    return tuple(out)


def sdiff(a, b, path=""):
    """First few differing leaves of two snapshots."""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        ds = [sdiff(x, y, f"{path}/{i}") for i, (x, y) in enumerate(zip(a, b)) if x != y]
        keyed = a[0] if a and isinstance(a[0], str) else ""
        return "; ".join((f"{keyed}:" if keyed else "") + d for d in ds[:3])
    return f"{str(a)[:200]} -> {str(b)[:200]}"


def h(x):
    return hashlib.blake2b(repr(x).encode("utf8", "backslashreplace"), digest_size=12).digest()


# ---------------------------------------------------------------- cloning without using the code under test
_ATOM = (str, bytes, int, float, bool, type(None), type)


def clone(o, memo=None):
    """Structure-preserving copy of an object graph of omegaconf nodes, using none of omegaconf's own copy code."""
    if memo is None:
        memo = {}
    if isinstance(o, _ATOM):
        return o
    i = id(o)
    r = memo.get(i)
    if r is not None:
        return r
    t = type(o)
    if isinstance(o, (Node, Metadata)):
        r = object.__new__(t)
        memo[i] = r
        d = r.__dict__
        for k, v in o.__dict__.items():
            d[k] = clone(v, memo)
        return r
    if t is dict:
        r = memo[i] = {}
        for k, v in o.items():
            r[clone(k, memo)] = clone(v, memo)
        return r
    if t is list:
        r = memo[i] = []
        r.extend(clone(v, memo) for v in o)
        return r
    if t.__name__ == "defaultdict":
        r = memo[i] = t(o.default_factory)
        for k, v in o.items():
            r[clone(k, memo)] = clone(v, memo)
        return r
    if t is set:
        r = memo[i] = set(clone(v, memo) for v in o)
        return r
    return o


# ---------------------------------------------------------------- running source-text operations
_code = {}


def run(src, ns):
    """Run one operation given as source text.  -> ('ok', value) or ('exc', exception)"""
    c = _code.get(src)
    if c is None:
        try:
            c = (True, compile(src, "<op>", "eval"))
        except SyntaxError:
            c = (False, compile(src, "<op>", "exec"))
        _code[src] = c
    try:
        if c[0]:
            return ("ok", eval(c[1], ns))
        exec(c[1], ns)
        return ("ok", None)
    except RecursionError:
        raise
    except Exception as e:  # noqa: B902
        return ("exc", e)


def show_exc(e):
    return f"{type(e).__name__}: {str(e).splitlines()[0] if str(e) else ''}"


# ---------------------------------------------------------------- results
class Result:
    """Counters, samples and violations of (a part of) a run; mergeable across worker processes."""

    MAXV = int(os.environ.get("MC_MAXV", "12"))

    def __init__(self):
        self.n = {}
        self.hashes = set()
        self.samples = []
        self.viol = []  # dicts: sig, msg, case
        self.known = {}  # sig -> msg
        self.capped = False
        self.out = []  # whatever the driver hands back

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, x):
        self.hashes.add(h(x))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, sig, msg, case):
        for k in KNOWN:
            if k["sig"] == sig:
                self.known[sig] = k.get("what", msg)
                return
        if len(self.viol) < self.MAXV:
            self.viol.append(dict(sig=sig, msg=msg, case=case))

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        self.hashes |= o.hashes
        for s in o.samples:
            self.sample(s, 10)
        self.viol.extend(o.viol)
        self.out.extend(o.out)
        self.known.update(o.known)
        self.capped |= o.capped


KNOWN = []  # known findings of the property under check, set by main()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d["property"] == pid:
                        out.append(d)
    return out


class Harness(Exception):
    """The check itself is broken (exit 2)."""


def _take(nxt, n, step):
    """work shared by the workers: the next items not yet taken"""
    while True:
        with nxt.get_lock():
            a = nxt.value
            nxt.value = a + step
        if a >= n:
            return
        yield from range(a, min(a + step, n))


def _worker(fn, items, order, q):
    res = Result()
    try:
        for j in order:
            if time.time() > DEADLINE:
                res.capped = True
                break
            try:
                fn(items[j], res)
            except Harness:
                raise
            except Exception as e:  # an operation which must succeed raised
                tb = traceback.extract_tb(e.__traceback__)
                if any("/omegaconf/" in f.filename for f in tb):
                    res.violation("driver-exception", "".join(traceback.format_exception(e))[-3000:],
                                  {"item": repr(items[j])[:2000]})
                else:
                    raise
            if len(res.viol) >= Result.MAXV:
                break
        q.put(("ok", res))
    except BaseException:
        q.put(("err", traceback.format_exc()))


def parallel(fn, items, nproc=None):
    """fn(item, result) for every item, spread over forked workers; union of the results."""
    items = list(items)
    nproc = max(1, min(nproc or NPROC, len(items)))
    total = Result()
    if nproc == 1 or os.environ.get("MC_SERIAL"):
        class Q:
            def put(self, x):
                self.x = x
        q = Q()
        _worker(fn, items, range(len(items)), q)
        if q.x[0] == "err":
            raise Harness(q.x[1])
        return q.x[1]
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    sys.stdout.flush()
    nxt = ctx.Value("l", 0)
    step = max(1, min(16, len(items) // (nproc * 64)))
    ps = [ctx.Process(target=_worker, args=(fn, items, _take(nxt, len(items), step), q), daemon=True) for i in range(nproc)]
    for p in ps:
        p.start()
    outs = []
    err = None
    for _ in ps:
        while True:
            try:
                kind, r = q.get(timeout=5)
                break
            except Exception:
                if all(not p.is_alive() for p in ps) and q.empty():
                    raise Harness("a worker process died")
        if kind == "err":
            err = r
        else:
            outs.append(r)
    for p in ps:
        p.join()
    if err:
        raise Harness(err)
    for r in outs:
        total.merge(r)
    total.viol.sort(key=lambda v: (len(repr(v["case"])), v["sig"]))
    return total


# ---------------------------------------------------------------- explicit-state breadth-first search
class World:
    """A system under test for BFS.

    build()            -> ns: dict of live objects (fresh)
    ops                -> list of source-text operations over ns
    canon(ns)          -> hashable canonical state (merging states with the same futures only)
    step(ns, op, hist, res) -> run op on ns, check it, return True to continue from the new state
    roots              -> names in ns that hold state to be cloned
    """

    roots = ("c",)

    def build(self):
        raise NotImplementedError

    def clone(self, ns):
        memo = {}
        out = dict(ns)
        for r in self.roots:
            out[r] = clone(ns[r], memo)
        return out

    def on_new(self, ns, hist, res):
        """Checked once per distinct state; return False not to continue from it."""
        return True

    def ops_at(self, d):
        return self.ops

    def replay(self, hist):
        ns = self.build()
        scratch = Result()
        for op in hist:
            self.step(ns, op, None, scratch)
        return ns


def bfs(world, depth, res, max_states=None, deadline=None, only=None):
    """Breadth-first over all op sequences up to `depth`, merging equal canonical states (in this process)."""
    ns0 = world.build()
    seen = {h(world.canon(ns0))}
    frontier = [((), ns0)]
    res.count("states")
    world.on_new(ns0, (), res)
    for d in range(depth):
        nxt = []
        for hist, ns in frontier:
            ops = world.ops_at(d)
            if d == 0 and only is not None:
                ops = only
            for op in ops:
                n2 = world.clone(ns)
                ok = world.step(n2, op, hist, res)
                res.count("transitions")
                if len(res.viol) >= Result.MAXV:
                    return
                if not ok:
                    continue
                k = h(world.canon(n2))
                if k in seen:
                    continue
                seen.add(k)
                res.count("states")
                if not world.on_new(n2, hist + (op,), res):
                    continue
                if d + 1 < depth:
                    nxt.append((hist + (op,), n2))
            if time.time() > (deadline or DEADLINE):
                res.capped = True
                return
            if max_states and len(seen) > max_states:
                res.capped = True
                return
        frontier = nxt


# ---------------------------------------------------------------- entry point
def finish(pid, tier, level, res, t0, coverage, assumptions):
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(coverage)
    cov.setdefault("samples", res.samples[:10] or ["(none)"])
    if level == "model_checking":
        cov.setdefault("states", res.n.get("states", 0))
        cov.setdefault("transitions", res.n.get("transitions", 0))
        cov.setdefault("traces_validated_against_impl", res.n.get("validated", 0))
    else:
        cov.setdefault("rule", "cases are enumerated systematically from the bounded alphabet; counted as non-trivial if the real code was executed on them, distinct by their full description")
        cov.setdefault("evaluations", res.n.get("evaluations", 0))
        cov.setdefault("distinct_nontrivial", len(res.hashes))
    cov["counters"] = dict(sorted(res.n.items()))
    cov["capped"] = res.capped
    cov.setdefault("exhaustive", not res.capped)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(res.viol))
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for s in sorted(res.known):
        print(f"KNOWN-FINDING: property={pid} {res.known[s]}")
    if res.viol:
        for i, v in enumerate(res.viol[:int(os.environ.get("MC_SHOW", "5"))]):
            p = os.path.join(outdir, f"{pid}-{i}.json")
            with open(p, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1, default=repr)
            print(f"--- {pid} [{v['sig']}]\n{v['msg']}")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    print(f"{pid} {tier}: held on everything explored; " +
          ", ".join(f"{k}={v}" for k, v in sorted(res.n.items())) +
          (" (CAPPED)" if res.capped else "") + f"; {time.time() - t0:.1f}s")
    return 0
