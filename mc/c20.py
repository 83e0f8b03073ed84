"""C20: a save that fails does not destroy the existing file.  All histories of saves, failing saves and loads; a fault at every point of a save."""
import io
import itertools
import os
import shutil
import sys
import tempfile
import threading
from pathlib import Path

import yaml

from .core import DictConfig, ListConfig, OmegaConf, Result, enc, h, parallel, show_exc
from .fix import APt, Cont, Frozen, Pt
from .ops import chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["faults after the text to write has been produced (a full disk) are outside the property", "crash points are function calls, lines and returns of Python code in omegaconf and yaml during the save"]

A = {"a": 1, "b": [1, {"c": "é"}], "i": "${a}"}
LONG = {"k%d" % i: "x" * 50 for i in range(200)}


def bad_pos(pos):
    """a config whose failing interpolation sits at position pos"""
    t = {"a": 1, "d": {"x": 2, "l": [1, [2], {"y": 3}]}, "z": "s"}
    spots = [("a",), ("d", "x"), ("d", "l", 0), ("d", "l", 1, 0), ("d", "l", 2, "y"), ("z",), ("d", "l", 2), ("d",)]
    v = t
    p = spots[pos]
    for k in p[:-1]:
        v = v[k]
    v[p[-1]] = "${nope}"
    return OmegaConf.create(t)


def unser(where):
    o = threading.Lock()
    t = [{"a": o}, {"a": {"b": [1, o]}}, [1, o], {"a": "x" * 5000, "b": o}][where]
    return OmegaConf.create(t, flags={"allow_objects": True})


class Evil:
    def __reduce_ex__(self, p):
        raise RuntimeError("evil")


# name -> (callable(dest), expected text or None when it must fail)
def goods():
    return {
        "dict": (lambda: OmegaConf.create(A), {}),
        "list": (lambda: OmegaConf.create([1, "a", None]), {}),
        "empty": (lambda: OmegaConf.create({}), {}),
        "long": (lambda: OmegaConf.create(LONG), {}),
        "class": (lambda: Pt, {}),
        "inst": (lambda: Pt(7), {}),
        "attr": (lambda: APt(3), {}),
        "resolved": (lambda: OmegaConf.create(A), {"resolve": True}),
        "plain": (lambda: {"x": [1]}, {}),
    }


def bads():
    b = {f"interp{i}": ((lambda i=i: bad_pos(i)), {"resolve": True}) for i in range(8)}
    b.update({f"unser{i}": ((lambda i=i: unser(i)), {}) for i in range(4)})
    b["evil"] = (lambda: OmegaConf.create({"a": 1, "b": Evil()}, flags={"allow_objects": True}), {})
    b["nonconfig"] = (lambda: 5, {})
    b["str"] = (lambda: "a: 1", {})
    b["missing-resolve"] = (lambda: OmegaConf.create({"m": "???", "a": "${m}"}), {"resolve": True})
    return b


BADFILES = {"dup": "a: 1\na: 2\n", "syntax": "a: [1\n", "int": "5\n", "badinterp": "a: ${\n", "tag": "a: !!python/name:os.system\n", "binary": b"\xff\xfe\x00"}


class Stream:
    """records what it is given; can fail"""

    def __init__(self, fail=False):
        self.got = []
        self.flushed = 0
        self.fail = fail

    def write(self, s):
        if self.fail:
            raise OSError("stream full")
        self.got.append(s)

    def flush(self):
        self.flushed += 1


def fds():
    return len(os.listdir("/proc/self/fd"))


# ---------------------------------------------------------------- histories: state = the content of the file (or none)
def op_names(tier):
    ops = [("save", n, r) for n in ("dict", "long", "empty", "inst", "resolved") for r in ("str", "path")] + [("save", "list", "rel"), ("save", "class", "str"), ("save", "attr", "path"), ("save", "plain", "str")]
    ops += [("fail", n, r) for n in ("interp0", "interp4", "unser0", "unser3", "evil", "nonconfig", "str", "missing-resolve") for r in ("str", "path", "stream")]
    ops += [("write", n, None) for n in BADFILES] + [("load", None, r) for r in ("str", "path", "text", "bin")] + [("stream", "dict", None), ("stream", "long", None), ("streamfail", "dict", None), ("rm", None, None), ("badtarget", None, None)]
    if tier == "thorough":
        ops += [("fail", n, "str") for n in bads() if ("fail", n, "str") not in ops]
    return ops


def expected_text(name):
    mk, kw = goods()[name]
    return OmegaConf.to_yaml(mk(), **kw)


def dest(p, route):
    return p if route == "str" else Path(p) if route == "path" else os.path.relpath(p)


def loads(data):
    """does this content load, and to what (reference: plain yaml text round trip of create)"""
    if data is None:
        return None
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    try:
        return ("ok", OmegaConf.create(t))
    except Exception:
        return None


def step(p, op, data, texts, res, hist):
    """apply op to the real file; data is the model's content; returns the new model content"""
    kind, name, route = op
    case = dict(hist=[list(o) for o in hist] + [list(op)])

    def bad(what):
        res.violation(f"{op} {what}"[:200], f"after {hist}: {op} {what}", case)
    f0 = fds()
    exp = data
    if kind == "save":
        mk, kw = goods()[name]
        exp = texts[name].encode("utf-8")
        try:
            r = OmegaConf.save(mk(), dest(p, route), **kw)
            if r is not None:
                bad(f"returns {r!r}")
        except Exception as e:
            bad(f"raises {show_exc(e)}")
    elif kind == "fail":
        mk, kw = bads()[name]
        s = Stream()
        try:
            OmegaConf.save(mk(), s if route == "stream" else dest(p, route), **kw)
            bad("does not raise")
        except Exception:
            pass
        if s.got:
            bad(f"writes {s.got!r} to the stream")
    elif kind == "stream":
        mk, kw = goods()[name]
        s = Stream()
        try:
            OmegaConf.save(mk(), s, **kw)
            if "".join(s.got) != texts[name] or not s.flushed:
                bad(f"gives the stream {''.join(s.got)!r}, flushed {s.flushed}")
        except Exception as e:
            bad(f"raises {show_exc(e)}")
    elif kind == "streamfail":
        try:
            OmegaConf.save(goods()[name][0](), Stream(True))
            bad("does not raise")
        except OSError:
            pass
    elif kind == "badtarget":
        for t in (5, None, object()):
            try:
                OmegaConf.save(OmegaConf.create(A), t)
                bad("does not raise")
            except TypeError:
                pass
        for t in (os.path.join(os.path.dirname(p), "nodir", "f.yaml"), os.path.dirname(p)):
            try:
                OmegaConf.save(OmegaConf.create(A), t)
                bad("does not raise")
            except OSError:
                pass
    elif kind == "write":
        exp = BADFILES[name] if isinstance(BADFILES[name], bytes) else BADFILES[name].encode()
        with open(p, "wb") as f:
            f.write(exp)
    elif kind == "rm":
        exp = None
        if os.path.exists(p):
            os.unlink(p)
    elif kind == "load":
        st0 = os.stat(p) if os.path.exists(p) else None
        want = loads(data)
        try:
            if route in ("str", "path"):
                got = ("ok", OmegaConf.load(dest(p, route)))
            else:
                with open(p, "r" if route == "text" else "rb", **({"encoding": "utf-8"} if route == "text" else {})) as f:
                    got = ("ok", OmegaConf.load(f))
        except Exception as e:
            got = ("exc", e)
        if want is None:
            if got[0] == "ok" and not (route == "bin" and data == BADFILES["binary"]):
                bad(f"loads {data!r} as {got[1]!r}")
        elif got[0] != "ok" or type(got[1]) is not type(want[1]) or enc(OmegaConf.to_container(got[1])) != enc(OmegaConf.to_container(want[1])):
            bad(f"of {data[:200]!r} gives {got[1]!r}")
        if st0 is not None:
            st1 = os.stat(p)
            if (st0.st_mtime_ns, st0.st_size, st0.st_ino) != (st1.st_mtime_ns, st1.st_size, st1.st_ino):
                bad("changes the file's modification time")
    now = open(p, "rb").read() if os.path.exists(p) else None
    if now != exp:
        bad(f"leaves the file with {None if now is None else now[:120]!r}, expected {None if exp is None else exp[:120]!r}")
    if fds() != f0:
        bad("leaves a file descriptor open")
    extra = [x for x in os.listdir(os.path.dirname(p)) if x != os.path.basename(p)]
    if extra:
        bad(f"leaves other files {extra}")
        for x in extra:
            os.unlink(os.path.join(os.path.dirname(p), x))
    return exp


def histories(w, res):
    first, ops, depth = w
    texts = {n: expected_text(n) for n in goods()}
    d = tempfile.mkdtemp(prefix="c20-")
    cwd = os.getcwd()
    os.chdir(d)
    p = os.path.join(d, "f.yaml")
    try:
        # every history, no merging: hidden state (module globals, open handles) is part of the state
        stack = [(first,)]
        seqs = [first + t for n in range(depth) for t in itertools.product(ops, repeat=n)] if depth else [first]
        del stack
        for seq in seqs:
            data = None
            if os.path.exists(p):
                os.unlink(p)
            for i, op in enumerate(seq):
                data = step(p, op, data, texts, res, seq[:i])
                res.count("transitions")
                res.seen((op, data))
            res.count("validated")
            if len(res.viol) >= Result.MAXV:
                return
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
    res.sample(f"histories from {first}")


# ---------------------------------------------------------------- a fault at every point of a save
class Injected(BaseException):
    pass


def trace_run(fn, k):
    """run fn, raising at the k-th event (None: count).  -> (events, exception or None, index of the return of yaml.dump)"""
    n = [0]
    mark = [None]
    import omegaconf
    roots = (os.path.dirname(omegaconf.__file__), os.path.dirname(yaml.__file__))

    def tr(frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(roots):
            return None if event == "call" else tr
        i = n[0]
        n[0] += 1
        if event == "return" and frame.f_code is yaml.dump.__code__ and mark[0] is None and arg is not None:
            mark[0] = i
        if k is not None and i == k:
            raise Injected(f"at {os.path.basename(f)}:{frame.f_lineno} {event}")
        return tr
    e = None
    sys.settrace(tr)
    try:
        fn()
    except BaseException as x:
        e = x
    finally:
        sys.settrace(None)
    return n[0], e, mark[0]


def faults(w, res):
    name, route, old, lo, hi = w
    mk, kw = goods()[name] if name in goods() else bads()[name]
    d = tempfile.mkdtemp(prefix="c20-")
    p = os.path.join(d, "f.yaml")
    try:
        c = mk()
        text = OmegaConf.to_yaml(c, **kw) if name in goods() else None

        def reset():
            if old is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p, "wb") as f:
                    f.write(old)
        s = Stream()
        go = (lambda: OmegaConf.save(c, s, **kw)) if route == "stream" else (lambda: OmegaConf.save(c, dest(p, route), **kw))
        reset()
        go() if text is not None else trace_run(go, None)
        reset()
        total, e, mark = trace_run(go, None)
        for k in range(lo, hi):
            if k >= total:
                break
            reset()
            s.got = []
            _, e, m = trace_run(go, k)
            res.count("transitions")
            res.count("faults")
            if not isinstance(e, Injected):
                res.count("faults_absorbed")
            now = open(p, "rb").read() if os.path.exists(p) else None
            produced = mark is not None and k > mark
            case = dict(faults=[name, route, None if old is None else old.decode(), k])
            if not produced and e is not None:
                if now != old:
                    res.violation(f"fault {name} {route}", f"save of {name} to {route} interrupted by {e!r} (event {k} of {total}, before the text was produced) leaves {None if now is None else now[:80]!r} instead of {None if old is None else old[:80]!r}", case)
                    return
                if s.got:
                    res.violation(f"fault {name} {route}", f"save of {name} to a stream interrupted by {e!r} (event {k}) wrote {s.got!r}", case)
                    return
            # afterwards everything works
            if k % 7 == 0 and route != "stream":
                try:
                    OmegaConf.save(OmegaConf.create(A), p)
                    ok = OmegaConf.load(p) == OmegaConf.create(A)
                except Exception as x:
                    ok, e = False, x
                if not ok:
                    res.violation(f"after fault {name} {route}", f"after an interrupted save of {name} ({e!r}) a save and load does not work", case)
                    return
        res.sample(f"fault at every one of events {lo}..{min(hi, total)} of {total} of save({name}) to {route}, text produced at {mark}")
    finally:
        shutil.rmtree(d)


def one(w, res):
    (histories if w[0] == "h" else faults)(w[1:], res)


def check(tier):
    ops = op_names(tier)
    work = []
    for n in goods():
        for route in ("str", "path", "stream"):
            for old in (None, b"", b"old: 1\n" * 2000):
                if route == "stream" and old is not None or n == "long":
                    continue
                if tier == "quick" and (n in ("empty", "attr", "class", "plain") or route == "path" and old is None or old == b""):
                    continue
                for lo in range(0, 9000, 3000):
                    work.append(("f", n, route, old, lo, lo + 3000))
    for n in bads():
        for old in (None, b"old: 1\n" * 2000):
            work.append(("f", n, "str", old, 0, 20000 if tier == "thorough" else 2500))
    depth = 3
    core = [o for o in ops if o in (("save", "dict", "str"), ("save", "long", "path"), ("fail", "interp4", "str"), ("fail", "unser3", "path"), ("fail", "evil", "stream"), ("fail", "missing-resolve", "str"), ("write", "dup", None), ("write", "badinterp", None), ("write", "int", None),
                                    ("load", None, "str"), ("load", None, "text"), ("streamfail", "dict", None), ("rm", None, None), ("badtarget", None, None))]
    # all pairs of all operations; all histories of the core operations to the depth; all operations after pairs of core operations
    for op in ops:
        work.append(("h", (op,), ops, 2))
    for t in itertools.product(core, repeat=2):
        work.append(("h", t, core, 2 if tier == "quick" else 4))
        work.append(("h", t, ops, 2))
    res = parallel(one, work)
    res.n["states"] = len(res.hashes)
    return res


def replay(case, res):
    if "hist" in case:
        seq = tuple(tuple(o) for o in case["hist"])
        histories((seq, [], 0), res)
    else:
        n, route, old, k = case["faults"]
        faults((n, route, None if old is None else old.encode(), k, k + 1), res)
