"""Reference implementation of the documented interpolation grammar: a maximal-munch lexer with modes, a recursive-descent parser and an evaluator, written from docs/source/grammar.rst and the rules in the .g4 files; shares no code with omegaconf."""
import functools
import re


class Reject(Exception):
    pass


class BadType(Exception):
    """an interpolated key or resolver name that is not a string"""


INT_U = r"(?:0|[1-9](?:_?[0-9])*)"
POINT = rf"(?:{INT_U}\.|{INT_U}?\.[0-9](?:_?[0-9])*)"
EXPF = rf"(?:(?:{INT_U}|{POINT})[eE][+-]?[0-9](?:_?[0-9])*)"
ID = r"[a-zA-Z_][a-zA-Z0-9_\-]*"
IO = r"\$\{[ \t]*"

# (type, regex, action)   action: None | ('push', mode) | ('pop',) | ('mode', mode)
MODES = {
    "DEFAULT": [("INTER_OPEN", IO, ("push", "INTER")), ("STR", r"[^$]*[^\\$]", None), ("ESC_INTER", r"(?:\\\\)*\\\$\{", None), ("TOP_ESC", r"(?:\\\\)+", None), ("STR", r"\\+", None), ("STR", r"\$", None)],
    "VALUE": [("INTER_OPEN", IO, ("push", "INTER")), ("{", r"\{[ \t]*", ("push", "VALUE")), ("}", r"[ \t]*\}", ("pop",)), ("QS", r"'", ("push", "SINGLE")), ("QD", r'"', ("push", "DOUBLE")),
              (",", r"[ \t]*,[ \t]*", None), ("[", r"\[[ \t]*", None), ("]", r"[ \t]*\]", None), (":", r"[ \t]*:[ \t]*", None),
              ("FLOAT", rf"[+-]?(?:{POINT}|{EXPF}|[Ii][Nn][Ff]|[Nn][Aa][Nn])", None), ("INT", rf"[+-]?{INT_U}", None), ("BOOL", r"[Tt][Rr][Uu][Ee]|[Ff][Aa][Ll][Ss][Ee]", None), ("NULL", r"[Nn][Uu][Ll][Ll]", None),
              ("CHAR", r"[/\-\\+.$%*@?|]", None), ("ID", ID, None), ("ESC", r"(?:\\[\\()\[\]{}:=, \t])+", None), ("WS", r"[ \t]+", None)],
    "INTER": [("INTER_OPEN", IO, ("push", "INTER")), (":", r"[ \t]*:[ \t]*", ("mode", "VALUE")), ("ICLOSE", r"[ \t]*\}", ("pop",)), (".", r"\.", None), ("[", r"\[", None), ("]", r"\]", None), ("ID", ID, None),
              ("KEY", r"[^\\{}()\[\]:. \t'\"]+", None)],
}
for name, q in (("SINGLE", "'"), ("DOUBLE", '"')):
    MODES[name] = [("INTER_OPEN", IO, ("push", "INTER")), ("QCLOSE", q, ("pop",)), ("STR", rf"[^{q}$]*[^{q}\\$]", None), ("ESC_INTER", r"(?:\\\\)*\\\$\{", None), ("ESC", rf"(?:\\\\)*\\{q}", None),
                   ("QUOTED_ESC", r"(?:\\\\)+", None), ("STR", r"\\+", None), ("STR", r"\$", None)]
MODES = {m: [(t, re.compile(r, re.S), a) for t, r, a in rules] for m, rules in MODES.items()}


@functools.lru_cache(maxsize=200000)
def longest(mode, s):
    """the longest match of any rule at the start of s, the first rule on ties -> (type, length, action) or None"""
    best = None
    for t, r, a in MODES[mode]:
        for n in range(len(s), best[1] if best else 0, -1):
            if r.fullmatch(s, 0, n):
                best = (t, n, a)
                break
    return best


def lex(s, mode):
    out, stack = [], []
    while s:
        b = longest(mode, s)
        if b is None:
            raise Reject("no token")
        t, n, a = b
        out.append((t, s[:n]))
        s = s[n:]
        if a:
            if a[0] == "push":
                stack.append(mode)
                mode = a[1]
            elif a[0] == "pop":
                if not stack:
                    raise Reject("unbalanced")
                mode = stack.pop()
            else:
                mode = a[1]
    out.append(("EOF", ""))
    return out


PRIM = {"ID", "NULL", "INT", "FLOAT", "BOOL", "CHAR", "ESC", "WS"}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    @property
    def k(self):
        return self.t[self.i][0]

    def eat(self, *ts):
        t = self.t[self.i]
        if t[0] not in ts:
            raise Reject(f"{t} instead of {ts}")
        self.i += 1
        return t

    def text(self, ends):
        items = []
        while self.k not in ends:
            if self.k == "INTER_OPEN":
                items.append(self.interpolation())
            else:
                items.append(self.eat("STR", "ESC", "ESC_INTER", "TOP_ESC", "QUOTED_ESC"))
        if not items:
            raise Reject("empty text")
        return ("text", items)

    def element(self):
        a = self.i
        k = self.k
        if k in ("QS", "QD"):
            self.i += 1
            if self.k == "QCLOSE":
                self.i += 1
                n = ("quoted", None)
            else:
                n = ("quoted", self.text(("QCLOSE",)))
                self.eat("QCLOSE")
        elif k == "[":
            self.i += 1
            n = ("list", [] if self.k == "]" else self.sequence("]"))
            self.eat("]")
        elif k == "{":
            self.i += 1
            pairs = []
            while self.k != "}":
                if pairs:
                    self.eat(",")
                keys = []
                while self.k in PRIM:
                    keys.append(self.eat(*PRIM))
                if not keys:
                    raise Reject("no key")
                self.eat(":")
                pairs.append((("prim", keys), self.element()))
            self.eat("}")
            n = ("dict", pairs)
        else:
            items = []
            while self.k in PRIM or self.k in (":", "INTER_OPEN"):
                items.append(self.interpolation() if self.k == "INTER_OPEN" else self.eat(self.k))
            if not items:
                raise Reject("no element")
            n = ("prim", items)
        return n + ("".join(x[1] for x in self.t[a:self.i]),)

    def sequence(self, end):
        """elements separated by commas, empty ones allowed (deprecated) if there is a comma"""
        out = []
        empty = ("empty", None, "")
        while True:
            if self.k in (",", end):
                out.append(empty)
            else:
                out.append(self.element())
            if self.k != ",":
                return out
            self.i += 1

    def interpolation(self):
        a = self.i
        try:
            return self.resolver()
        except Reject:
            self.i = a
        return self.node()

    def resolver(self):
        self.eat("INTER_OPEN")
        names = []
        while True:
            names.append(self.interpolation() if self.k == "INTER_OPEN" else self.eat("ID"))
            if self.k != ".":
                break
            self.i += 1
        self.eat(":")
        args = [] if self.k == "}" else self.sequence("}")
        self.eat("}")
        return ("resolver", names, args)

    def node(self):
        self.eat("INTER_OPEN")
        parts = []
        while self.k == ".":
            parts.append(self.eat("."))
        first = True
        while first or self.k in (".", "["):
            if self.k == "[":
                parts.append(self.eat("["))
                parts.append(self.key())
                parts.append(self.eat("]"))
            else:
                if not first:
                    parts.append(self.eat("."))
                parts.append(self.key())
            first = False
        self.eat("ICLOSE")
        return ("node", parts)

    def key(self):
        return self.interpolation() if self.k == "INTER_OPEN" else ("KEY", self.eat("ID", "KEY")[1])


def parse_value(s):
    p = P(lex(s, "DEFAULT"))
    n = p.text(("EOF",))
    p.eat("EOF")
    return n


def parse_element(s):
    p = P(lex(s, "VALUE"))
    n = p.element()
    p.eat("EOF")
    return n


# ---------------------------------------------------------------- meaning
def half(s):
    return s[1::2]


class Eval:
    """node(key) and resolver(name, args, texts) give the values of interpolations"""

    def __init__(self, node, resolver):
        self.node, self.resolver = node, resolver

    def inter(self, n):
        if n[0] == "node":
            s = ""
            for p in n[1]:
                if p[0] in ("node", "resolver"):
                    v = self.inter(p)
                    if not isinstance(v, str):
                        raise BadType
                    s += v
                else:
                    s += p[1]
            return self.node(s)
        names = []
        for p in n[1]:
            if p[0] in ("node", "resolver"):
                v = self.inter(p)
                if not isinstance(v, str):
                    raise BadType
                names.append(v)
            else:
                names.append(p[1])
        return self.resolver(".".join(names), tuple(self.value(a) for a in n[2]), tuple(a[2] for a in n[2]))

    def value(self, n):
        k = n[0]
        if k == "empty":
            return ""
        if k == "text":
            its = n[1]
            if len(its) == 1 and its[0][0] in ("node", "resolver"):
                return self.inter(its[0])
            return self.concat(its)
        if k == "quoted":
            return "" if n[1] is None else str(self.value(n[1]))
        if k == "list":
            return [self.value(x) for x in n[1]]
        if k == "dict":
            return {self.value(a): self.value(b) for a, b in n[1]}
        its = n[1]
        if len(its) > 1:
            return self.concat(its)
        t, s = its[0][0], its[0][1]
        if t in ("node", "resolver"):
            return self.inter(its[0])
        if t == "NULL":
            return None
        if t == "INT":
            return int(s)
        if t == "FLOAT":
            return float(s)
        if t == "BOOL":
            return s.lower() == "true"
        if t == "ESC":
            return half(s)
        return s

    def concat(self, its):
        out = ""
        for j, it in enumerate(its):
            t = it[0]
            nxt = its[j + 1][0] if j + 1 < len(its) else None
            if t in ("node", "resolver"):
                out += str(self.inter(it))
            elif t == "ESC_INTER":
                out += "\\" * ((len(it[1]) - 3) // 2) + "${"
            elif t == "ESC" or t == "TOP_ESC" and nxt in ("node", "resolver") or t == "QUOTED_ESC" and nxt in ("node", "resolver", None):
                out += half(it[1])
            else:
                out += it[1]
        return out
