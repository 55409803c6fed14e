"""Regular expressions found in the source, as automata: exact comparison of what they match."""
import re
from re import _parser as P, _constants as C


class Unknown(Exception):
    pass


OTHER = "a"
BASE = set("* \t\r\n/") | {OTHER, "\u00a0", "\x0b", "1"}


class NFA:
    """Thompson automaton; edges: character set, None (nothing), or an anchor/marker name."""

    def __init__(self, pattern, marks=False):
        self.edges = []
        self.marks = marks
        self.lazy = False
        pattern = re.sub(r"\\z$", r"\\Z", pattern)
        try:
            tree = P.parse(pattern)
        except Exception as e:
            raise Unknown(str(e))
        self.flags = tree.state.flags
        self.start, self.end = self.seq(tree)

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def link(self, a, what, b):
        self.edges[a].append((what, b))

    def seq(self, items):
        s = e = self.new()
        for op, av in items:
            a, b = self.item(op, av)
            self.link(e, None, a)
            e = b
        return s, e

    def chars(self, f):
        a, b = self.new(), self.new()
        self.link(a, f, b)
        return a, b

    def item(self, op, av):
        if op is C.LITERAL:
            return self.chars(lambda c, k=chr(av): c == k)
        if op is C.NOT_LITERAL:
            return self.chars(lambda c, k=chr(av): c != k)
        if op is C.ANY:
            dot = self.flags & re.S
            return self.chars(lambda c: dot or c != "\n")
        if op is C.IN:
            return self.chars(self.cls(av))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if op is C.MIN_REPEAT:
                self.lazy = True
            s = e = self.new()
            for _ in range(lo):
                a, b = self.seq(sub)
                self.link(e, None, a)
                e = b
            if hi is C.MAXREPEAT:
                a, b = self.seq(sub)
                n = self.new()
                self.link(e, None, n)
                self.link(n, None, a)
                self.link(b, None, n)
                e = n
            else:
                if hi - lo > 200:
                    raise Unknown("repeat")
                out = self.new()
                self.link(e, None, out)
                for _ in range(hi - lo):
                    a, b = self.seq(sub)
                    self.link(e, None, a)
                    e = b
                    self.link(e, None, out)
                e = out
            return s, e
        if op is C.SUBPATTERN:
            g, add, sub_flags, sub = av
            if add or sub_flags:
                raise Unknown("flags")
            a, b = self.seq(sub)
            if g is None or not self.marks:
                return a, b
            s, e = self.new(), self.new()
            self.link(s, ("mark", "(%d" % g), a)
            self.link(b, ("mark", ")%d" % g), e)
            return s, e
        if op is C.BRANCH:
            s, e = self.new(), self.new()
            for sub in av[1]:
                a, b = self.seq(sub)
                self.link(s, None, a)
                self.link(b, None, e)
            return s, e
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                w = "^"
            elif av in (C.AT_END, C.AT_END_STRING):
                w = "$"
            else:
                raise Unknown(str(av))
            if self.flags & re.M and av in (C.AT_BEGINNING, C.AT_END):
                raise Unknown("multi-line anchors")
            a, b = self.new(), self.new()
            self.link(a, w, b)
            return a, b
        raise Unknown(str(op))

    def cls(self, av):
        neg = av and av[0][0] is C.NEGATE
        fs = []
        for op, x in av[neg:]:
            if op is C.LITERAL:
                fs.append(lambda c, k=chr(x): c == k)
            elif op is C.RANGE:
                fs.append(lambda c, l=x[0], h=x[1]: l <= ord(c) <= h)
            elif op is C.CATEGORY:
                k = {C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}.get(x)
                if k is None:
                    raise Unknown(str(x))
                fs.append(lambda c, k=k: re.match(k, c) is not None)
            else:
                raise Unknown(str(op))
        return lambda c: any(f(c) for f in fs) != bool(neg)

    def close(self, states, ok):
        st, out = list(states), set(states)
        while st:
            for w, y in self.edges[st.pop()]:
                if (w is None or isinstance(w, str) and w in ok) and y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def step(self, states, c):
        return {y for x in states for w, y in self.edges[x] if callable(w) and w(c) or isinstance(w, tuple) and w[1] == c}


def letters(*patterns):
    out = set(BASE)
    for p in patterns:
        out |= {c for c in p}
    return sorted(out)


class Search:
    """Deterministic acceptor of "the pattern is found somewhere in the text"."""

    def __init__(self, pattern):
        self.n = NFA(pattern)

    def first(self):
        s = frozenset(self.n.close({self.n.start}, ("^",)))
        return "yes" if self.n.end in s else s

    def next(self, s, c):
        if s == "yes":
            return s
        t = self.n.step(s, c) | {self.n.start}
        t = frozenset(self.n.close(t, ()))
        return "yes" if self.n.end in t else t

    def accepts(self, s, empty=False):
        return s == "yes" or self.n.end in self.n.close(s, ("$", "^") if empty else ("$",))


class Marked:
    """Deterministic acceptor of one match, the bounds of its groups and anchors being letters."""

    def __init__(self, pattern):
        self.n = NFA(pattern, True)

    def first(self):
        return frozenset(self.n.close({self.n.start}, ()))

    def next(self, s, c):
        t = self.n.step(s, c) | {y for x in s for w, y in self.n.edges[x] if isinstance(w, str) and w == c and len(c) == 2}
        if c in ("^^", "$$"):
            t = {y for x in s for w, y in self.n.edges[x] if w == c[0] and isinstance(w, str)}
        return frozenset(self.n.close(t, ()))

    def accepts(self, s, empty=False):
        return self.n.end in s


def compare(a, b, alphabet, sub=False):
    """A text one accepts and the other does not (with sub: a accepts and b does not), or None."""
    start = (a.first(), b.first())
    seen, todo = {start: ""}, [start]
    while todo:
        s = todo.pop(0)
        w = seen[s]
        x, y = a.accepts(s[0], not w), b.accepts(s[1], not w)
        if x != y and (x or not sub):
            return w
        for c in alphabet:
            t = (a.next(s[0], c), b.next(s[1], c))
            if t not in seen:
                seen[t] = w + c
                if len(seen) > 200000:
                    raise Unknown("too large")
                todo.append(t)
    return None


def same_search(p, q):
    return compare(Search(p), Search(q), letters(p, q))


def found_in(p, q):
    """everything p is found in, q is found in"""
    return compare(Search(p), Search(q), letters(p, q), True)


def same_match(p, q):
    a, b = Marked(p), Marked(q)
    if a.n.lazy or b.n.lazy:
        raise Unknown("lazy repetition")
    return compare(a, b, letters(p, q) + ["^^", "$$"] + ["%s%d" % (x, i) for x in "()" for i in range(1, 6)])
