"""Path-sensitive reachability on top of Val: a worklist over (block, env),
where env records, for the phis and scrutinees that branches depend on, which
definition reached here.  Infeasible branch edges (a helper returned Err, the
caller looks at Ok) are pruned; everything else is explored."""
import copy
from val import *


STALE = mk("stale")


class Flow:
    def __init__(self, val, watch=(), assume=None, cap=400000):
        self.v = val
        self.g = val.g
        self.p = val.p
        self.assume = assume
        self.cap = cap
        self.capped = False
        self._ment = {}
        self._amemo = {}
        g = self.g
        self.conds = {}
        for b in g.rpo:
            if g.B[b]["t"]["k"] == "switch":
                self.conds[b] = val.cond(b)
        self.watch = list(watch)
        self._relevance()

    # -- which phis matter -------------------------------------------------------
    FULL = ("*",)

    def _need(self, t, path, out, seen):
        """(phi, path) pairs whose chosen operand can influence what lies at `path` of t:
        () is the head (which variant), ("f", ...) a field, FULL everything."""
        if (t, path) in seen:
            return
        seen.add((t, path))
        k = t.k
        N = self._need
        full = path == self.FULL
        if k == "phi":
            out.add((t, path if full else path[:6]))
        elif full:
            for x in (k == "mut" and self.v.pushed(t)) or t.a:
                if isinstance(x, Term):
                    N(x, path, out, seen)
        elif k == "discr":
            N(t.a[0], (), out, seen)
        elif k == "fld":
            N(t.a[0], (t.a[1],) + path, out, seen)
        elif k in ("un", "cast", "bin"):
            for x in t.a:
                if isinstance(x, Term):
                    N(x, (), out, seen)
        elif k == "agg":
            if path:
                for n, x in zip(t.a[2], t.a[3:]):
                    if path[0] == n or path[0] == "%s.%s" % (t.a[1], n):
                        N(x, path[1:], out, seen)
                        break
                else:
                    # a field of a variant this is not: nothing; unknown spelling: all of it
                    if path[0].split(".")[0] == t.a[1]:
                        for x in t.a[3:]:
                            if isinstance(x, Term):
                                N(x, path[1:], out, seen)
        elif k == "tup":
            if path and path[0].isdigit() and int(path[0]) < len(t.a):
                N(t.a[int(path[0])], path[1:], out, seen)
        elif k == "upd":
            up = tuple(t.a[1])
            if path[:len(up)] == up:
                N(t.a[2], path[len(up):], out, seen)
            else:
                N(t.a[0], path, out, seen)
        elif k == "clo":
            if path and path[0].isdigit() and int(path[0]) + 1 < len(t.a):
                x = t.a[int(path[0]) + 1]
                if isinstance(x, Term):
                    N(x, path[1:], out, seen)
        elif k == "join":
            for x in t.a:
                if isinstance(x, Term):
                    N(x, path, out, seen)
        elif k == "call" and path == () and last(t.a[0]) in ("any", "all", "contains", "eq", "ne", "contains_key", "starts_with", "ends_with"):
            # a choice among constants that the test compares with
            for x in t.a[2:]:
                while isinstance(x, Term) and last(t.a[0]) in ("any", "all") and (x.k == "mut" or x.k == "call" and last(x.a[0]) in ("iter", "into_iter", "copied", "cloned") and len(x.a) == 3):
                    x = x.a[-1]
                if isinstance(x, Term) and x.k == "phi" and all(self._const(o) for _, o in self.v.phi_ops.get(x, ())) and len(self.v.phi_ops.get(x, ())) > 1:
                    out.add((x, self.FULL))

    def _const(self, t):
        return all(x.k in ("const", "str", "int", "lit", "agg", "arr", "ref", "tup", "cast") for x in self.v.leaves(t)) and not any(x.k in ("phi", "call", "arg", "mut", "elem") for x in self.v.leaves(t))

    def _relevance(self):
        v, g = self.v, self.g
        uses = collections.defaultdict(set)   # phi -> use blocks
        paths = collections.defaultdict(set)
        work = []
        def add(p, path, ub):
            if ub not in uses[p] or path not in paths[p]:
                uses[p].add(ub)
                if path not in paths[p] and (p, path) not in queued:
                    paths[p].add(path)
                    queued.add((p, path))
                    work.append((p, path))
                elif ub == -1 and (p, path) not in work:
                    work.append((p, path))
        queued = set()
        opq = collections.Counter()
        for b, c in self.conds.items():
            s = set()
            self._need(c, (), s, set())
            for p, path in s:
                add(p, path, b)
            for x in self._scruts(c):
                opq[x] += 1
        for t in self.watch:
            s = set()
            self._need(t, self.FULL, s, set())
            for p, path in s:
                add(p, path, -1)
        # the head of the returned value (Ok / Err) is always followed
        for b in g.rpo:
            if g.B[b]["t"]["k"] == "return":
                s = set()
                self._need(v.read(g.ret, (), b, 1 << 30), (), s, set())
                for p, path in s:
                    add(p, path, b)
        while work:
            p, path = work.pop()
            for q, o in v.phi_ops.get(p, ()):
                s = set()
                self._need(o, path, s, set())
                for x, xp in s:
                    if x is p and xp == path:
                        continue
                    add(x, xp, q if q >= 0 else p.a[0])
                    if -1 in uses[p] and -1 not in uses[x]:
                        uses[x].add(-1)
                        work += [(x, y) for y in paths[x]]
        R = set(uses)
        self.R = R
        self.byblock = collections.defaultdict(list)
        for p in R:
            if len(v.phi_ops.get(p, ())) and v.phi_ops[p][0][0] >= 0:
                self.byblock[p.a[0]].append(p)
        self.accum = {p for p in R if self._accumulates(p)}
        self.alias = {p: v.phi_ops[p][0][1] for p in R if v.phi_ops.get(p) and v.phi_ops[p][0][0] == -1}
        # learnable opaque scrutinees
        self.learn = {x for x, n in opq.items() if n >= 2}
        fuse = collections.defaultdict(set)
        for b, c in self.conds.items():
            for x in self._scruts(c):
                if x in self.learn:
                    fuse[x].add(b)
        # liveness
        self.live = collections.defaultdict(set)   # block -> keys
        preds = g.preds
        for p in R:
            if -1 in uses[p]:
                for b in g.rpo:
                    self.live[b].add(p)
                continue
            d = p.a[0]
            seen = set()
            st = [u for u in uses[p] if u in preds]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b != d:
                    st += preds[b]
            for b in seen:
                self.live[b].add(p)
        for x in self.learn:
            seen = set()
            st = list(fuse[x])
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                st += preds[b]
            for b in seen:
                self.live[b].add(("F", x))
        # kills
        self.kill = collections.defaultdict(set)
        lk = {}
        for x in self.learn:
            sites, phis, el = set(), set(), False
            for y in v.leaves(x):
                if y.k == "call":
                    sites.add(y.a[1])
                elif y.k == "phi":
                    phis.add(y.a[0])
                elif y.k == "mut":
                    sites.add(y.a[1])
                elif y.k == "elem":
                    el = True
            lk[x] = (sites, phis, el)
        for b in g.rpo:
            t = g.B[b]["t"]
            for x, (sites, phis, el) in lk.items():
                if t["k"] == "call" and t["site"] in sites:
                    self.kill[b].add(x)
                if el and ((t["k"] == "call" and last(t["f"]) in ("next", "next_back")) or t["k"] == "nondet"):
                    self.kill[b].add(x)
                if b in phis:
                    self.kill[b].add(x)

    def _accumulates(self, p):
        """A loop-carried value that is mutated in place on the way round (a container being
        filled): which operand reached here says nothing about what it holds in general."""
        seen = set()
        st = [(o, False) for q, o in self.v.phi_ops.get(p, ())]
        while st:
            t, m = st.pop()
            if (t, m) in seen:
                continue
            seen.add((t, m))
            if t is p:
                if m:
                    return True
            elif t.k == "phi":
                st += [(o, m) for q, o in self.v.phi_ops.get(t, ())]
            elif t.k == "mut":
                st.append((t.a[-1], True))
            elif t.k == "bin" and t.a[0] == "Add" and t.a[1] is p and t.a[2].k == "const" and t.a[2].a[0] == 1 and any(o.k == "const" and o.a[0] == 0 for _, o in self.v.phi_ops.get(p, ())):
                return True      # a counter: its first value says nothing about the others
        return False

    def under(self, assume):
        """The same flow under assumptions."""
        f = copy.copy(self)
        f.assume = assume
        f._amemo = {}
        return f

    def _scruts(self, c):
        """Opaque scrutinees a condition can come down to."""
        out = set()
        st = [c]
        seen = set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.k == "phi" or t.k == "join" or t.k == "fld":
                for o in self.v.alts(t):
                    if o is t:
                        out.add(t)
                    else:
                        st.append(o)
            elif t.k == "discr":
                st.append(t.a[0])
            elif t.k == "un":
                st.append(t.a[1])
            elif t.k == "bin":
                if t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    out.add(t)
            elif t.k in ("agg", "const", "undef", "bot"):
                pass
            else:
                out.add(t)
        return out

    def _mentions(self, t, blk):
        """Does t refer to a phi of block blk (whose meaning is about to change)?"""
        key = (t, blk)
        r = self._ment.get(key)
        if r is None:
            r = any(x.k == "phi" and x.a[0] == blk for x in self._shallow(t))
            self._ment[key] = r
        return r

    def _shallow(self, t):
        """Sub-terms without expanding phis."""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.k != "phi":
                st += [y for y in x.a if isinstance(y, Term)]

    # -- evaluation under an env ---------------------------------------------------
    def rs(self, t, env, d=0):
        if d > 40:
            return t
        k = t.k
        if k == "phi":
            n = env.get(t)
            if n is not None:
                return n
            a = self.alias.get(t)
            if a is not None:
                return self.rs(a, env, d + 1)
            return t
        if k == "fld":
            b = self.rs(t.a[0], env, d + 1)
            if b is not t.a[0]:
                n = self.v.fld(b, t.a[1])
                return self.rs(n, env, d + 1) if n is not t else n
            return t
        return t

    def deep(self, t, env, d=0, memo=None):
        """Substitute the env's choices everywhere in t."""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        memo[t] = t
        if d > 60:
            return t
        r = self.rs(t, env)
        if r is not t:
            r = self.deep(r, env, d + 1, memo)
        elif t.k == "mut" and self.v.pushed(t) is not None:
            els = self.v.pushed(t)
            na = [self.deep(x, env, d + 1, memo) for x in els]
            if any(x is not y for x, y in zip(na, els)):
                r = mk("arr", *na)
        elif t.k in ("agg", "tup", "call", "mut", "bin", "un", "discr", "elem", "upd", "fld", "cast", "join", "idx", "arr", "len"):
            na = [self.deep(x, env, d + 1, memo) if isinstance(x, Term) else x for x in t.a]
            if any(x is not y for x, y in zip(na, t.a)):
                r = self.v.fld(na[0], na[1]) if t.k == "fld" else mk(t.k, *na)
        memo[t] = r
        return r

    def variant(self, t):
        """Variant name of a determinate term."""
        if t.k == "agg":
            return t.a[1]
        if t.k == "const" and isinstance(t.a[0], tuple) and t.a[0][0] == "adt":
            return t.a[0][2]
        return None

    def ev(self, c, env):
        """-> ('variant', scrutinee, name|None, adt) / ('bool', term, val|None) / ('int', term, val|None)"""
        c = self.rs(c, env)
        k = c.k
        if k == "discr":
            x = self.rs(c.a[0], env)
            n = self.variant(x)
            if n is None:
                n = self._fact(x, env, c.a[1])
            return ("variant", x, n, c.a[1])
        if k == "const":
            return ("bool" if isinstance(c.a[0], bool) else "int", c, c.a[0])
        if k == "un" and c.a[0] == "Not":
            r = self.ev(c.a[1], env)
            if r[0] == "bool":
                return ("nbool", r[1], r[2])
            if r[0] == "nbool":
                return ("bool", r[1], r[2])
        if k == "bin" and c.a[0] in ("Eq", "Ne"):
            x, y = self.rs(c.a[1], env), self.rs(c.a[2], env)
            ax, ay = self.atomval(x, env), self.atomval(y, env)
            if ax is not None and ay is not None:
                return ("bool", c, (ax == ay) == (c.a[0] == "Eq"))
            if x is not c.a[1] or y is not c.a[2]:
                c = mk("bin", c.a[0], x, y)
            # comparison of an enum's discriminant with a constant
            if x.k == "discr" and ay is not None:
                n = self._vname(x.a[1], ay)
                sc = self.rs(x.a[0], env)
                cur = self.variant(sc) or self._fact(sc, env, x.a[1])
                if cur is not None and n is not None:
                    return ("bool", c, (cur == n) == (c.a[0] == "Eq"))
        f = self._fact(c, env)
        if f is None and k in ("call", "bin") and self.assume:
            y = self.deep(c, env)
            if y is not c:
                f = self._fact(y, env)
        return ("bool", c, f)

    def atomval(self, x, env):
        if x.k == "const" and not isinstance(x.a[0], tuple):
            return x.a[0]
        if x.k == "discr":
            y = self.rs(x.a[0], env)
            n = self.variant(y)
            if n is None:
                n = self._fact(y, env, x.a[1])
            if n is not None:
                return self._dval(x.a[1], n)
        return None

    def _fact(self, x, env, adt=None):
        f = env.get(("F", x))
        if f is not None:
            return f
        if self.assume:
            key = (x, adt)
            if key not in self._amemo:
                self._amemo[key] = self.assume(x, adt)
            return self._amemo[key]
        return None

    def _variants(self, adt):
        a = self.p.adts.get(adt)
        return [(v["n"], int(v["d"])) for v in a["v"]] if a and a["kind"].lower() == "enum" else []

    def _vname(self, adt, d):
        for n, x in self._variants(adt):
            if x == d:
                return n
        return None

    def _dval(self, adt, name):
        for n, x in self._variants(adt):
            if n == name:
                return x
        return None

    def succ(self, b, env):
        """[(successor, atom, fact)] feasible under env. atom describes the edge."""
        t = self.g.B[b]["t"]
        k = t["k"]
        if k == "switch":
            e = self.ev(self.conds[b], env)
            out = []
            if e[0] == "variant":
                vs = self._variants(e[3])
                listed = set()
                for val, tgt in t["br"]:
                    n = self._vname(e[3], val)
                    listed.add(n)
                    if e[2] is None or e[2] == n:
                        out.append((tgt, ("variant", e[1], (n,)), (e[1], n)))
                rest = tuple(n for n, _ in vs if n not in listed)
                if e[2] is None or e[2] in rest:
                    if rest or not vs:
                        # drop unreachable otherwise
                        if self.g.B[t["o"]]["t"]["k"] != "dead" or self.g.B[t["o"]]["s"]:
                            out.append((t["o"], ("variant", e[1], rest if e[2] is None else (e[2],)), (e[1], rest[0]) if len(rest) == 1 else None))
                return out
            if e[0] in ("bool", "nbool") and set(v for v, _ in t["br"]) <= {0, 1} and not (len(t["br"]) == 2 and self.g.B[t["o"]]["t"]["k"] not in ("dead", "unreachable")):
                known = e[2]
                if isinstance(known, bool) and e[0] == "nbool":
                    known = not known
                vals = {v: tg for v, tg in t["br"]}
                for bv in (0, 1):
                    tgt = vals.get(bv, t["o"])
                    if known is None or bool(known) == bool(bv):
                        real = bool(bv) if e[0] == "bool" else not bool(bv)
                        out.append((tgt, ("bool", e[1], real), (e[1], real)))
                return out
            known = e[2]
            if known is None and self.assume:
                no = set()
                for val, tgt in t["br"]:
                    f = self._fact(mk("bin", "Eq", e[1], mk("const", val)), env)
                    if f is True:
                        return [(tgt, ("int", e[1], val), None)]
                    if f is False:
                        no.add(val)
                out = [(tgt, ("int", e[1], val), None) for val, tgt in t["br"] if val not in no]
                return out + [(t["o"], ("int", e[1], "other"), None)]
            for val, tgt in t["br"]:
                if known is None or known == val or (isinstance(known, str) and len(known) == 1 and ord(known) == val):
                    out.append((tgt, ("int", e[1], val), None))
            if known is None or all(known != v and not (isinstance(known, str) and len(known) == 1 and ord(known) == v) for v, _ in t["br"]):
                out.append((t["o"], ("int", e[1], "other"), None))
            return out
        if k == "nondet":
            return [(x, ("nondet", b, i), None) for i, x in enumerate(t["t"])]
        return [(x, None, None) for x in t["t"]]

    def step(self, b, env, n, fact):
        new = dict(env)
        ks = self.kill.get(b)
        if ks:
            for x in ks:
                new.pop(("F", x), None)
        if fact is not None and fact[0] in self.learn and fact[1] is not None:
            new[("F", fact[0])] = fact[1]
        ps = self.byblock.get(n)
        if ps:
            upds = {}
            for p in ps:
                val = None
                if p in self.accum:
                    upds[p] = None
                    continue
                for q, o in self.v.phi_ops[p]:
                    if q == b:
                        val = self.rs(o, new)
                        if val.k in ("un", "bin"):
                            r = self.ev(val, new)
                            val = val if not self._mentions(val, n) else None
                            if r[2] is not None and r[0] in ("bool", "nbool"):
                                val = mk("const", bool(r[2]) == (r[0] == "bool"))
                        elif val.k == "agg" and self._mentions(val, n):
                            val = mk("agg", *[(STALE if isinstance(x, Term) and self._mentions(x, n) else x) for x in val.a])
                        elif val is not p and val.k != "phi" and self._mentions(val, n):
                            val = None
                        break
                upds[p] = val
            ks2 = self.kill.get(n)
            for p, val in upds.items():
                if val is None or val is p:
                    new.pop(p, None)
                else:
                    new[p] = val
        lv = self.live.get(n, ())
        return {k: x for k, x in new.items() if k in lv}

    def run(self, start, env=None, avoid=(), allow=None, target=None, find_all=False, through=False):
        """Explore from block `start`. Never enters a block in `avoid`, never takes an
        edge for which allow(b, atom, env) is True. Returns the first (block, env, path)
        with target(block, env) true, or None.  With find_all, all of them."""
        env = env or {}
        key = (start, frozenset((k if isinstance(k, tuple) else k, x) for k, x in env.items()))
        seen = {key: None}
        st = collections.deque([(start, env, key)])
        found = []
        if start in avoid:
            return [] if find_all else None
        n = 0
        while st:
            b, e, key = st.popleft()
            n += 1
            if n > self.cap:
                self.capped = True
                raise RuntimeError("state cap exceeded in %s" % self.g.root["dn"])
            if target is not None and target(b, e):
                r = (b, e, self._path(seen, key))
                if not find_all:
                    return r
                found.append(r)
                if not through:
                    continue
            for s, atom, fact in self.succ(b, e):
                if s in avoid:
                    continue
                if allow is not None and atom is not None and allow(b, atom, e):
                    continue
                ne = self.step(b, e, s, fact)
                k2 = (s, frozenset(ne.items()))
                if k2 not in seen:
                    seen[k2] = (key, atom)
                    st.append((s, ne, k2))
        self.nstates = n
        return found if find_all else None

    def reach(self, start, env=None, avoid=(), allow=None):
        """All (block) reached."""
        blocks = set()
        self.run(start, env, avoid, allow, lambda b, e: blocks.add(b) and False)
        return blocks

    def _path(self, seen, key):
        out = []
        while key is not None:
            nxt = seen[key]
            out.append((key[0], nxt[1] if nxt else None))
            key = nxt[0] if nxt else None
        out.reverse()
        return out

    def is_return(self, b):
        return self.g.B[b]["t"]["k"] == "return"

    def retval(self, b, env):
        return self.rs(self.v.read(self.g.ret, (), b, 1 << 30), env)

    def ok_exit(self, b, env):
        """Return block reached with something other than a definite Err/None."""
        if not self.is_return(b):
            return False
        r = self.retval(b, env)
        n = self.variant(r)
        if n is None:
            n = self._fact(r, env, "std::result::Result")
        return n != "Err"

    def describe(self, path, limit=12):
        """Readable branch decisions along a path."""
        out = []
        for b, atom in path:
            if atom is None:
                continue
            if atom[0] == "variant":
                out.append("%s is %s" % (show(atom[1]), "|".join(atom[2])))
            elif atom[0] == "bool":
                out.append("%s%s" % ("" if atom[2] else "not ", show(atom[1])))
            elif atom[0] == "int":
                out.append("%s = %s" % (show(atom[1]), atom[2]))
        return out[-limit:]
