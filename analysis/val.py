"""Sparse value analysis over an inlined graph: hash-consed provenance terms,
SSA-style phis, iterator normalisation, and a path-sensitive reachability
that tracks only the enum variants / booleans the branches depend on."""
from prog import Graph, is_gen, COMB_PREFIX, COMB_SAME
import collections, re


class Term:
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        return show(self)


_TBL = {}


def mk(k, *a):
    key = (k,) + tuple((0, x.id) if isinstance(x, Term) else (x.__class__, x if x.__class__ is not tuple or k != "const" else repr(x)) for x in a)
    t = _TBL.get(key)
    if t is None:
        t = Term()
        t.k, t.a, t.id = k, a, len(_TBL)
        _TBL[key] = t
    return t


def show(t, d=0, phi=None):
    if not isinstance(t, Term):
        return str(t)
    if d > 7:
        return "…"
    k, a = t.k, t.a
    if k == "param":
        return a[1] or "arg%d" % a[0]
    if k == "const":
        return repr(a[0]) if a[0] is not None else "const"
    if k == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if k == "agg":
        return "%s::%s{%s}" % (a[0].split("::")[-1], a[1], ", ".join("%s: %s" % (n, show(x, d + 1)) for n, x in zip(a[2], a[3:])))
    if k == "tup":
        return "(%s)" % ", ".join(show(x, d + 1) for x in a)
    if k == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[2:]))
    if k == "mut":
        return "mut[%s](%s)" % (a[0] if not isinstance(a[0], Term) else show(a[0], d + 1), show(a[-1], d + 1))
    if k == "phi":
        return "phi%d@%d" % (t.id, a[0])
    if k == "elem":
        return "elem(%s)" % show(a[0], d + 1)
    if k == "discr":
        return "discr(%s)" % show(a[0], d + 1)
    if k == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in a))


def short(n):
    p = n.split("::")
    return "::".join(p[-2:])


UNDEF = mk("undef")
BOT = mk("bot")

# Functions whose result is, for provenance purposes, their first argument.
TRANSPARENT = {
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::string::ToString::to_string",
    "std::convert::Into::into", "std::convert::From::from", "std::convert::AsRef::as_ref",
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow",
    "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new",
    "std::string::String::as_str", "alloc::string::String::as_str", "std::string::String::into_boxed_str",
    "std::str::<impl str>::to_string", "core::str::<impl str>::to_string", "str::to_string",
    "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T>::as_slice", "std::slice::<impl [T]>::to_vec",
    "std::slice::<impl [T]>::into_vec", "std::borrow::Cow::<'_, B>::into_owned", "std::convert::identity",
    "std::path::Path::to_path_buf", "std::path::PathBuf::as_path", "std::path::Path::new",
    "std::path::PathBuf::from", "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut",
    "std::string::String::leak", "std::str::<impl str>::to_owned", "std::boxed::Box::<[T]>::into_vec",
    "std::hint::must_use", "std::boxed::box_new", "std::ops::Try::from_output_", "std::vec::Vec::<T, A>::into_boxed_slice",
    "std::ffi::OsStr::new", "std::path::Path::as_os_str", "std::borrow::Cow::<'_, B>::as_ref",
    "std::boxed::box_assume_init_into_vec_unsafe",
    "miette::WrapErr::with_context", "miette::WrapErr::wrap_err_with", "miette::WrapErr::context", "miette::WrapErr::wrap_err",
    "miette::eyreish::error::<impl miette::Report>::wrap_err", "miette::eyreish::error::<impl miette::Report>::context",
    "std::string::String::leak", "std::boxed::Box::<T>::leak",
}
ITER_SAME = {
    "into_iter", "iter", "iter_mut", "cloned", "copied", "by_ref", "peekable", "rev", "filter", "skip", "take",
    "inspect", "as_slice", "as_mut_slice", "drain", "collect", "skip_while", "take_while", "fuse", "step_by",
    "to_vec", "into_boxed_slice", "chars_", "into_vec", "sorted", "deref", "deref_mut",
}


def last(n):
    return n.rsplit("::", 1)[-1]


def prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


class Val:
    def __init__(self, g: Graph):
        self.g = g
        self.p = g.p
        self._dom()
        self._pts()
        self._writes()
        self.memo = {}
        self.phi_ops = {}
        self._pushed = {}
        self._idf_memo = {}
        self.inprog = {}
        self.cmemo = {}
        self._elem_memo = {}
        self.calls_ = None

    # -- dominators -----------------------------------------------------------
    def _dom(self):
        g = self.g
        idom = {g.entry: g.entry}
        order = g.rpo
        ix = g.rpoi
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == g.entry:
                    continue
                new = None
                for q in g.preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while ix[x] > ix[y]:
                                    x = idom[x]
                                while ix[y] > ix[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        df = collections.defaultdict(set)
        for b in order:
            ps = g.preds[b]
            if len(ps) >= 2:
                for q in ps:
                    r = q
                    while r != idom[b]:
                        df[r].add(b)
                        r = idom[r]
        # loop headers that are the entry or self loops are covered above
        self.df = df
        # dominator tree intervals
        kids = collections.defaultdict(list)
        for b in order:
            if b != g.entry:
                kids[idom[b]].append(b)
        self.tin, self.tout = {}, {}
        c = 0
        st = [(g.entry, 0)]
        while st:
            b, i = st.pop()
            if i == 0:
                self.tin[b] = c
                c += 1
            if i < len(kids[b]):
                st.append((b, i + 1))
                st.append((kids[b][i], 0))
            else:
                self.tout[b] = c
                c += 1

    def dominates(self, a, b):
        return self.tin[a] <= self.tin[b] and self.tout[b] <= self.tout[a]

    # -- points-to for mutable references ------------------------------------
    def _pget(self, r, path):
        d = self.pts.get(r)
        if not d:
            return ()
        res = d.get(path)
        out = set(res) if res else set()
        for i in range(len(path) + 1):
            q = path[:i] + ("~",)
            if q in d:
                out |= d[q]
        return out

    def _step(self, cur, e):
        nxt = set()
        if e == "*":
            for (r, p, w) in cur:
                t = self._pget(r, p)
                if t:
                    for (r2, p2, w2) in t:
                        nxt.add((r2, p2, w or w2))
                else:
                    nxt.add((("D", r, p), (), w))
        elif e[0] == "f":
            for (r, p, w) in cur:
                nxt.add((r, p + (e[1],), w))
        elif e[0] in ("i", "c", "s"):
            for (r, p, w) in cur:
                nxt.add((r, p + ("[]",), True) if e[0] != "s" else (r, p, True))
        else:
            nxt = cur
        return nxt

    def resolve(self, place):
        cur = {(place[0], (), False)}
        for e in place[1]:
            cur = self._step(cur, e)
        return cur

    def _padd(self, r, path, tgts):
        if len(path) > 6:
            return False
        d = self.pts.setdefault(r, {})
        s = d.setdefault(path, set())
        n = len(s)
        s |= tgts
        return len(s) != n

    def _pts(self):
        g = self.g
        p = self.p
        self.pts = {}
        for l in g.argl:
            ty = g.lt[l]
            t = p.types[ty]
            if t["k"] == "ref" and t["m"]:
                self._padd(l, (), {(("D", l, ()), (), False)})
        hasmut = [p.ty_has_mut(t) for t in g.lt]
        stm = []
        for b in g.rpo:
            blk = g.B[b]
            for (pl, rv, ln) in blk["s"]:
                stm.append((pl, rv))
            t = blk["t"]
            if t["k"] == "call":
                stm.append((t["d"], t))
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for pl, rv in stm:
                k = rv.get("r") or "call"
                if k == "ref":
                    if rv["m"]:
                        tg = self.resolve(rv["p"])
                        for (r, q, w) in self.resolve(pl):
                            changed |= self._padd(r, q, tg)
                    else:
                        # a shared reborrow of something holding mutable refs
                        self_ty = g.pltype(rv["p"])
                        if self_ty >= 0 and p.ty_has_mut(self_ty):
                            # let deref of the shared ref reach it
                            tg = self.resolve(rv["p"])
                            for (r, q, w) in self.resolve(pl):
                                changed |= self._padd(r, q, tg)
                elif k in ("use", "cast"):
                    a = rv["a"]
                    if a[0] == "p":
                        if not p.ty_has_mut(g._optype(a)):
                            continue
                        changed |= self._pcopy(pl, (a[1], a[2]))
                elif k == "agg":
                    names = rv.get("fn") if rv["ak"] == "adt" else None
                    for i, a in enumerate(rv["ops"]):
                        if a[0] != "p" or not p.ty_has_mut(g._optype(a)):
                            continue
                        if rv["ak"] == "adt":
                            n = names[i]
                            if self._is_enum(rv["n"]):
                                n = rv["v"] + "." + n
                        elif rv["ak"] == "array":
                            n = "[]"
                        else:
                            n = str(i)
                        ty = g._optype(a)
                        dst = (pl[0], pl[1] + (("f", n, ty),)) if n != "[]" else (pl[0], pl[1] + (("i",),))
                        changed |= self._pcopy(dst, (a[1], a[2]))
                elif k == "cparam":
                    ty = g.pltype(pl)
                    if ty >= 0 and p.ty_has_mut(ty):
                        # may point into anything mutably reachable from the call's arguments
                        call = g.B[rv["call"]]["t"]
                        tg = set()
                        for a in call["a"]:
                            if a[0] == "p" and p.ty_has_mut(g._optype(a)):
                                for (r, q, w) in self._reach((a[1], a[2])):
                                    tg.add((r, q + ("[]",), True))
                        if tg:
                            for (r, q, w) in self.resolve(pl):
                                changed |= self._padd(r, q + ("~",), tg)
                elif k == "call":
                    ty = g.pltype(pl)
                    if ty >= 0 and p.ty_has_mut(ty):
                        tg = set()
                        nm = last(rv["f"])
                        whole = nm in ("by_ref", "as_mut", "deref_mut", "borrow_mut", "as_mut_slice", "as_deref_mut", "next", "as_slice_mut", "into_iter", "branch", "map_err")
                        for a in rv["a"]:
                            if a[0] == "p" and p.ty_has_mut(g._optype(a)):
                                for (r, q, w) in self._reach((a[1], a[2])):
                                    tg.add((r, q, w) if nm in ("by_ref", "as_mut", "deref_mut", "borrow_mut") else (r, q if q[-1:] == ("[]",) else q + ("[]",), True))
                        if tg:
                            for (r, q, w) in self.resolve(pl):
                                changed |= self._padd(r, q + ("~",), tg)

    def _is_enum(self, n):
        a = self.p.adts.get(n)
        return bool(a and a["kind"].lower() == "enum")

    def _reach(self, place):
        out = set()
        for (r, q, w) in self.resolve(place):
            d = self.pts.get(r, {})
            for k, s in d.items():
                if prefix(q, k) or k[-1:] == ("~",) and prefix(k[:-1], q):
                    out |= s
        return out

    def _pcopy(self, dst, src):
        ch = False
        for (r, q, w) in self.resolve(src):
            d = self.pts.get(r)
            if not d:
                continue
            for k, s in list(d.items()):
                if prefix(q, k):
                    rest = k[len(q):]
                elif k[-1:] == ("~",) and prefix(k[:-1], q):
                    rest = ("~",)
                else:
                    continue
                for (r2, q2, w2) in self.resolve(dst):
                    if (r2, q2 + rest) != (r, k):
                        ch |= self._padd(r2, q2 + rest, set(s))
        return ch

    # -- write index ----------------------------------------------------------
    def _writes(self):
        g = self.g
        p = self.p
        W = collections.defaultdict(dict)   # root -> block -> [(idx, path, kind, data)]
        def add(r, b, e):
            W[r].setdefault(b, []).append(e)
        for b in g.rpo:
            blk = g.B[b]
            for i, (pl, rv, ln) in enumerate(blk["s"]):
                tg = self.resolve(pl)
                if len(tg) == 1:
                    (r, q, w), = tg
                    add(r, b, (i, q, "weak" if w else "set", rv))
                else:
                    for (r, q, w) in tg:
                        add(r, b, (i, q, "weak", rv))
            t = blk["t"]
            if t["k"] == "call":
                n = len(blk["s"])
                clo = {c["arg"] for c in t.get("clo", ())}
                muts = {}
                for ai, a in enumerate(t["a"]):
                    if a[0] != "p" or ai in clo:
                        continue
                    ty = g._optype(a)
                    if ty >= 0 and p.ty_has_mut(ty):
                        for (r, q, w) in self._reach((a[1], a[2])):
                            muts.setdefault((r, q), ai)
                for (r, q), ai in muts.items():
                    add(r, b, (n, q, "mut", (t, ai)))
                tg = self.resolve(t["d"])
                for (r, q, w) in tg:
                    add(r, b, (n + 1, q, "set" if len(tg) == 1 and not w else "weak", t))
        # D roots are re-initialised when the pointer variable is assigned
        for r in list(W):
            if isinstance(r, tuple) and r[0] == "D" and isinstance(r[1], int):
                base, bp = r[1], r[2]
                for b, l in W.get(base, {}).items():
                    for e in l:
                        if e[2] == "set" and prefix(e[1], bp):
                            W[r].setdefault(b, []).append((e[0], (), "reinit", (base, bp, e[0])))
                for b in W[r]:
                    W[r][b].sort(key=lambda e: e[0])
        self.W = W

    def _idf(self, root, path):
        key = (root, path)
        s = self._idf_memo.get(key)
        if s is None:
            work = [b for b, l in self.W.get(root, {}).items() if any(prefix(e[1], path) or prefix(path, e[1]) for e in l)]
            s = set()
            while work:
                b = work.pop()
                for d in self.df.get(b, ()):
                    if d not in s:
                        s.add(d)
                        work.append(d)
            self._idf_memo[key] = s
        return s

    # -- reads ----------------------------------------------------------------
    def read(self, root, path, b, i):
        """Value of root.path just before statement i of block b."""
        while True:
            l = self.W.get(root, {}).get(b)
            if l:
                for j in range(len(l) - 1, -1, -1):
                    e = l[j]
                    if e[0] >= i:
                        continue
                    q = e[1]
                    if prefix(q, path):
                        return self._wval(e, root, path[len(q):], b)
                    if prefix(path, q):
                        v = self._wval(e, root, (), b)
                        old = self.read(root, path, b, e[0])
                        return self.upd(old, q[len(path):], v)
            # to block entry
            idf = self._idf(root, path)
            if b in idf:
                return self._phi(root, path, b)
            if b == self.g.entry:
                return self._initial(root, path)
            b = self.idom[b]
            # anything between idom and b that writes root would put b in the IDF
            i = 1 << 30
            while b not in idf and b != self.g.entry and b not in self.W.get(root, {}):
                b = self.idom[b]

    def _initial(self, root, path):
        if isinstance(root, int):
            if root in self.g.argl:
                n = self.g.argl.index(root)
                return self.fldp(mk("param", n, self.g.lname[root]), path)
            return UNDEF
        # pseudo root: pointee of a reference
        _, r, q = root
        if r in self.g.argl and not q:
            return self.fldp(mk("param", self.g.argl.index(r), self.g.lname[r]), path)
        if isinstance(r, int):
            # single definition of the pointer
            for b, l in self.W.get(r, {}).items():
                for e in l:
                    if prefix(e[1], q) and e[2] == "set":
                        return self.fldp(self._wval(e, r, q[len(e[1]):], b), path)
        return self.fldp(mk("deref", str(root)), path)

    def _phi(self, root, path, b):
        key = (root, path, b)
        v = self.memo.get(key)
        if v is not None:
            return v
        ph = mk("phi", b, str(root), path, id(self))
        self.memo[key] = ph
        ops = []
        for q in self.g.preds[b]:
            ops.append((q, self.read(root, path, q, 1 << 30)))
        uniq = {o for _, o in ops if o is not ph and o is not UNDEF and o is not BOT}
        if len(uniq) == 1:
            v = uniq.pop()
            self.memo[key] = v
            self.phi_ops[ph] = [(-1, v)]
            return v
        self.phi_ops[ph] = ops
        return ph

    def _wval(self, e, root, rest, b):
        idx, q, kind, data = e
        if kind == "set":
            return self._rvval(data, rest, b, idx)
        if kind == "reinit":
            base, bp, ix = data
            return self.fldp(self.read(base, bp, b, ix + 1), rest)
        old = self.read(root, q, b, idx)
        if kind == "mut":
            t, ai = data
            m = mk("mut", t["f"], t["site"], ai, b, old)
        else:
            m = mk("mut", "store", (b, idx), -1, b, old)
        return self.fldp(m, rest)

    def stored(self, b, idx):
        """Value stored by the (weak) assignment at b, idx."""
        pl, rv, ln = self.g.B[b]["s"][idx]
        return self._rvval(rv, (), b, idx)

    def place(self, pl, rest, b, i):
        """Value of a place (then projected by the names in rest) before stmt i of b."""
        loc = (pl[0], ())
        t = None
        for e in pl[1]:
            if e == "*":
                if t is None:
                    tg = self._pget(loc[0], loc[1])
                    if tg:
                        if len(tg) == 1:
                            (r, p, w), = tg
                            if p[-1:] == ("[]",) or w:
                                t = self.read(loc[0], loc[1], b, i)
                            else:
                                loc = (r, p)
                        else:
                            t = self._join([self.read(r, p, b, i) for (r, p, w) in sorted(tg, key=str)])
                    elif ("D",) + loc in self.W:
                        loc = (("D",) + loc, ())
                    else:
                        t = self.read(loc[0], loc[1], b, i)
                continue
            if e[0] == "f":
                if t is None:
                    loc = (loc[0], loc[1] + (e[1],))
                else:
                    t = self.fld(t, e[1])
            elif e[0] == "i":
                if t is None:
                    t = self.read(loc[0], loc[1], b, i)
                    loc = None
                ixl = e[1] if len(e) > 1 and e[1] is not None else None
                ix = self.read(ixl, (), b, i) if ixl is not None else mk("const", None)
                t = self.index(t, ix)
            elif e[0] == "c":
                if t is None:
                    t = self.read(loc[0], loc[1], b, i)
                t = self.index(t, mk("const", -e[1] if e[2] else e[1]))
            elif e[0] == "s":
                if t is None:
                    t = self.read(loc[0], loc[1], b, i)
        if t is None:
            return self.read(loc[0], loc[1] + tuple(rest), b, i)
        return self.fldp(t, rest)

    def _join(self, ts):
        u = []
        for t in ts:
            if t not in u:
                u.append(t)
        if len(u) == 1:
            return u[0]
        return mk("join", *u)

    def index(self, t, ix):
        if t.k == "arr" and ix.k == "const" and isinstance(ix.a[0], int) and 0 <= ix.a[0] < len(t.a):
            return t.a[ix.a[0]]
        if t.k == "const" and isinstance(t.a[0], tuple) and t.a[0][:1] == ("seq",) and ix.k == "const" and isinstance(ix.a[0], int):
            try:
                return mk("const", t.a[0][1][ix.a[0]])
            except IndexError:
                return BOT
        # index by a full range over the same collection == element
        if ix.k == "elem" and ix.a[0].k == "agg" and ix.a[0].a[0].endswith("ops::Range"):
            return mk("elem", t)
        return mk("idx", t, ix)

    def op(self, o, rest, b, i):
        if o[0] == "c":
            return self.fldp(self.const(o), rest)
        return self.place((o[1], o[2]), rest, b, i)

    def const(self, o):
        v = o[2]
        if v["k"] == "zst" or v["k"] == "uneval":
            return mk("const", ("ty", self.p.tyname(o[1])))
        return mk("const", self.cval(v))

    def cval(self, v):
        k = v["k"]
        if k in ("str", "int", "bool", "char", "float", "bytes"):
            return v["v"] if k != "char" else chr(v["v"])
        if k == "ref":
            return self.cval(v["v"])
        if k == "seq":
            return ("seq", tuple(self.cval(x) for x in v["v"]))
        if k == "tuple":
            return ("tuple", tuple(self.cval(x) for x in v["v"]))
        if k == "adt":
            # a float among the fields is told from a character by its point
            return ("adt", v["n"], v["v"], tuple((f["n"], f["v"]["v"] + ".0" if f["v"]["k"] == "float" and f["v"]["v"].lstrip("-").isdigit() else self.cval(f["v"])) for f in v["f"]))
        if k == "static":
            return ("static", v["n"])
        return ("?", k)

    def _rvval(self, rv, rest, b, i):
        k = rv.get("r") or "call"
        if k == "use":
            return self.op(rv["a"], rest, b, i)
        if k == "ref":
            return self.place(rv["p"], rest, b, i)
        if k == "agg":
            names = rv.get("fn")
            if rv["ak"] == "adt":
                en = self._is_enum(rv["n"])
                if rest:
                    for n, o in zip(names, rv["ops"]):
                        nn = rv["v"] + "." + n if en else n
                        if nn == rest[0]:
                            return self.op(o, rest[1:], b, i)
                    return BOT
                if rv["n"] in ("std::boxed::Box", "std::boxed::BoxRaw"):
                    return self.op(rv["ops"][0], (), b, i)
                return mk("agg", rv["n"], rv["v"], tuple(names), *[self.op(o, (), b, i) for o in rv["ops"]])
            if rv["ak"] in ("tuple", "closure"):
                if rest:
                    n = rest[0]
                    if n.isdigit() and int(n) < len(rv["ops"]):
                        return self.op(rv["ops"][int(n)], rest[1:], b, i)
                    return BOT
                if rv["ak"] == "tuple":
                    return mk("tup", *[self.op(o, (), b, i) for o in rv["ops"]])
                return mk("clo", rv["n"], *[self.op(o, (), b, i) for o in rv["ops"]])
            if rv["ak"] == "array":
                return self.fldp(mk("arr", *[self.op(o, (), b, i) for o in rv["ops"]]), rest)
            return mk("aggother")
        if k == "cast":
            c = rv["c"]
            v = self.op(rv["a"], rest, b, i)
            if c.startswith("IntToInt") or c.startswith("FloatToInt") or c.startswith("IntToFloat") or c.startswith("FloatToFloat"):
                return mk("cast", c, self.p.tyname(rv["ft"]), self.p.tyname(rv["t"]), v)
            return v
        if k in ("bin", "cbin"):
            x = self.op(rv["a"], (), b, i)
            y = self.op(rv["b"], (), b, i)
            v = mk("bin", rv["op"], x, y)
            if k == "cbin" or rv["op"].endswith("WithOverflow"):
                if rest == ("0",):
                    return mk("bin", rv["op"].replace("WithOverflow", ""), x, y)
                return self.fldp(mk("tup", v, mk("ovf", v)), rest)
            return self._binsimp(v)
        if k == "un":
            x = self.op(rv["a"], (), b, i)
            if rv["op"] == "Not" and x.k == "un" and x.a[0] == "Not":
                return x.a[1]
            if rv["op"] == "Not" and x.k == "const" and isinstance(x.a[0], bool):
                return mk("const", not x.a[0])
            if rv["op"] == "PtrMetadata":
                return mk("len", x)
            return mk("un", rv["op"], x)
        if k == "discr":
            x = self.place(rv["p"], (), b, i)
            return mk("discr", x, self._adtof(rv["t"], rv["p"]))
        if k == "len":
            return mk("len", self.place(rv["p"], (), b, i))
        if k == "repeat":
            return mk("repeat", self.op(rv["a"], (), b, i))
        if k == "cparam":
            return self.fldp(self._cparam(rv, b), rest)
        if k == "call":
            return self.fldp(self.callval(rv, b), rest)
        return mk("opaque", k, b, i)

    def _binsimp(self, v):
        op, x, y = v.a
        if x.k == "const" and y.k == "const" and op in ("Eq", "Ne") and x.a[0] is not None:
            return mk("const", (x.a[0] == y.a[0]) == (op == "Eq"))
        return v

    def _adtof(self, ty, place):
        # rv["t"] is the type of the place
        t = self.p.types[ty] if ty >= 0 else {"k": "?"}
        return t.get("n", "?")

    def _cparam(self, rv, b):
        call = self.g.B[rv["call"]]["t"]
        nm = last(call["f"])
        if rv["i"] == 0 and nm in ("map", "filter", "for_each", "any", "all", "find", "position", "filter_map", "flat_map", "find_map", "inspect", "take_while", "skip_while", "map_while", "try_for_each", "retain", "max_by_key", "min_by_key", "partition", "sort_by_key", "sort_by_cached_key", "dedup_by_key", "is_sorted_by_key", "rposition", "all_", "sum"):
            # argument 0 of the call is the iterator / collection
            a0 = call["a"][0]
            it = self.op(a0, (), rv["call"], len(self.g.B[rv["call"]]["s"]))
            # inside the loop the adaptor sees the value before the call
            t = self.elemof(it)
            if nm == "retain":
                return t
            return t
        if nm in ("fold", "try_fold") and rv["i"] == 1:
            a0 = call["a"][0]
            it = self.op(a0, (), rv["call"], len(self.g.B[rv["call"]]["s"]))
            return self.elemof(it)
        return mk("cparam", call["f"], rv["site"], rv["arg"], rv["i"])

    def callval(self, t, b):
        key = (t["site"], b)
        v = self.cmemo.get(key)
        if v is not None:
            return v
        n = len(self.g.B[b]["s"])
        nm = t["f"]
        if (nm in TRANSPARENT or (nm.startswith(COMB_PREFIX) and last(nm) in COMB_SAME)) and t["a"]:
            v = self.op(t["a"][0], (), b, n)
            w = self.jsonwrap(t)
            if w:
                v = mk("agg", "serde_json::Value", w, ("0",), v)
            return v
        if nm == "serde_json::to_value" and t["a"]:
            w = self.jsonwrap(t)
            if w:
                return mk("agg", "std::result::Result", "Ok", ("0",), mk("agg", "serde_json::Value", w, ("0",), self.op(t["a"][0], (), b, n)))
        args = [self.op(a, (), b, n) for a in t["a"]]
        l = last(nm)
        if nm == "std::ops::Index::index" and len(args) == 2:
            v = self.index(args[0], args[1])
            if args[1].k == "agg":
                v = mk("slice", *args)
        else:
            v = mk("call", nm, t["site"], *args)
        self.cmemo[key] = v
        return v

    def jsonwrap(self, t):
        """The JSON value constructor a conversion into serde_json::Value amounts to."""
        l = last(t["f"])
        if l not in ("into", "from", "to_value"):
            return None
        p = self.g.p
        ts = [re.sub(r"^(&(mut )?('\w+ )?)+", "", p.tyname(x)) for x in t.get("ga", [])]
        if l != "to_value":
            if "serde_json::Value" not in ts or len(ts) != 2:
                return None
            ts.remove("serde_json::Value")
        if len(ts) != 1:
            return None
        x = ts[0]
        if x in ("str", "std::string::String") or x.startswith("std::borrow::Cow"):
            return "String"
        if x == "bool":
            return "Bool"
        if re.match(r"^([iu](8|16|32|64|size)|f32|f64)$", x):
            return "Number"
        if x.startswith("std::vec::Vec<") or x.startswith("["):
            return "Array"
        if x.startswith("serde_json::Map<"):
            return "Object"
        return None

    def args(self, b):
        t = self.g.B[b]["t"]
        n = len(self.g.B[b]["s"])
        return [self.op(a, (), b, n) for a in t["a"]]

    def pushed(self, t):
        """Elements of a list built by pushes alone, one after the other (no choices, no loop); None when t is not one."""
        r = self._pushed.get(t, 0)
        if r == 0:
            self._pushed[t] = None
            r = None
            old = t.a[-1]
            if t.a[2] == 0 and last(str(t.a[0])) in ("push", "push_back") and t.a[3] in self.g.rpoi and self.g.B[t.a[3]]["t"]["k"] == "call":
                if old.k == "call" and last(old.a[0]) in ("new", "with_capacity") and "Vec" in old.a[0]:
                    r = ()
                elif old.k == "arr":
                    r = old.a
                elif old.k == "mut":
                    r = self.pushed(old)
                if r is not None:
                    r = tuple(r) + (self.args(t.a[3])[1],)
            self._pushed[t] = r
        return r

    # -- projections ------------------------------------------------------------
    def fldp(self, t, path):
        for n in path:
            t = self.fld(t, n)
        return t

    def fld(self, t, n):
        k = t.k
        if n == "[]":
            return mk("elem", t)
        if k == "agg":
            en = self._is_enum(t.a[0])
            for x, v in zip(t.a[2], t.a[3:]):
                if (t.a[1] + "." + x if en else x) == n:
                    return v
            return BOT
        if k in ("tup", "clo"):
            base = t.a if k == "tup" else t.a[1:]
            if n.isdigit() and int(n) < len(base):
                return base[int(n)]
            return BOT
        if k == "upd":
            old, path, v = t.a
            if path[0] == n:
                return v if len(path) == 1 else self.upd(self.fld(old, n), path[1:], v)
            return self.fld(old, n)
        if k == "const" and isinstance(t.a[0], tuple):
            c = t.a[0]
            if c[0] == "adt":
                for x, v in c[3]:
                    if x == n or c[2] + "." + x == n:
                        return mk("const", v)
                return BOT
            if c[0] == "tuple" and n.isdigit():
                return mk("const", c[1][int(n)])
        if k == "join":
            return self._join([self.fld(x, n) for x in t.a])
        if k == "call" and n == "Some.0":
            l = last(t.a[0])
            if l in ("next", "next_back", "pop_front_", "last_") and len(t.a) == 3 and not self.advanced(t.a[2])[0]:
                if self.firsts and l == "next" and self.advanced(t.a[2])[1].k != "phi":
                    return mk("fld", t, n)
                return self.elemof(t.a[2])
            if l == "find" and len(t.a) >= 3:
                return self.elemof(t.a[2])
        if k in ("bot", "undef"):
            return t
        return mk("fld", t, n)

    def upd(self, old, path, v):
        if not path:
            return v
        if path[0] == "[]":
            return mk("mut", "elemstore", v, -1, -1, old)
        if old.k == "agg":
            en = self._is_enum(old.a[0])
            names = [(old.a[1] + "." + x if en else x) for x in old.a[2]]
            if path[0] in names:
                i = names.index(path[0])
                ops = list(old.a[3:])
                ops[i] = self.upd(ops[i], path[1:], v)
                return mk("agg", old.a[0], old.a[1], old.a[2], *ops)
        if old.k == "tup" and path[0].isdigit() and int(path[0]) < len(old.a):
            ops = list(old.a)
            i = int(path[0])
            ops[i] = self.upd(ops[i], path[1:], v)
            return mk("tup", *ops)
        return mk("upd", old, path, v)

    # -- iteration ----------------------------------------------------------------
    def ops(self, t):
        return [o for _, o in self.phi_ops.get(t, ())]

    firsts = False      # keep the first element, taken outside any loop, apart from the others

    def advanced(self, t):
        """(how often an iterator has been advanced outside any loop, what it runs over)"""
        k = 0
        while t.k == "ref":
            t = t.a[0]
        while t.k == "mut" and last(str(t.a[0])) == "next" and t.a[2] == 0:
            k, t = k + 1, t.a[-1]
        return (0, t) if t.k in ("phi", "mut", "join") else (k, t)

    def itbase(self, t, seen=None):
        """Strip advance-mutations and loop phis of an iterator variable."""
        seen = seen if seen is not None else set()
        while True:
            if t.k == "mut" and last(str(t.a[0])) in ("next", "next_back", "peek", "by_ref", "nth", "find", "position", "next_if", "any", "all", "for_each", "try_for_each", "extend", "size_hint", "next_if_eq", "peek_mut"):
                t = t.a[-1]
                continue
            if t.k == "phi":
                if t in seen:
                    return None
                seen.add(t)
                if t not in self.phi_ops:
                    return None
                rs = {self.itbase(o, seen) for o in self.ops(t)} - {None, UNDEF, BOT}
                if len(rs) == 1:
                    return rs.pop()
                return t
            return t

    def elemof(self, it):
        r = self._elem_memo.get(it)
        if r is not None:
            return r
        r = self._elemof(it)
        self._elem_memo[it] = r
        return r

    def _elemof(self, it):
        b = self.itbase(it)
        if b is None:
            return mk("elem", it)
        t = b
        if t.k == "call":
            l = last(t.a[0])
            a = t.a[2:]
            site = t.a[1]
            if l in ("iter", "into_iter", "iter_mut") and a and self._over_option(site, t.a[0]):
                return self.some(a[0])
            if l in ITER_SAME and a:
                return self.elemof(a[0])
            if l == "flatten" and a:
                return self.elemof(self.elemof(a[0]))
            if l == "enumerate" and a:
                return mk("tup", mk("idxof", self.itbase(a[0]) or a[0]), self.elemof(a[0]))
            if l in ("map", "filter_map", "flat_map", "map_while") and a:
                ret = self.closure_ret(site)
                if ret is not None:
                    if l == "map":
                        return ret
                    if l in ("filter_map", "map_while"):
                        return self.some(ret)
                    return self.elemof(ret)
            if l in ("values", "into_values", "values_mut") and a:
                return self.fld(self.elemof(a[0]), "1")
            if l in ("keys", "into_keys") and a:
                return self.fld(self.elemof(a[0]), "0")
            if l == "zip" and len(a) == 2:
                return mk("tup", self.elemof(a[0]), self.elemof(a[1]))
            if l == "chain" and len(a) == 2:
                return self._join([self.elemof(a[0]), self.elemof(a[1])])
            if l == "once" and a:
                return a[0]
            if l in ("deref", "as_ref", "as_slice", "into_boxed_slice") and a:
                return self.elemof(a[0])
        if t.k == "agg" and t.a[0].endswith("Option") :
            return self.fld(t, "Some.0")
        return mk("elem", t)

    def _over_option(self, site, nm):
        if "option::Option" in nm:
            return True
        for b in self.g.rpo:
            t = self.g.B[b]["t"]
            if t["k"] == "call" and t.get("site") == site:
                ty = self.g._optype(t["a"][0]) if t["a"] else -1
                n = self.p.tyname(ty) if ty >= 0 else ""
                n = n.lstrip("&").replace("mut ", "", 1)
                return n.startswith("std::option::Option<")
        return False

    def some(self, t):
        """Some-payload of an option-valued term, through phis."""
        if t.k == "phi":
            xs = []
            for o in self.ops(t):
                v = self.some(o) if o.k != "phi" or o is not t else None
                if v is not None and v is not BOT and v is not UNDEF:
                    xs.append(v)
            if xs:
                return self._join(xs)
            return mk("fld", t, "Some.0")
        return self.fld(t, "Some.0")

    def closure_ret(self, site, which=0):
        for b in self.g.rpo:
            t = self.g.B[b]["t"]
            if t["k"] == "call" and t.get("site") == site and t.get("clo"):
                c = t["clo"][which]
                if c["end"] in self.g.preds:
                    return self.read(c["ret"], (), c["end"], 0)
        return None

    # -- queries -------------------------------------------------------------------
    def calls(self, *names, pred=None):
        """Blocks whose (un-inlined) terminator calls one of the names (suffix match)."""
        out = []
        for b in self.g.rpo:
            t = self.g.B[b]["t"]
            if t["k"] == "call":
                f = t["f"]
                if (not names or any(nmatch(f, n) for n in names)) and (pred is None or pred(f)):
                    out.append(b)
        return out

    def leaves(self, t, through=None, seen=None, depth=0):
        """All atoms a term is built from (phis expanded)."""
        seen = seen if seen is not None else set()
        if t in seen:
            return
        seen.add(t)
        yield t
        if t.k == "phi":
            for o in self.ops(t):
                yield from self.leaves(o, through, seen)
            return
        for x in t.a:
            if isinstance(x, Term):
                yield from self.leaves(x, through, seen)

    def alts(self, t, seen=None):
        """The alternatives of a value: phis and joins expanded, everything else kept."""
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        if t.k == "phi":
            r = []
            for o in self.ops(t):
                r += self.alts(o, seen)
            return r
        if t.k == "join":
            r = []
            for o in t.a:
                r += self.alts(o, seen)
            return r
        if t.k == "fld":
            bs = self.alts(t.a[0], set())
            if len(bs) != 1 or bs[0] is not t.a[0]:
                r = []
                for x in bs:
                    y = self.fld(x, t.a[1])
                    if y is t:
                        r.append(y)
                    else:
                        r += self.alts(y, seen)
                return r
        if t in (UNDEF, BOT):
            return []
        return [t]

    def cond(self, b):
        """Scrutinee term of a switch."""
        t = self.g.B[b]["t"]
        if t["k"] == "switch":
            return self.op(t["d"], (), b, len(self.g.B[b]["s"]))
        return None


def nmatch(f, n):
    return f == n or f.endswith("::" + n)
