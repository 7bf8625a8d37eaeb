"""Decision-table comparison.

A specification is a Python function over a `Spec`: it asks facts about the
(arbitrary) input and performs the effects the property demands on an abstract
state.  Every row (path condition, final state) of the implementation is
compared with the specification under every completion of the facts the row
leaves open, so a row that ignores a fact the property depends on, or depends
on one it should not, does not agree.
"""
import collections
import time
from interp import *
import models as M
import ae as AEM


class Split(Exception):
    def __init__(self, pcs):
        self.pcs = pcs


class Cut(Exception):
    pass


T, Fl = frozenset([True]), frozenset([False])


class Spec:
    def __init__(self, A, st):
        self.A, self.I, self.st = A, A.I, st

    # -------------------------------------------------------------- asking
    def one(self, rs):
        if len(rs) != 1:
            raise Split([s.pc for _, s in rs])
        lab, self.st = rs[0]
        return lab

    def bool(self, term):
        if term[0] == "c":
            return term[1]
        if term[0] == "MARK" and self.st.pc.get(("b", ("MARKX",) + term[1:])) == T:
            return True
        if term[0] == "MARKX" and self.st.pc.get(("b", ("MARK",) + term[1:])) == Fl:
            return False
        return self.one(self.I.force_bool(self.st, term))

    def var(self, term, adt, *names):
        """is the variant of term one of names"""
        term = self.I.vkey(term)
        if term[0] == "adt":
            return term[2] in names
        full = frozenset(self.I.variants(adt))
        pos = frozenset(names) & full
        return self.one(self.I.fork_dom(self.st, ("var", term), full, [(True, pos), (False, full - pos)]))

    def is_(self, term, *names):
        return self.var(term, EXPR, *names)

    def opt(self, term):
        return self.var(term, "std::option::Option", "Some")

    def streq(self, term, c):
        return self.bool(M.str_eq(self.I, self.st, term, const(c)))

    def int(self, term, op, c):
        return self.bool(self.I.binop(op, term, const(c)))

    def len(self, seq, op, c):
        return self.int(self.I.length(self.st, seq), op, c)

    def one_of(self, key, dom):
        return self.one(self.I.fork_dom(self.st, key, dom, [(x, frozenset([x])) for x in dom]))

    def exists(self, seq, pred, name):
        """does pred hold for an element of seq"""
        pc = self.st.pc
        if seq[0] == "seq":
            for x in seq[1]:
                if pred(self, x):
                    return True
            return False
        if seq[0] == "push":
            return self.exists(seq[1], pred, name) or pred(self, seq[2])
        keys = [k for k in pc if k[0] == "any" and k[1] == seq]
        if not keys:
            L = self.I.length(self.st, seq)
            explicit = ("int", L) in pc and any(mentions(k, seq) for k in pc)
            if explicit or (("int", L) in pc and pc[("int", L)] == (0, 0)):
                i = 0
                while True:
                    if not self.int(L, "Gt", i):
                        return False
                    if pred(self, proj(seq, ("i", i))):
                        return True
                    i += 1
                    if i > self.I.bound + 2:
                        raise Cut()
        for k in keys:
            if k[2] == ("spec", name):
                return pc[k] == T
            if isinstance(k[2], frozenset) and self.equivalent(seq, pred, k[2]):
                return pc[k] == T
        k = ("any", seq, ("spec", name))
        return self.one(self.I.fork_bool(self.st, k))

    def equivalent(self, seq, pred, hit):
        cache = self.A.__dict__.setdefault("eqcache", {})
        ck = (seq, hit, getattr(pred, "__qualname__", "?"))
        e = ("elem", seq)

        def both(f):
            b = pred(f, e)
            h = f.dnf(hit)
            return (b, h)
        st = St()
        res = all(b == h for (b, h), _ in leaves(lambda: Spec(self.A, St()), both, {}))
        cache[ck] = res
        return res

    def dnf(self, hit):
        for d in hit:
            if all(self.within(k, v) for k, v in sorted(d, key=repr)):
                return True
        return False

    def within(self, k, v):
        if isinstance(v, frozenset):
            full = self.domain(k) | v
            return self.one(self.I.fork_dom(self.st, k, full, [(True, v), (False, full - v)]))
        if k[0] == "str":
            if v[0] == "is":
                return self.one(self.I.fork_str(self.st, k[1], v[1]))
            return all(not self.one(self.I.fork_str(self.st, k[1], c)) for c in sorted(v[1]))
        if k[0] == "int":
            lo, hi = v
            if lo > 0 and not self.int(k[1], "Ge", lo):
                return False
            return hi == INF or self.int(k[1], "Le", hi)
        raise Stop("fact %r" % (k,))

    def domain(self, k):
        if k[0] in ("b", "any", "pb_empty", "pb_peek"):
            return frozenset([True, False])
        if k[0] == "var":
            v = self.st.pc.get(k)
            for adt in self.I.adts:
                pass
            t = k[1]
            if t[0] == "p" and t[2] == "meta":
                return frozenset(["Path", "List", "NameValue"])
            for a in (EXPR, STMT, "syn::Meta", "std::option::Option"):
                vs = frozenset(self.I.variants(a)) if a in self.I.adts else frozenset()
                if v is not None and v <= vs:
                    return vs
            return frozenset(self.I.variants(EXPR))
        return frozenset(["ok", "err"])

    # ------------------------------------------------------------- reading
    def get(self, pl):
        return self.I.load(self.st, pl[0], pl[1])

    def put(self, pl, v):
        self.I.store(self.st, pl[0], pl[1], v)

    def sub(self, pl, *path):
        return (pl[0], pl[1] + tuple(path))

    def payload(self, pl, variant, adt=EXPR):
        return (pl[0], pl[1] + (("d", variant, adt), "0"))

    # ---------------------------------------------------------- attributes
    def attrs_pl(self, pl, kind):
        return self.sub(pl, "@attrs") if kind == EXPR else self.sub(pl, "attrs")

    def has(self, pl, lit, kind=EXPR):
        Am = AEM.attr_base(self.get(self.attrs_pl(pl, kind)), lit)
        if Am[0] == "seq" and not Am[1]:
            return False
        return self.one(self.I.fork_bool(self.st, ("b", ("hasattr", Am, lit))))

    def meta(self, pl, lit, kind=EXPR):
        Am = AEM.attr_base(self.get(self.attrs_pl(pl, kind)), lit)
        return ("p", ("attr", Am, lit), "meta")

    def has_path(self, pl, lit, kind=EXPR):
        """`#[lit]` without arguments"""
        return self.has(pl, lit, kind) and self.var(self.meta(pl, lit, kind), "syn::Meta", "Path")

    def remove(self, pl, lit, kind=EXPR):
        ap = self.attrs_pl(pl, kind)
        self.put(ap, ("rm", self.get(ap), lit))

    # ------------------------------------------------------------- effects
    CX = (("G", "cx"), ())

    def error(self, what="*"):
        E = proj(self.get(self.CX), "@E")
        self.put(self.sub(self.CX, "@E"), ("err+", E, what))
        raise Done()

    def wrap(self, pl, attrs=("seq", ())):
        b = self.get(self.sub(self.CX, "builder"))
        e = self.get(pl)
        self.put(self.sub(self.CX, "builder"), ("wrapped", b, attrs, e))
        self.put(pl, AEM.wrap_term(b, attrs, e))

    def wrap_value(self, e, attrs=("seq", ())):
        b = self.get(self.sub(self.CX, "builder"))
        self.put(self.sub(self.CX, "builder"), ("wrapped", b, attrs, e))
        return AEM.wrap_term(b, attrs, e)

    def call(self, name, pl, extra=()):
        """a cut function over a node"""
        node = self.get(pl)
        self.put(pl, ("rec", (name,) + tuple(extra), node))
        self.A.cx_effects(self.st, self.CX[0], self.CX[1], (name,) + tuple(extra), node, child=False)

    def visit(self, V, kind, pl):
        node = self.get(pl)
        tag = (V[0], kind, V[1])
        self.put(pl, ("rec", tag, node))
        self.A.cx_effects(self.st, self.CX[0], self.CX[1], tag, node)


    def haserr(self):
        return self.one(self.A.haserr(self.st, proj(self.get(self.CX), "@E")))

    def call_parent(self, name, pl, *extra):
        node = AEM.canon(self.get(pl))
        tag = (name, ("s", "CX")) + extra
        self.put(pl, ("rec", tag, node))
        self.A.cx_effects(self.st, self.CX[0], self.CX[1], tag, node, child=False)

    def on_visitor(self, V, kind, pl):
        """effect of a read-only visitor (its own state at ('G','vis'))"""
        node = self.get(pl)
        vis = self.get((("G", "vis"), ()))
        self.A.effects(self.st, (V[0], kind, V[1]), node, vis, ("G", "vis"), (), pl[0], pl[1])


class Done(Exception):
    """the specification is decided (an error was recorded)"""


def mentions(k, t):
    if k == t:
        return True
    return isinstance(k, tuple) and any(mentions(x, t) for x in k)


def leaves(mk, spec, pc, limit=4000):
    """all completions: [((result), Spec)]"""
    out, work = [], [dict(pc)]
    n = 0
    while work:
        p = work.pop()
        n += 1
        if n > limit:
            raise Stop("specification explores too many cases")
        f = mk()
        f.st.pc = dict(p)
        try:
            r = spec(f)
        except Split as e:
            if len(e.pcs) == 0:
                continue
            work.extend(e.pcs)
            continue
        except Done:
            r = None
        except Cut:
            continue
        out.append((r, f))
    return out


# ------------------------------------------------------------- normal forms
INTERP = []


def try_match(m):
    """match <e> { Ok(v) => v, Err(e) => return Err(Wrap(e)) } in any spelling"""
    fs = dict(m[3])
    arms = fs.get("arms")
    if not arms or arms[0] != "seq" or len(arms[1]) != 2 or any(a[0] != "parsed" for a in arms[1]):
        return m
    res = {}
    for a in arms[1]:
        t = list(a[2][1]) if a[2][0] == "tok" else []
        side, t = result_path(t)
        if side is None or not t or t[0][0] != "g" or t[0][1] != "(" or len(t[0][2]) != 1 or t[0][2][0][0] != "i":
            return m
        v = t[0][2][0][1]
        if not t[1:] or t[1] != ("o", "=>"):
            return m
        res[side] = (v, unbrace([x for x in t[2:] if x != ("o", ",")]))
    if set(res) != {"Ok", "Err"}:
        return m
    v, b = res["Ok"]
    if b != [("i", v)]:
        return m
    v, b = res["Err"]
    if not b or b[0] != ("i", "return"):
        return m
    side, b = result_path(b[1:])
    if b and b[-1] == ("o", ";"):
        b = b[:-1]
    if side != "Err" or len(b) != 1 or b[0][0] != "g" or len(b[0][2]) != 1 or b[0][2][0][0] != "v":
        return m
    w = b[0][2][0][1]
    if w[0] != "adt" or w[2] != "Call":
        return m
    c = dict(w[3][0][1][3])
    if c.get("func") != ("variant",) or c.get("args") != ("seq", (("anyident",),)) or c.get("attrs") != ("seq", ()):
        return m
    return ("trymatch", fs.get("attrs"), fs.get("expr"))


def result_path(t):
    p = []
    while t and t[0][0] in ("o", "i") and t[0][1] not in ("=>", ";", ","):
        p.append(t[0][1])
        t = t[1:]
    if p[:1] == ["::"] and p[1:2] in (["core"], ["std"]) and p[2:6] == ["::", "result", "::", "Result"] and p[6:7] == ["::"] and len(p) == 8:
        return p[7], t
    return None, t


def unbrace(t):
    while len(t) == 1 and t[0][0] == "g" and t[0][1] == "{":
        t = list(t[0][2])
    return t


def err_sources(E, pc):
    out, todo = set(), [E]
    while todo:
        x = todo.pop()
        if x[0] == "errw":
            out.add((norm(x[1], pc), norm(x[2], pc)))
            todo.append(x[3])
        elif x[0] == "errj":
            todo += [x[1], x[2]]
        elif x[0] == "err+":
            out.add("error")
            todo.append(x[1])
        else:
            out.add(x)
    return frozenset(out)


# punctuation that carries no meaning of its own
TRIVIA = {"comma", "brace_token", "paren_token", "match_token", "fat_arrow_token"}


def same_child(base, k, v):
    return v == ("p", base, k)


def norm(t, pc, I=None):
    """replace decided booleans by their value; forget variant numbers and
    error texts"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in memo:
            return memo[x]
        b = pc.get(("b", x)) if isinstance(x[0], str) else None
        if x[0] in ("bin", "not", "streq", "dom") and INTERP:
            st = St()
            st.pc = dict(pc)
            try:
                rs = INTERP[0].force_bool(st, x)
            except Stop:
                rs = []
            if len(rs) == 1:
                b = frozenset([rs[0][0]])
        if b == T or b == Fl:
            r = ("c", b == T)
        elif x[0] == "variant":
            r = ("variant",)
        elif x[0] == "enumitem":
            r = ("enumitem", flat_builder(x[1], pc), go(x[2]), go(x[3]))
        elif x[0] in ("err+",):
            r = ("err+",)
        elif x[0] in ("errw", "errj"):
            r = ("errw",)
        elif x[0] == "parsed" and len(x) == 3 and x[1] == EXPR and x[2][0] == "tok" and len(x[2][1]) == 1 and x[2][1][0][0] == "i":
            r = ("anyident",)
        elif x[0] == "dflt":
            r = x
        elif x[0] == "ov" and len(x) == 3:
            base = go(x[1])
            fs = tuple((k, v) for k, v in ((k, go(v)) for k, v in x[2] if k not in TRIVIA) if not same_child(base, k, v))
            r = ("ov", base, fs) if fs else base
        elif x[0] == "adt" and len(x) == 4:
            r = ("adt", x[1], x[2], tuple((k, go(v)) for k, v in x[3] if k not in TRIVIA))
            if x[1] == "syn::ExprMatch":
                r = try_match(r)
        elif x[0] == "into" and len(x) == 3 and x[1] in ("usize", "u8", "u16", "u32", "u64", "i32"):
            v = go(x[2])
            r = ("c", int(v[1])) if v in (("c", True), ("c", False)) else ("into", x[1], v)
        elif x[0] == "bin" and x[1] in ("BitOr", "BitAnd") and INTERP:
            r = INTERP[0].binop(x[1], go(x[2]), go(x[3]))
        elif x[0] == "not" and len(x) == 2 and INTERP:
            r = INTERP[0].not_(go(x[1]))
        elif x[0] == "or" and len(x) == 3:
            a, b = go(x[1]), go(x[2])
            r = ("c", True) if ("c", True) in (a, b) else b if a == ("c", False) else a if b == ("c", False) else ("or", a, b)
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return go(t)


def flat_builder(b, pc):
    c = collections.Counter()
    while b[0] in ("wrapped", "bw"):
        if b[0] == "wrapped":
            c[("W", norm(b[3], pc))] += 1
            b = b[1]
        else:
            c[("sub", norm(b[1], pc), norm(b[2], pc))] += 1
            b = b[3]
    return (frozenset(c.items()), norm(b, pc))


def cx_obs(cx, pc, fields):
    o = {}
    o["wraps"] = flat_builder(proj(cx, "builder"), pc)
    for f in fields:
        v = proj(cx, f)
        if f == "has_child":
            o[f] = v if v == TRUE else (TRUE if pc.get(("b", v)) == T else norm(v, pc))
        else:
            o[f] = norm(v, pc)
    o["error"] = proj(cx, "@E")[0] == "err+"
    o["collected errors"] = err_sources(proj(cx, "@E"), pc)
    return o


CXFIELDS = ("has_child", "visit_mode", "visit_last_mode", "current_marker", "markers", "root", "args", "traits", "span")


def errs(pc):
    return any(k[0] == "b" and k[1][0] == "HASERR" and v == T for k, v in pc.items())


def show_fact(k, v):
    if isinstance(v, frozenset):
        if len(v) > 6:
            vs = "..%d values" % len(v)
        else:
            vs = "|".join(sorted(map(str, v)))
    else:
        vs = str(v)
    return "%s=%s" % (show(k[1]) if len(k) > 1 else k, vs)


def show_key(k):
    if isinstance(k, tuple) and k and k[0] == "d":
        return k[1]
    if isinstance(k, tuple) and k and k[0] == "i":
        return "[%s]" % (k[1],)
    return str(k)


def show(v):
    if isinstance(v, frozenset):
        return "{%s}" % ", ".join(sorted(show(x) for x in v))
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    t = v[0]
    if not isinstance(t, str):
        return "(%s)" % ", ".join(show(x) for x in v)
    if t == "p" and len(v) == 3:
        return "%s.%s" % (show(v[1]), show_key(v[2]))
    if t == "s":
        return str(v[1])
    if t == "c":
        return repr(v[1])
    if t == "ov" and len(v) == 3:
        return "%s with {%s}" % (show(v[1]), ", ".join("%s: %s" % (show_key(k), show(x)) for k, x in v[2]))
    if t == "adt" and len(v) == 4:
        return "%s(%s)" % (v[2], ", ".join(show(x) for _, x in v[3]))
    if t == "rec" and len(v) == 3:
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if t == "rm":
        return "%s-#[%s]" % (show(v[1]), v[2])
    return "%s(%s)" % (t, ", ".join(show(x) for x in v[1:]))


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


SETTLED = 40


def compare(A, rep, what, rows, mk, spec, obs, concerns=None):
    """rows: [(ret, St)] of the implementation; spec(f) -> ret;
    obs(ret, st, pc) -> dict of compared components.
    concerns(disagreement): it is a violation of the property being checked;
    after SETTLED seconds one such disagreement ends the comparison (the
    verdict cannot change any more)."""
    t0, done = time.time(), 0
    n = leavesn = 0
    INTERP[:] = [A.I]
    bad = []
    for ret, st in rows:
        if st.cut:
            rep.count("cut_paths")
            continue
        if errs(st.pc):
            rep.count("error_paths")
            continue
        if A.I.deadline and time.time() > A.I.deadline + 60:
            rep.undecided(what, "time budget used up: %d of %d paths compared" % (n, len(rows)))
            break
        if concerns and time.time() > t0 + SETTLED:
            if any(concerns(b) for b in bad[done:]):
                rep.count("comparisons_ended_early")
                break
            done = len(bad)
        n += 1
        try:
            ls = leaves(mk, spec, st.pc)
        except Stop as e:
            rep.undecided(what, str(e))
            continue
        for r, f in ls:
            if infeasible(f.st.pc):
                continue
            leavesn += 1
            oi = obs(ret, st, f.st.pc)
            os_ = obs(r if r is not None else UNIT, f.st, f.st.pc)
            if oi.get("error") and os_.get("error"):
                continue
            d = diff(os_, oi)
            if d and any(e[0] == "EXT" for e in st.ev):
                rep.count("undecided_paths")
            elif d:
                bad.append((d, oi, os_, st, f))
    rep.count("paths", n)
    rep.count("obligations", leavesn)
    return bad


def infeasible(pc):
    """facts that contradict each other"""
    for k, v in pc.items():
        if k[0] == "b" and isinstance(k[1], tuple) and k[1] and k[1][0] == "MARKX" and v == T:
            if pc.get(("b", ("MARK",) + k[1][1:])) == Fl:
                return True
    return False
