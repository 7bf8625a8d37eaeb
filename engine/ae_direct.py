"""Direct checks of the parts of #[auto_enum] that are not tree rewriting:
entry points, the context and its children, the enum builder, the argument
parsers.  Each returns [(property ids, key, why, function)]."""
import itertools
from interp import *
import models as M
import ae as AEM
import ae_checks as C
import ae_specs as S
from decide import norm, show, show_fact

PATH, IDENT = "syn::Path", "proc_macro2::Ident"


# ------------------------------------------------------------------- anchors
def method(I, ty, name):
    c = [f for f in I.d["fns"] if f["local"] and f.get("body") and f.get("n") == name and C.short_self(f) == ty and not f.get("impl_trait")]
    if not c:
        raise Stop("anchor method `%s::%s` not found" % (ty, name))
    return c[0]["id"]


def adt_of(I, name):
    c = [a for a in I.adts if AEM.short(a) == name and a.startswith("auto_enum::")]
    if not c:
        raise Stop("anchor type `%s` not found" % name)
    return c[0]


def field_by_type(I, adt, pred, what):
    for n, t in ((f[0], f[1]) for f in I.adts[adt]["vs"][0]["f"]):
        if pred(I.ts(t)):
            return n
    raise Stop("no field of `%s` holds %s" % (adt, what))


def messages(t):
    """all error messages joined in an error term"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x[0] == "combine":
            todo += list(x[1:])
        elif x[0] == "adt" and x[2] in ("Some", "Ok", "Err"):
            todo.append(x[3][0][1])
        else:
            out.add(x)
    return out


# ------------------------------------------------------------------ entry points
def d_lib(I):
    out = []
    A = C.setup(I, {"attribute"})
    for name, mod in (("auto_enum", "auto_enum"), ("enum_derive", "enum_derive")):
        fs = [f for f in I.d["fns"] if f["local"] and f["p"] == name and f.get("body")]
        if not fs:
            raise Stop("entry point `%s` not found" % name)
        for ret, s in I.exec_fn(fs[0]["id"], [("s", "ARGS"), ("s", "INPUT")], A.state()):
            if s.cut or unk(s):
                continue
            want = [f["p"] for f in I.d["fns"] if f["local"] and f["p"].split("::")[-1] == "attribute" and f["p"].startswith(mod + "::")]
            if not (ret[0] == "ATTRIBUTE" and ret[1] in want and ret[2:] == (("s", "ARGS"), ("s", "INPUT"))):
                out.append(({"C25", "C22"}, "lib:%s" % name, "`#[%s]` does not pass its arguments and the annotated code on unchanged: %s" % (name, show(ret)[:200]), name))
    return out


def unk(s):
    return any(e[0] == "EXT" for e in s.ev)


def d_attribute(I):
    """auto_enum::attribute"""
    out = []
    A = C.setup(I, C.TOP | {"expand_parent_expr", "expand_parent_stmt", "root", "check"})
    fid = [f["id"] for f in I.d["fns"] if f["local"] and f.get("body") and f["p"] == "auto_enum::attribute"]
    if not fid:
        raise Stop("anchor function `auto_enum::attribute` not found")
    IN, AR = ("s", "INPUT"), ("s", "ARGS")
    root = ("rootcx", IN, AR)
    E0 = proj(root, "@E")

    def bad(ids, key, why):
        out.append((set(ids), "attribute:" + key, why, "auto_enum::attribute"))

    seen = set()
    for ret, s in I.exec_fn(fid[0], [AR, IN], A.state()):
        if s.cut or unk(s):
            continue
        g = lambda k: next(iter(s.pc.get(k, frozenset(["-"]))))
        mk = [k for k in s.pc if k[0] == "mkroot"]
        if not mk or mk[0][1:] != (IN, AR):
            bad(["C25", "C24"], "root", "the context is not created from the annotated tokens and the attribute's arguments")
            continue
        ok, st_, ex = g(mk[0]), g(("parse", STMT, IN)), g(("parse", EXPR, IN))
        seen.add((ok, st_, ex))
        if ok == "err":
            if ret != ("tok", (("v", ("compile_error", ("mkerr", IN, AR))),)):
                bad(["C21", "C29"], "args", "an error in the arguments does not become the output")
            continue
        if st_ == "-" and ex == "ok":
            bad(["C25"], "order", "the annotated code is not tried as a statement first")
            continue
        if st_ == "ok":
            what, tag = "statement", (("expand_parent_stmt", root), ("parsed", STMT, IN))
        elif ex == "ok":
            what, tag = "expression", (("expand_parent_expr", root, FALSE), ("parsed", EXPR, IN))
        else:
            what, tag = "other", None
        if tag is None:
            es = errsof(ret)
            if es is None or ("perr", STMT, IN) not in es and ("perr", EXPR, IN) not in es or len(es) < 2:
                bad(["C21", "C25"], "other", "code that is neither statement nor expression is not rejected with all errors: %s" % show(ret)[:200])
            continue
        E = ("errw", tag[0], tag[1], E0)
        has = s.pc.get(("b", ("HASERR", E)))
        if has is None:
            bad(["C21"], what + ":check", "the errors of expanding the %s are not checked" % what)
        elif has == frozenset([True]):
            if ret != ("tok", (("v", ("compile_error", ("errors", E))),)):
                bad(["C21"], what + ":errors", "errors found while expanding the %s are not what is emitted: %s" % (what, show(ret)[:300]))
        elif ret != ("tok", (("v", ("rec",) + tag),)):
            bad(["C22", "C25", "C21"], what + ":output", "the output is not the expanded %s: %s" % (what, show(ret)[:300]))
    return dedup(out)


def errsof(ret):
    """messages of a compile_error output"""
    if ret[0] != "tok" or len(ret[1]) != 1 or ret[1][0][0] != "v" or ret[1][0][1][0] != "compile_error":
        return None
    e = ret[1][0][1][1]
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x[0] == "errors":
            todo.append(x[1])
        elif x[0] == "err+":
            out.add(x[2])
            todo.append(x[1])
        elif x[0] == "combine":
            todo += x[1:]
        elif x[0] == "p" and x[2] == "@E":
            pass
        else:
            out.add(x)
    return out


def dedup(out):
    seen, r = set(), []
    for x in out:
        if x[1] not in seen:
            seen.add(x[1])
            r.append(x)
    return r


# ---------------------------------------------------------------------- contexts
class World:
    """contexts driven by the real functions, with arguments chosen here"""

    def __init__(self, I):
        self.I = I
        self.A = C.setup(I, set())
        self.args = adt_of(I, "Args")
        self.fargs = field_by_type(I, self.args, lambda t: "Path" in t, "the traits")
        self.fmark = field_by_type(I, self.args, lambda t: "Ident" in t, "the marker")
        self.names = {}
        I.hooks["call"] = [self.hook]
        self.st = St()
        self.pan = len(I.panics)

    def hook(self, I, st, F, args, fid, ln):
        if F["n"] in ("parse2", "parse", "parse_args") and F.get("a") and I.ts(F["a"][0]) == self.args:
            t = M.D(I, st, args[-1])
            nm = self.names.get(t)
            if nm is None:
                return None
            m = NONE if nm[0] is None else some(("ident", const(nm[0])))
            fs = tuple((f[0], ("s", "PATHS%s" % (t[1],)) if f[0] == self.fargs else m if f[0] == self.fmark else ("s", f[0]))
                       for f in I.adts[self.args]["vs"][0]["f"])
            return [(ok(("adt", self.args, I.adts[self.args]["vs"][0]["n"], fs)), st)]
        return None

    def run(self, ty, name, args):
        rs = self.I.exec_fn(method(self.I, ty, name), args, self.st)
        rs = [(r, s) for r, s in rs if not s.cut]
        if len(rs) != 1:
            raise Stop("`%s::%s` on known contexts has %d outcomes" % (ty, name, len(rs)))
        ret, self.st = rs[0]
        if unk(self.st):
            raise Stop("unmodelled call in `%s::%s`" % (ty, name))
        return ret

    def toks(self, i, marker):
        t = ("s", "ARGS%d" % i)
        self.names[t] = (marker,)
        return t

    def ref(self, i):
        return ("ref", ("G", "c%d" % i), ())

    def root(self, i, marker):
        r = self.run("Context", "root", [("s", "SPAN%d" % i), self.toks(i, marker)])
        return self.take(i, r)

    def take(self, i, r):
        if r[0] == "adt" and r[2] == "Ok":
            self.st.mem[("G", "c%d" % i)] = r[3][0][1]
            return True
        if r[0] == "adt" and r[2] == "Err":
            return False
        raise Stop("context constructor returned %s" % show(r)[:100])

    def child(self, p, i, marker):
        # `has_child` is set before a child is made (see the visitors)
        cx = self.st.mem[("G", "c%d" % p)]
        if any(f[0] == "has_child" for f in self.I.adts[cx[1]]["vs"][0]["f"]):
            self.I.store(self.st, ("G", "c%d" % p), ("has_child",), TRUE)
        return self.take(i, self.run("Context", "make_child", [self.ref(p), ("s", "SPAN%d" % i), self.toks(i, marker)]))

    def join(self, p, i):
        c = self.st.mem.pop(("G", "c%d" % i))
        self.run("Context", "join_child", [self.ref(p), c])

    def error(self, i, m):
        self.run("Context", "error", [self.ref(i), ("s", m)])

    def truth(self, r):
        if r[0] == "c":
            return r[1]
        rs = self.I.force_bool(self.st, r)
        if len(rs) != 1:
            raise Stop("undecided answer %s" % show(r)[:100])
        return rs[0][0]

    def has_error(self, i):
        return self.truth(self.run("Context", "has_error", [self.ref(i)]))

    def visible(self, i, name, exact=False):
        path = dict(C.concrete_path(*name.lstrip(":").split("::"))[3])
        path = ("adt", PATH, "Path", (("leading_colon", some(UNIT) if name.startswith("::") else NONE), ("segments", path["segments"])))
        self.st.mem[("G", "mac")] = ("adt", "syn::Macro", "Macro", (("path", path), ("bang_token", UNIT), ("delimiter", ("s", "DELIM")), ("tokens", ("s", "TOKS"))))
        # the delimiter and the tokens are any
        n = "is_marker_macro_exact" if exact else "is_marker_macro"
        got = set()
        for r, s in self.I.exec_fn(method(self.I, "Context", n), [self.ref(i), ("ref", ("G", "mac"), ())], self.st.fork()):
            if s.cut:
                continue
            if unk(s):
                raise Stop("unmodelled call in `Context::%s`" % n)
            got |= {b for b, _ in self.I.force_bool(s, r)}
        return got.pop() if len(got) == 1 else got

    def check(self, i):
        c = self.st.mem.pop(("G", "c%d" % i))
        r = self.run("Context", "check", [c])
        if r[0] == "adt" and r[2] == "Ok":
            return set()
        return messages(r)


NAMES = (None, "a", "b")
ASK = ("marker", "a", "b", "z")


class Model:
    def __init__(self):
        self.cx = {}

    def own(self, m):
        return m if m is not None else "marker"

    def visible(self, i, name):
        root, own, scope = self.cx[i]
        return name == own if root else name in scope


def scripts():
    """operations on a tree of contexts: m P C = make child C of P, j P C"""
    yield ()
    yield (("m", 0, 1), ("j", 0, 1))
    yield (("m", 0, 1), ("j", 0, 1), ("m", 0, 2), ("j", 0, 2))
    yield (("m", 0, 1), ("m", 0, 2), ("j", 0, 2), ("j", 0, 1))
    yield (("m", 0, 1), ("m", 1, 2), ("j", 1, 2), ("j", 0, 1), ("m", 0, 3), ("j", 0, 3))
    yield (("m", 0, 1), ("m", 0, 2), ("j", 0, 2), ("m", 0, 3), ("j", 0, 3), ("j", 0, 1))
    yield (("m", 0, 1), ("m", 0, 2), ("m", 0, 3), ("j", 0, 3), ("j", 0, 2), ("j", 0, 1))


def long_histories():
    """chains and sequences too long for every choice of names"""
    def chain(k):
        return tuple(("m", i, i + 1) for i in range(k)) + tuple(("j", i, i + 1) for i in reversed(range(k)))

    def siblings(k):
        return tuple(x for i in range(1, k + 1) for x in (("m", 0, i), ("j", 0, i)))

    def fan(k):
        return tuple(("m", 0, i) for i in range(1, k + 1)) + tuple(("j", 0, i) for i in reversed(range(1, k + 1)))
    abc = ("a", "b", "c", "d", "e", "f", "g")
    for k in (4, 6):
        base = [abc[:k + 1], (None,) * (k + 1), (None,) + abc[:k], abc[:k] + (None,), tuple(x if i % 2 else None for i, x in enumerate(abc[:k + 1]))]
        for i, j in itertools.combinations(range(k + 1), 2):
            base.append(tuple(abc[i] if x == j else abc[x] for x in range(k + 1)))
        for f in (chain, siblings, fan):
            for nm in base:
                yield f(k), nm


def own_words(I):
    """identifiers written as texts in the attribute macro's own code"""
    out = set()
    todo = [[g["body"]] + list(g.get("promoted") or []) for g in I.d["fns"] if g.get("local") and g.get("body")
            and not g["p"].startswith(("derive::", "<derive::", "enum_derive::", "<enum_derive::"))]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            s = x.get("s")
            if isinstance(s, str) and s.isidentifier() and len(s) < 20:
                out.add(s)
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return sorted(out - {"marker"} - set(keyword_list))


keyword_list = "impl fn let match if else for while loop return break dyn mut ref crate self super Self use mod type where unsafe async await move static const enum struct trait pub true false in as extern".split()


def d_markers(I, rep):
    out = []
    n = 0
    def all_():
        for nm in itertools.product((None, "marker", "mark", "Marker", "marker2"), repeat=2):
            yield (("m", 0, 1), ("j", 0, 1)), nm
        for nm in itertools.product((None, "marker", "mark"), repeat=3):
            yield (("m", 0, 1), ("m", 1, 2), ("j", 1, 2), ("j", 0, 1)), nm
        for x in own_words(I):
            for nm in ((None, x), (x, None), (x, x), (x, "a")):
                yield (("m", 0, 1), ("j", 0, 1)), nm
        for sc in scripts():
            for nm in itertools.product(NAMES, repeat=1 + len([1 for x in sc if x[0] == "m"])):
                yield sc, nm
        yield from long_histories()
    for sc, nm in all_():
        kids = [c for o, p, c in sc if o == "m"]
        if True:
            name = dict(zip([0] + kids, nm))
            n += 1
            r = drive(I, sc, name)
            if r:
                ids, key, why = r
                out.append((ids, key, "%s (names %s, history %s)" % (why, ", ".join("%d:%s" % (k, v or "default") for k, v in name.items()),
                                                                     " ".join("%s%d%d" % x for x in sc)), "Context"))
    rep.count("context_histories", n)
    return dedup(out)


def drive(I, sc, name):
    w, m = World(I), Model()
    if not w.root(0, name[0]):
        return {"C17", "C29"}, "markers:root", "a root context is rejected"
    m.cx[0] = (True, m.own(name[0]), (m.own(name[0]),))
    live, skip = [0], set()

    def ask():
        for i in live[-3:]:
            for q in ASK + tuple(sorted({x for x in name.values() if x} - set(ASK))):
                want = m.visible(i, q)
                if w.visible(i, q) != want:
                    return ({"C17", "C18"} if want is False or q != m.cx[i][1] else {"C17"}), "markers:visible", \
                        "`%s!` is %s as a marker in context %d" % (q, "missed" if want else "taken", i)
                if w.visible(i, q, True) != (q == m.cx[i][1]):
                    return {"C17", "C18"}, "markers:own", "`%s!` is%s taken for the own marker of context %d" % (q, "" if q != m.cx[i][1] else " not", i)
            if len(sc) < 5 and i == live[-1]:
                for q in ("x::%s", "%s::x", "::%s"):
                    if w.visible(i, q % m.cx[i][1]) is not False or w.visible(i, q % m.cx[i][1], True) is not False:
                        return {"C17"}, "markers:path", "`%s!` is taken for a marker in context %d" % (q % m.cx[i][1], i)
        return None
    r = ask()
    if r:
        return r
    for o, p, c in sc:
        if p in skip or c in skip:
            skip.add(c)
            continue
        if o == "m":
            got = w.child(p, c, name[c])
            root, own, scope = m.cx[p]
            dup = name[c] is not None and name[c] in scope
            if dup and got:
                return {"C17"}, "markers:reuse", "the custom marker name `%s` of an enclosing auto_enum is accepted again" % name[c]
            if not dup and not got:
                return {"C17"}, "markers:reject", "marker name `%s` is rejected although no enclosing auto_enum uses it" % (name[c] or "default")
            if dup:
                skip.add(c)
                continue
            m.cx[c] = (False, m.own(name[c]), scope + (m.own(name[c]),))
            m.cx[p] = (root, own, scope + (m.own(name[c]),))
            live.append(c)
        else:
            w.join(p, c)
            live.remove(c)
            root, own, scope = m.cx[p]
            m.cx[p] = (root, own, scope[:-1])
        r = ask()
        if r:
            return r
    return None


def d_fresh(I):
    """initial state of contexts"""
    out = []
    w = World(I)
    w.root(0, None)
    w.child(0, 1, "a")
    for i in (0, 1):
        cx = w.st.mem[("G", "c%d" % i)]
        g = lambda *p: S.sub(cx, *p)
        for f, want, ids in (("has_child", (FALSE,) if i else (FALSE, TRUE), {"C20"}), ("args", (("s", "PATHSARGS%d" % i),), {"C16", "C29"}),
                             ("traits", (("seq", ()),), {"C23", "C16"})):
            if not any(x[0] == f for x in I.adts[cx[1]]["vs"][0]["f"]):
                continue
            if g(f) not in want:
                out.append((ids, "fresh:" + f, "a new context starts with `%s` = %s" % (f, show(g(f))[:80]), "Context::new"))
        for f in ("visit_mode", "visit_last_mode"):
            v = g(f)
            if v[0] == "adt" and v[2] != "Default":
                out.append(({"C25"}, "fresh:" + f, "a new context starts in mode %s" % v[2], "Context::new"))
        b = g("builder")
        if b[0] == "adt":
            vs = [v for k, v in b[3] if v[0] == "seq"]
            if not vs or vs[0] != ("seq", ()):
                out.append(({"C16"}, "fresh:variants", "a new context starts with variants", "Builder::new"))
            ids = [v for k, v in b[3] if v[0] == "ident"]
            sy = symbols(ids[0]) if ids else None
            if sy is None:
                out.append(({"C24", "C16"}, "fresh:ident", "the enum's name is not an identifier built from text", "Builder::new"))
            elif sy != {"SPAN%d" % i}:
                out.append(({"C24"}, "fresh:ident", "the enum's name depends on %s, not exactly on the annotated tokens" % sorted(sy), "Builder::new"))
    return out


def symbols(t):
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "s" and isinstance(x[1], str):
                out.add(x[1])
            elif isinstance(x, tuple) and x and x[0] in ("call", "h", "unk"):
                out.add("the result of `%s`" % (x[1],))
            else:
                todo += list(x)
    return out


def d_errors(I, rep):
    """every message recorded in a context or its children is reported"""
    out = []

    def bad(key, why):
        out.append(({"C21"}, "errors:" + key, why, "Context"))
    k = 0
    # shapes: contexts made first, then messages (in any context that is still
    # live) and joins in the given order
    shapes = [((), (0,)), (((0, 1),), (0, 1, "j", 0)), (((0, 1), (1, 2)), (0, 1, 2, "j", 1, "j", 0)), (((0, 1), (1, 2), (2, 3)), (0, 2, 3, "j", 2, "j", 1, "j", 0))]
    for made, steps in shapes:
        slots = [i for i, x in enumerate(steps) if x != "j"]
        for cnt in itertools.product((0, 1, 2) if len(slots) < 4 else (0, 1), repeat=len(slots)):
            k += 1
            w = World(I)
            w.root(0, None)
            parent = {}
            for p, c in made:
                w.child(p, c, None)
                parent[c] = p
            live = [0] + [c for _, c in made]
            rec = {i: [] for i in live}
            n = dict(zip(slots, cnt))
            for i, x in enumerate(steps):
                if x == "j":
                    c = live.pop()
                    w.join(parent[c], c)
                    rec[parent[c]] += rec.pop(c)
                else:
                    for j in range(n[i]):
                        w.error(x, "M%d%d" % (i, j))
                        rec[x].append(("s", "M%d%d" % (i, j)))
                for c in live:
                    if w.has_error(c) != bool(rec[c]):
                        bad("joined" if x == "j" else "has_error", "%shas_error() is %s for a context with %d errors" % (
                            "after joining, " if x == "j" else "", not bool(rec[c]), len(rec[c])))
            got = w.check(0)
            if got != set(rec[0]):
                bad("check", "of the errors %s only %s are reported" % (sorted(x[1] for x in rec[0]), sorted(show(x) for x in got)))
    rep.count("error_histories", k)
    return dedup(out)


# ----------------------------------------------------------------------- builder
def d_total(I):
    """too few branches: what is reported"""
    out = []
    mode = adt_of(I, "VisitLastMode")
    w = World(I)
    for child, n, v in itertools.product((False, True), (0, 1), I.variants(mode)):
        w = World(I)
        w.root(0, None)
        cx = w.st.mem[("G", "c0")]
        at = ("G", "c0")
        for f in I.adts[cx[1]]["vs"][0]["f"]:
            t = I.ts(f[1])
            if f[0] == "has_child":
                I.store(w.st, at, (f[0],), b2(child))
            elif t == mode:
                I.store(w.st, at, (f[0],), ("adt", mode, v, ()))
            elif AEM.short(t) == "Builder":
                bt = adt_of(I, "Builder")
                fv = field_by_type(I, bt, lambda t: "Vec" in t, "the variants")
                I.store(w.st, at, (f[0], fv), ("seq", tuple(("ident", const("V%d" % i)) for i in range(n))))
        w.run("Context", "build", [w.ref(0), ("s", "F")])
        got = w.check(0)
        if child and n == 0:
            if got:
                out.append(({"C20"}, "total:child", "code with only nested #[auto_enum] is rejected", "Context::build"))
            continue
        what = ("with a nested #[auto_enum], " if child else "") + "%d wraps" % n
        if len(got) != 1:
            out.append(({"C20", "C21"}, "total:%d" % n, "%s: %d errors are reported" % (what, len(got)), "Context::build"))
            continue
        t = known_text(next(iter(got)))
        if t is None:
            raise Stop("the message for %d wraps is not known" % n)
        import re
        says = lambda rx: re.search(rx, re.sub(r"(one|1|two|2) or more|at least (two|one)", "", t), re.I) is not None
        none, one = says(r"\b(no|none|zero|0|without|not)\b"), says(r"\b(one|single|1)\b")
        if none and not one and n == 1 or one and not none and n == 0:
            out.append(({"C20"}, "total:message", "%s are reported as `%s`" % (what, t[:120]), "Context::build"))
    return dedup(out)


def known_text(m):
    """the literal text of an error message"""
    best = None
    todo = [m]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple):
            continue
        if len(x) == 2 and x[0] == "c" and isinstance(x[1], str):
            best = (best or "") + " " + x[1]
            continue
        if x[:1] == ("fmtstr",):
            best = (best or "") + " " + "".join(str(y[1]) if isinstance(y, tuple) and y[0] == "c" else y if isinstance(y, str) else "?" for y in x[1])
            continue
        todo += [y for y in x if isinstance(y, tuple)]
    return best


def d_builder(I):
    out = []
    C.setup(I, set())
    I.hooks["call"] = []
    bt = adt_of(I, "Builder")
    fid = method(I, "Builder", "next_expr")
    fi = field_by_type(I, bt, lambda t: AEM.short(t) == "Ident", "the name")
    fv = field_by_type(I, bt, lambda t: "Vec" in t, "the variants")

    def bld(vs):
        return ("adt", bt, I.adts[bt]["vs"][0]["n"], tuple((f[0], ("ident", const("E")) if f[0] == fi else vs if f[0] == fv else ("s", f[0]))
                                                          for f in I.adts[bt]["vs"][0]["f"]))

    def nxt(st, i):
        rs = [r for r in I.exec_fn(fid, [("ref", ("G", "b"), ()), ("s", "AT%d" % i), ("s", "X%d" % i)], st) if not r[1].cut]
        if len(rs) != 1 or unk(rs[0][1]):
            raise Stop("`Builder::next_expr` has %d outcomes" % len(rs))
        return rs[0]

    # symbolic: any number of variants so far
    st = St()
    st.mem[("G", "b")] = ("s", "B")
    ret, s = nxt(st, 0)
    vs = proj(s.mem[("G", "b")], fv)
    old = proj(("s", "B"), fv)
    name = None
    if vs[0] == "push" and vs[1] == old:
        name = vs[2]
    else:
        out.append(({"C16"}, "builder:push", "a wrap does not add exactly one variant to the enum: %s" % show(vs)[:160], "Builder::next_expr"))
    call = callof(ret)
    if call is None:
        out.append(({"C16"}, "builder:call", "a wrap is not a call of a constructor with the expression: %s" % show(ret)[:160], "Builder::next_expr"))
    else:
        attrs, path, args = call
        if attrs != ("s", "AT0"):
            out.append(({"C22"}, "builder:attrs", "the attributes given to a wrap are not put on it", "Builder::next_expr"))
        if args != (("s", "X0"),):
            out.append(({"C16", "C22"}, "builder:arg", "a wrap does not hold exactly the wrapped expression", "Builder::next_expr"))
        if name is not None and path != [proj(("s", "B"), fi), name]:
            out.append(({"C16"}, "builder:path", "a wrap does not name its own enum and variant: %s" % show(("t",) + tuple(path))[:160], "Builder::next_expr"))
    # concrete: the names handed out are distinct
    st = St()
    st.mem[("G", "b")] = bld(("seq", ()))
    names = []
    for i in range(24):
        ret, st = nxt(st, i)
        v = proj(st.mem[("G", "b")], fv)
        names.append(v[1][-1] if v[0] == "seq" and v[1] else None)
    # ... and at the sizes the code itself speaks about
    lits = own_ints(I)
    sizes = sorted({24 + i for i in range(12)} | {2 ** e + d for e in range(5, 10) for d in (-1, 0, 1)} | {x + d for x in lits if 24 <= x <= 2000 for d in (-1, 0, 1, 2)})
    if {f[0] for f in I.adts[bt]["vs"][0]["f"]} != {fi, fv}:  # more state than the variants: one by one
        for i in range(24, min(160, sizes[-1])):
            ret, st = nxt(st, i)
            v = proj(st.mem[("G", "b")], fv)
            names.append(v[1][-1] if v[0] == "seq" and v[1] else None)
        sizes = []
    for k in sizes:
        st = St()
        st.mem[("G", "b")] = bld(("seq", tuple(("ident", const("W%d" % i)) for i in range(k))))
        v = proj(nxt(st, 0)[1].mem[("G", "b")], fv)
        names.append(v[1][-1] if v[0] == "seq" and len(v[1]) == k + 1 else None)
    if None not in names:
        dup = [i for i, x in enumerate(names) if x in names[:i]]
        if dup:
            out.append(({"C16"}, "builder:fresh", "wrap %d reuses the variant of an earlier wrap" % (dup[0] + 1), "Builder::next_expr"))
    if name is not None and not injective(name, ("len", old)):
        if not any(x[1] == "builder:fresh" for x in out):
            raise Stop("variant name %s: not decided to be fresh for every count" % show(name)[:160])
    # the enum
    fb = method(I, "Builder", "build")
    long_ = sorted({5, 9, 17} | {x + d for x in lits if 2 < x <= 60 for d in (0, 1)})
    for n, na, nt in list(itertools.product((0, 1, 2, 3), (0, 1, 2), (0, 2))) + [c for k in long_ for c in ((k, 1, 0), (2, k, 0), (2, 0, k), (2, k, k))]:
        if na + nt == 0:
            continue
        st = St()
        V = tuple(("ident", const("V%d" % i)) for i in range(n))
        st.mem[("G", "b")] = bld(("seq", V))
        a, t = tuple(("s", "A%d" % i) for i in range(na)), tuple(("s", "T%d" % i) for i in range(nt))
        st.mem[("G", "a")], st.mem[("G", "t")] = ("seq", a), ("seq", t)
        for ret, s in I.exec_fn(fb, [("ref", ("G", x), ()) for x in "bat"], st):
            if s.cut or unk(s):
                continue
            why = enum_ok(ret, ["V%d" % i for i in range(n)], list(a + t))
            if why:
                out.append(({"C16"}, "builder:enum", "with %d wraps and %d+%d traits, %s" % (n, na, nt, why), "Builder::build"))
    return dedup(out)


def callof(e):
    if e[0] != "adt" or e[2] != "Call":
        return None
    c = dict(e[3][0][1][3])
    fn = c["func"]
    if fn[0] != "adt" or fn[2] != "Path":
        return None
    p = dict(fn[3][0][1][3])
    if p.get("qself") != NONE:
        return None
    segs = proj(p["path"], "segments")
    if segs[0] != "seq" or c["args"][0] != "seq":
        return None
    return c["attrs"], [proj(x, "ident") for x in segs[1]], c["args"][1]


def injective(name, n):
    """a name made of constant text and one injective function of n"""
    if name[0] == "ident":
        name = name[1]
    if name[0] != "fmtstr":
        return False
    parts = [x for x in name[1] if isinstance(x, tuple) and x[0] != "c"]
    ok_ = lambda x: x == n or x[0] == "bin" and x[1] in ("Add", "Sub") and (x[2] == n and x[3][0] == "c" or x[3] == n and x[2][0] == "c")
    return len(parts) == 1 and (ok_(parts[0]) or parts[0][0] == "tostr" and ok_(parts[0][1]))


def enum_ok(ret, vs, derives):
    if ret[0] != "parsed" or ret[2][0] != "tok":
        return "the enum is not built from tokens"
    t = list(ret[2][1])
    derived = None
    while t and t[0] == ("o", "#"):
        g = t[1][2]
        i = 0
        path = []
        while i < len(g) and (g[i] == ("o", "::") or g[i][0] == "i"):
            path.append(g[i][1])
            i += 1
        if path in (["::", "auto_enums", "::", "enum_derive"],):
            if derived is not None:
                return "it has two derive lists"
            derived = [x[1] for x in g[i][2] if x != ("o", ",")]
        elif path != ["allow"]:
            return "it carries the attribute `%s`" % "".join(path)
        t = t[2:]
    if derived != derives:
        return "the derived traits are %s instead of %s" % ([show(x) for x in derived or ()], [show(x) for x in derives])
    if t[:2] != [("i", "enum"), ("i", "E")]:
        return "the enum is not named as the wraps name it"
    t = t[2:]
    if t and t[0] == ("o", "<"):
        j = t.index(("o", ">"))
        gen = [x[1] for x in t[1:j] if x != ("o", ",")]
        t = t[j + 1:]
    else:
        gen = []
    if len(t) != 1 or t[0][0] != "g" or t[0][1] != "{":
        return "the enum has no plain body"
    body = [x for x in t[0][2] if x != ("o", ",")]
    got = []
    while body:
        if len(body) < 2 or body[0][0] != "i" or body[1][0] != "g" or body[1][1] != "(":
            return "a variant has no payload"
        pay = [x for x in body[1][2] if x != ("o", ",")]
        if len(pay) != 1 or pay[0][0] != "i":
            return "a variant's payload is not one type parameter"
        got.append((body[0][1], pay[0][1]))
        body = body[2:]
    if [v for v, _ in got] != vs:
        return "the declared variants are %s" % [v for v, _ in got]
    pays = [p for _, p in got]
    if len(set(pays)) != len(pays) or sorted(pays) != sorted(gen):
        return "the payload types %s are not the type parameters %s, one each" % (pays, gen)
    return None


# --------------------------------------------------------------- argument parsers
COMMA, EQ = "syn::token::Comma", "syn::token::Eq"


def d_args(I, rep):
    out = []
    C.setup(I, set())
    I.hooks["call"] = []
    fs = [f for f in I.d["fns"] if f["local"] and f.get("body") and f.get("n") == "parse" and C.short_self(f) == "Args"]
    for f in fs:
        auto = f["p"].startswith("<auto_enum::") or f["impl_self"].startswith("auto_enum::")
        st = St()
        st.mem[("G", "in")] = ("s", "IN")
        adt = f["impl_self"]
        for ret, s in I.exec_fn(f["id"], [("ref", ("G", "in"), ())], st):
            if s.cut or unk(s):
                rep.count("cut_paths")
                continue
            rep.count("paths")
            if any(v == frozenset() for v in s.pc.values()):
                continue
            why = args_row(I, ret, s, auto, adt)
            if why:
                out.append(({"C29"} | ({"C06"} if False else set()), "args:%s:%s" % (adt, why[0]), "%s; for %s" % (why[1], "; ".join(
                    "%s@%s=%s" % (k[0][3:], k[1], "|".join(map(str, sorted(v)))) for k, v in s.pc.items() if k[0].startswith("pb_"))), f["p"]))
        out += args_lists(I, rep, f, auto, adt)
    if not fs:
        raise Stop("no argument parser found")
    return dedup(out)


LONG = ("Iterator", "fmt::Debug", "a::b::C", "Clone", "Iterator", "rayon::X", "marker", "marker::Y", "::std::z", "Copy")


def own_ints(I):
    """the integer literals of the attribute macro's own code"""
    import derive_checks as D
    lits = set()
    for g in I.d["fns"]:
        if g.get("local") and not g["p"].startswith(("derive::", "<derive::")):
            for b in [g["body"]] + list(g.get("promoted") or []):
                D.walk_ints(I, b, lits)
    return lits


def args_lists(I, rep, f, auto, adt):
    """long lists, spelled out: every name is kept, in order"""
    import derive_side as DS
    out = []
    lits = own_ints(I)
    sizes = sorted({0, 1, 2, 3, 4, 6, 9, 12, 17} | {y for x in lits if 3 <= x <= 60 for y in (x, x + 1)})
    for n in sizes:
        for at in ((None,) if not auto else (None, 0, n // 2, n)):
            for trailing in (False, True):
                for two in ((False,) if at is None else (False, True)):
                    args_list(I, rep, f, auto, adt, n, at, trailing, two, out, DS)
    return out


def args_list(I, rep, f, auto, adt, n, at, trailing, two, out, DS):
    names = [LONG[(i * 7 + i // 10) % 10] for i in range(n)]
    groups = [[DS.path_token(x) for x in [y]] for y in names]
    for x in groups:
        if "marker" in x[0] or dict(x[0]["Path"][3])["segments"][1][0][3][0][1] == ("ident", const("marker")):
            x[0]["marker"] = ("s", "kwmarker")
    M_ = DS.path_token("marker")
    M_["marker"] = ("s", "kwmarker")
    mk = lambda v: [M_, {"Eq": ("s", "eq")}, DS.path_token(v)]
    if at is not None:
        groups.insert(at, mk("m1"))
        if two:
            groups.append(mk("m1"))
    toks = []
    for i, g in enumerate(groups):
        toks += ([DS.COMMA] if i else []) + g
    if trailing and groups:
        toks.append(DS.COMMA)
    st = St()
    I.streams = {("s", "ARGLIST"): toks}
    st.mem[("G", "in")] = ("pb", ("s", "ARGLIST"))
    want = [DS.path_value(x) for x in names]
    what = "a list of %d paths%s%s%s" % (n, "" if at is None else ", with `marker = m1` at place %d" % at, " and again at the end" if two else "",
                                         ", with a trailing comma" if trailing else "")
    try:
        res = I.exec_fn(f["id"], [("ref", ("G", "in"), ())], st)
    finally:
        I.streams = {}
    for ret, s in res:
        if s.cut or unk(s):
            rep.count("cut_paths")
            continue
        rep.count("lists")
        isok = ret[0] == "adt" and ret[2] == "Ok"
        why = None
        if two:
            if isok:
                why = ("second marker", "%s is accepted" % what)
        elif not isok:
            why = ("rejected", "%s is rejected" % what)
        else:
            got = dict(ret[3][0][1][3])
            pl = got[field_by_type(I, adt, lambda t: "Path" in t, "the traits")]
            xs = None if pl[0] != "seq" else [x if auto else next((w for w in DS_paths(x)), x) for x in pl[1]]
            sp = None if auto or pl[0] != "seq" else [spelling(I, s, x) for x in pl[1]]
            if sp is not None and xs == want and any(y is not None and y != x for x, y in zip(names, sp)):
                i = [x != y for x, y in zip(names, sp)].index(True)
                why = ("spelling", "of %s, `%s` is known as `%s`" % (what, names[i], sp[i]))
            if xs != want:
                why = ("paths", "of %s, %s are kept" % (what, "other paths" if xs is None else "%d paths%s" % (len(xs), "" if len(xs) != n else ", not the given ones in order")))
            elif auto and got[field_by_type(I, adt, lambda t: "Ident" in t, "the marker")] != (NONE if at is None else some(("ident", const("m1")))):
                why = ("marker", "the marker name of %s is not kept" % what)
        if why:
            out.append(({"C29"}, "args:%s:%s" % (adt, why[0]), why[1], f["p"]))


def spelling(I, st, v):
    """the text kept with a path, where it is known"""
    fs = v[1] if v[0] == "tup" else [x for _, x in v[3]] if v[0] == "adt" else []
    for x in fs:
        x = M.D(I, st, x)
        if x[0] == "c" and isinstance(x[1], str):
            return x[1]
    return None


def DS_paths(v):
    if isinstance(v, tuple):
        if v[:2] == ("adt", PATH):
            yield v
        else:
            for x in v:
                yield from DS_paths(x)


def is_marker_kw(t):
    return t.endswith("::marker")


def args_row(I, ret, s, auto, adt):
    """a path of the parser against the grammar

      args := (arg (',' arg)*)? ','?      arg := `marker` '=' ident | path
    """
    pc = s.pc
    one = lambda v: next(iter(v)) if len(v) == 1 else None
    empty = {k[1]: one(v) for k, v in pc.items() if k[0] == "pb_empty"}
    parse = {(k[1], k[2]): one(v) for k, v in pc.items() if k[0] == "pb_parse"}
    peek = {(k[1], k[2]): one(v) for k, v in pc.items() if k[0] == "pb_peek"}
    i = 0
    paths, marker = [], None

    def lookahead(i):
        a = [v for (j, t), v in peek.items() if j == i and is_marker_kw(t)]
        b = [v for (j, t), v in peek.items() if j == i + 1 and t == EQ]
        if False in a or False in b:
            return False
        if True in a and True in b:
            return True
        return None

    def end_ok():
        if ret[0] != "adt" or ret[2] != "Ok":
            return ("rejected", "a well-formed list is rejected (%s)" % show(ret)[:100])
        a = ret[3][0][1]
        if a[0] != "adt":
            return ("value", "the parsed arguments are %s" % show(a)[:100])
        got = dict(a[3])
        fa = field_by_type(I, adt, lambda t: "Path" in t, "the traits")
        pl = got[fa]
        if pl != ("seq", tuple(paths)):
            gl = elems(pl)
            if auto or gl != paths:
                return ("paths", "the trait paths kept are %s instead of %s" % (show(pl)[:160], [show(x) for x in paths]))
        if auto:
            fm = field_by_type(I, adt, lambda t: "Ident" in t, "the marker")
            m = got[fm]
            if m != (NONE if marker is None else some(marker)):
                return ("marker", "the marker name kept is %s" % show(m)[:100])
        return None

    def rejected(what):
        if ret[0] == "adt" and ret[2] == "Err":
            return None
        return (what, "an ill-formed list is accepted (%s)" % what)

    for _ in range(40):
        # at position i an argument or the end may start
        e = empty.get(i)
        if e is True:
            return end_ok()
        if e is None:
            # the code did not ask: an argument must follow, or the end
            if not any(k[0] == i for k in parse) and ret[2:3] == ("Ok",):
                return ("trailing", "tokens after position %d are not looked at" % i)
        mk = lookahead(i) if auto else False
        if mk is None:
            return ("lookahead", "`marker =` is not told apart from a path at position %d" % i)
        if mk:
            kw = [v for (j, t), v in parse.items() if j == i and is_marker_kw(t)]
            seq_ok = all(v != "err" for v in kw) and parse.get((i + 1, EQ)) != "err"
            if not seq_ok:
                return None       # contradicts the lookahead
            idn = [(t, v) for (j, t), v in parse.items() if j == i + 2]
            if not idn:
                return ("marker-value", "`marker =` is not followed by a name")
            t, v = idn[0]
            if AEM.short(t) != "Ident":
                return ("marker-value", "the marker name is parsed as %s" % t)
            if v == "err":
                return rejected("bad marker name")
            if marker is not None:
                return rejected("second marker")
            marker = ("ptok", t, i + 2)
            i += 3
        else:
            got = [(t, v) for (j, t), v in parse.items() if j == i]
            if not got:
                return ("path", "nothing is parsed at position %d" % i)
            t, v = got[0]
            if t != PATH:
                return ("path", "an argument is parsed as %s" % t)
            if v == "err":
                return rejected("not a path")
            paths.append(("ptok", PATH, i))
            i += 1
        e = empty.get(i)
        if e is True:
            return end_ok()
        c = parse.get((i, COMMA))
        if c is None:
            return ("comma", "after an argument neither the end nor a comma is required")
        if c == "err":
            if e is None:
                # end of input and a missing comma look the same here
                return ("end", "the end of the list is not recognised")
            return rejected("missing comma")
        i += 1
    return None


def elems(pl):
    if pl[0] != "seq":
        return None
    out = []
    for x in pl[1]:
        while x[0] == "tup" or x[0] == "adt":
            y = x[1] if x[0] == "tup" else [v for _, v in x[3]]
            z = [v for v in y if occurs_ptok(v)]
            if not z:
                return None
            p = [v for v in z if v[0] == "ptok"]
            x = p[0] if p else z[0]
        out.append(x)
    return out


def occurs_ptok(v):
    return isinstance(v, tuple) and (v[:1] == ("ptok",) or any(occurs_ptok(x) for x in v))
