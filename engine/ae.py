"""#[auto_enum] side: roles, cuts and effects for the abstract interpreter.

The expansion is a set of mutually recursive functions over syntax trees of
any shape, so each of them is analysed once, for an arbitrary node and an
arbitrary context, and calls between them are *cut*: a cut leaves a term that
records exactly what was called with which state, and is justified by the
analysis of the callee (induction over the syntax tree).
"""
import collections
import re
import shape
from interp import *
import models as M

CXT = "auto_enum::context::Context"
VM = "syn::visit_mut::VisitMut"
ATTRS = "utils::Attrs"
PURE = ("FindNested", "FnVisitor")
META = "syn::Meta"
NEEDS = {"Context": ("builder", "current_marker", "has_child", "visit_mode", "visit_last_mode", "args", "traits"), "Builder": ("variants",),
         "Visitor": ("cx", "scope"), "Scope": ("closure", "try_block", "foreign"), "Dummy": ("cx",), "LoopVisitor": ("cx", "label", "nested"),
         "FindNested": ("has",), "FnVisitor": ("cx", "scope", "count"), "FnCount": ("try_", "return_"), "CollectImplTrait": ("args", "traits", "has_impl_trait")}
TYPES = {("Context", "current_marker"): "String", ("Context", "has_child"): "bool", ("Context", "args"): "[Path]", ("Context", "traits"): "[Path]",
         ("LoopVisitor", "label"): "Option<&Label>", ("LoopVisitor", "nested"): "bool", ("CollectImplTrait", "args"): "&[Path]",
         ("CollectImplTrait", "traits"): "&mut [Path]", ("CollectImplTrait", "has_impl_trait"): "bool", ("Scope", "closure"): "bool",
         ("Scope", "try_block"): "bool", ("Scope", "foreign"): "bool", ("FindNested", "has"): "bool", ("FnCount", "try_"): "int",
         ("FnCount", "return_"): "int"}


def short(t):
    return t.split("<")[0].split("::")[-1]


def snake(x):
    return "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(x))


def type_text(t):
    t = re.sub(r"\bVec<(\w+)>", r"[\1]", shape.tail(t))
    return re.sub(r"^[ui](\d+|size)$", "int", t)


def attr_base(A, lit):
    """attributes list with the removals of other names forgotten"""
    while A[0] == "rm" and A[2] != lit:
        A = A[1]
    if A[0] in ("adt", "tup"):
        return A
    return A


class AE:
    def __init__(self, I):
        self.I = I
        I.hooks["call"] = [self.hook]
        self.cut_fns = set()      # local functions (by last path segment) to cut
        self.leaf = False
        self.inline_visit = ()    # visitor override ids analysed right now
        self.overrides = {}
        self.analysis = "type_analysis" in I.d["features"]
        for f in I.d["fns"]:
            if f.get("impl_trait") == VM and f["local"] and "closure" not in f["p"]:
                self.overrides.setdefault(short(f["impl_self"]), {})[f["n"]] = f["id"]

    # -------------------------------------------------------------- anchors
    def require(self, cuts, roles=()):
        """the names the analysis is anchored to must exist"""
        I = self.I
        have = collections.defaultdict(set)
        for f in I.d["fns"]:
            if f["local"] and f.get("body") and f.get("n"):
                have[f["n"]].add(short(f.get("impl_self") or ""))
        for c in cuts:
            own, n = {"build_enum": ("Builder", "build"), "next_expr": ("Builder", "next_expr")}.get(c, ("Context" if hasattr(self, "cx_" + c) else "", c))
            if n == "collect_impl_trait" and not self.analysis:
                continue
            if own not in have.get(n, ()):
                raise Stop("anchor function `%s%s` not found" % (own + "::" if own else "", n))
        for t in ("any_attr", "any_empty_attr", "find_remove_attr"):
            if t not in have:
                raise Stop("anchor function `%s` not found" % t)
        for role in ("Context", "Builder") + tuple(roles):
            a = [x for x in I.adts if short(x) == role and x.startswith("auto_enum")]
            if not a:
                raise Stop("anchor type `%s` not found" % role)
            fs = {f[0] for f in I.adts[a[0]]["vs"][0]["f"]}
            for n in NEEDS.get(role, ()):
                if n not in fs:
                    raise Stop("anchor field `%s::%s` not found" % (role, n))
                got = [f[2] for f in I.adts[a[0]]["vs"][0]["f"] if f[0] == n and len(f) > 2][:1]
                if got and TYPES.get((role, n), type_text(got[0])) != type_text(got[0]):
                    raise Stop("anchor field `%s::%s` has another type: %s" % (role, n, got[0]))
        for e, vs in (("VisitMode", ("Default", "Return", "Try")), ("VisitLastMode", ("Default", "Never"))):
            a = [x for x in I.adts if short(x) == e and x.startswith("auto_enum")]
            if not a or {v["n"] for v in I.adts[a[0]]["vs"]} != set(vs):
                raise Stop("anchor type `%s` not found" % e)

    def fn(self, name, sub=None):
        """local function by last path segment (and type argument text)"""
        I = self.I
        c = [f for f in I.d["fns"] if f["local"] and f.get("body") and f["p"].split("::")[-1] == name]
        if sub is not None:
            c = [f for f in c if sub in f["p"] or any(sub in I.ts(a) for a in f.get("a", []))]
        if not c:
            raise Stop("anchor function `%s` not found" % name)
        return c[0]["id"]

    # --------------------------------------------------------------- states
    def struct(self, st, adt, name, **known):
        """a symbolic struct; references to the context point at ('G','cx')"""
        a = self.I.adts[adt]
        fs = []
        for f in a["vs"][0]["f"]:
            n, t = f[0], self.I.ty(f[1]) if len(f) > 1 and isinstance(f[1], int) else None
            if n in known:
                v = known[n]
            elif n == "cx":
                v = ("ref", ("G", "cx"), ())
            else:
                v = ("p", ("s", name), n)
            fs.append((n, v))
        return ("adt", adt, a["vs"][0]["n"], tuple(fs))

    def state(self, **roots):
        st = St()
        st.mem[("G", "cx")] = ("s", "CX")
        for k, v in roots.items():
            st.mem[("G", k)] = v
        return st

    # ---------------------------------------------------------------- facts
    def cxroot(self, st, a):
        r, p = M.lastplace(self.I, st, a) if a[0] == "ref" else self.I.deref(st, a)
        return r, p

    def err_term(self, st, r, p):
        return proj(self.I.load(st, r, p), "@E")

    def set_field(self, st, r, p, k, v):
        self.I.store(st, r, p + (k,), v)

    def haserr(self, st, E):
        """fork on: does the context with error term E hold an error"""
        if E[0] == "err+":
            return [(True, st)]
        if E[0] == "errj":
            if any(x[0] == "err+" or st.pc.get(("b", ("HASERR", x))) == frozenset([True]) for x in E[1:]):
                return [(True, st)]
        if E[0] == "errw":
            # errors only accumulate
            if st.pc.get(("b", ("HASERR", E[3]))) == frozenset([True]) or E[3][0] == "err+":
                return [(True, st)]
        return self.I.fork_bool(st, ("b", ("HASERR", E)))

    # ---------------------------------------------------------------- hooks
    def hook(self, I, st, F, args, fid, ln):
        tr, n, p = F.get("tr"), F["n"], F["p"]
        if tr and tr.endswith("Attrs") and "l" in F and n in ("any_attr", "any_empty_attr", "find_remove_attr"):
            return self.attrs_call(st, F, args, n)
        if tr == VM or p.startswith("syn::visit_mut::visit_"):
            return self.visit(st, F, args, n)
        if "l" in F:
            f = I.fns[F["l"]]
            last = f["p"].split("::")[-1]
            own = f.get("impl_self", "")
            if own == CXT or ("Context" == short(own or "?")):
                h = getattr(self, "cx_" + last, None)
                if h and last in self.cut_fns:
                    return h(st, F, args)
            if short(own or "?") == "Builder" and last == "build" and "build_enum" in self.cut_fns:
                return self.cx_build_enum(st, F, args)
            if short(own or "?") == "Builder" and last == "next_expr" and "next_expr" in self.cut_fns:
                return self.wrap(st, args)
            if last in self.cut_fns and not own:
                h = getattr(self, "cut_" + last, None)
                if h:
                    return h(st, F, args)
        return None

    # attributes -----------------------------------------------------------
    def attr_places(self, st, F, a):
        """-> [(place or None, state)]"""
        I = self.I
        t = I.ts(F["a"][0])
        r, p = M.lastplace(I, st, a)
        if t == EXPR:
            return [((r, p + ("@attrs",)), st)]
        if t == STMT:
            out = []
            v = I.load(st, r, p)
            for nme, s in I.fork_variant(st, v, STMT):
                if nme == "Expr":
                    out.append(((r, p + (("d", "Expr", STMT), "0", "@attrs")), s))
                elif nme == "Item":
                    out.append((None, s))
                else:
                    out.append(((r, p + (("d", nme, STMT), "0", "attrs")), s))
            return out
        return [((r, p + ("attrs",)), st)]

    def attrs_call(self, st, F, args, n):
        I = self.I
        lit = M.D(I, st, args[1])
        if lit[0] != "c":
            return None
        lit = lit[1]
        out = []
        for pl, s in self.attr_places(st, F, args[0]):
            if pl is None:
                out.append((NONE if n == "find_remove_attr" else FALSE, s))
                continue
            A = attr_base(I.load(s, *pl), lit)
            if A[0] == "seq" and not A[1]:
                out.append((NONE if n == "find_remove_attr" else FALSE, s))
                continue
            for b, s2 in I.fork_bool(s, ("b", ("hasattr", A, lit))):
                if n == "any_attr":
                    out.append((b2(b), s2))
                elif n == "any_empty_attr":
                    if not b:
                        out.append((FALSE, s2))
                    else:
                        for v, s3 in I.fork_dom(s2, ("var", ("p", ("attr", A, lit), "meta")), ("Path", "List", "NameValue"),
                                                [(True, frozenset(["Path"])), (False, frozenset(["List", "NameValue"]))]):
                            out.append((b2(v), s3))
                else:
                    if b:
                        I.store(s2, pl[0], pl[1], ("rm", I.load(s2, *pl), lit))
                        out.append((some(("attr", A, lit)), s2))
                    else:
                        out.append((NONE, s2))
        return out

    # visitors -------------------------------------------------------------
    def visit(self, st, F, args, n):
        I = self.I
        vt = F["a"][0] if F.get("tr") == VM else None
        ref = args[0]
        r, p = M.lastplace(I, st, ref)
        V = I.load(st, r, p)
        vname = short(V[1]) if V[0] == "adt" else None
        if vname is None:
            for a in F["a"]:
                if short(I.ts(a)) in self.overrides:
                    vname = short(I.ts(a))
        if vname is None:
            raise Stop("traversal by an unknown visitor")
        walk = F.get("tr") != VM or n not in self.overrides.get(vname, {})
        return self.visited(st, V, vname, walk, n, r, p, args[0], args[1])

    def visited(self, st, V, vname, walk, n, r, p, vref, nref):
        I = self.I
        nr, np = M.lastplace(I, st, nref)
        if walk and n == "visit_expr_mut":
            ov = {x: m for x, m in ((x, "visit_expr_%s_mut" % snake(x)) for x in I.variants(EXPR)) if m in self.overrides.get(vname, {})}
            if ov:
                full = frozenset(I.variants(EXPR))
                k = I.vkey(I.load(st, nr, np))
                parts = [(x, frozenset([x])) for x in sorted(ov)] + [(None, full - frozenset(ov))]
                rs = [(k[2] if k[2] in ov else None, st)] if k[0] == "adt" else I.fork_dom(st, ("var", k), full, parts)
                out = []
                for x, s in rs:
                    if x is None:
                        out += self.effect1(s, vname, walk, n, r, p, nr, np)
                    else:
                        pay = ("ref", nr, np + (("d", x, EXPR), "0"))
                        out += [(UNIT, s2) for _, s2 in I.exec_fn(self.overrides[vname][ov[x]], [vref, pay], s)]
                return out
        if walk and n.startswith("visit_expr_") and n != "visit_expr_mut" and len(np) >= 2 and np[-1] == "0" \
                and isinstance(np[-2], tuple) and np[-2][0] == "d" and np[-2][2] == EXPR and n == "visit_expr_%s_mut" % snake(np[-2][1]):
            np, n = np[:-2], "visit_expr_mut"
        if walk and n in ("visit_stmt_mut", "visit_item_mut") and self.item_noop(vname):
            k = I.vkey(I.load(st, nr, np))
            if n == "visit_item_mut":
                return [(UNIT, st)]
            if k[0] == "adt":
                if k[2] == "Item":
                    return [(UNIT, st)]
            else:
                full = frozenset(I.variants(STMT))
                out = []
                for x, s in I.fork_dom(st, ("var", k), full, [(True, frozenset(["Item"])), (False, full - {"Item"})]):
                    out += [(UNIT, s)] if x else self.effect1(s, vname, walk, n, r, p, nr, np)
                return out
        return self.effect1(st, vname, walk, n, r, p, nr, np)

    def item_noop(self, vname):
        """nested items are left alone: the override does nothing"""
        c = self.__dict__.setdefault("noop_cache", {})
        if vname not in c:
            o = self.overrides.get(vname, {}).get("visit_item_mut")
            c[vname] = False
            if o is not None:
                st = self.state(node=("s", "ITEM"))
                adt = [a for a in self.I.adts if short(a) == vname]
                st.mem[("G", "vis")] = v0 = self.struct(st, adt[0], "V")
                rs = self.I.exec_fn(o, [("ref", ("G", "vis"), ()), ("ref", ("G", "node"), ())], st)
                c[vname] = all(s.mem[("G", "node")] == ("s", "ITEM") and s.mem[("G", "cx")] == ("s", "CX") and
                               s.mem[("G", "vis")] == v0 for _, s in rs)
        return c[vname]

    def effect1(self, st, vname, walk, n, r, p, nr, np):
        I = self.I
        if walk and self.leaf:                # the node has no parts of interest
            st.event("LEAF", n)
            return [(UNIT, st)]
        V = I.load(st, r, p)
        kind = ("walk" if walk else "visit", n)
        snap = self.snapshot(st, V)
        node = I.load(st, nr, np)
        tag = (vname, kind, snap)
        st.event("VISIT", vname, kind, snap, node)
        self.effects(st, tag, node, V, r, p, nr, np)
        return [(UNIT, st)]

    def snapshot(self, st, V):
        """the part of a visitor's state that the traversal depends on"""
        if V[0] != "adt":
            return V
        vn = short(V[1])
        if vn in ("Visitor", "FnVisitor"):
            sc = proj(V, "scope")
            return tuple((n, proj(sc, n)) for n in (("closure", "try_block", "foreign") if vn == "Visitor" else ("closure",)))
        if vn in ("Dummy", "FindNested"):
            return ()
        return tuple((n, M.deep_value(self.I, st, x)) for n, x in V[3] if n != "cx" and n != "count" and n != "has" and n != "traits")

    def effects(self, st, tag, node, V, r, p, nr, np):
        I = self.I
        if tag[0] in PURE:
            if tag[0] == "FindNested":
                hr, hp = r, p + ("has",)
                if proj(V, "has")[0] == "ref":
                    hr, hp = M.target(I, st, proj(V, "has"))
                old = I.load(st, hr, hp)
                new = ("visres", tag[0], tag[1], node)
                I.store(st, hr, hp, new if old == FALSE else ("or", old, new))
            else:
                for c in ("try_", "return_"):
                    old = proj(proj(V, "count"), c)
                    I.store(st, r, p + ("count", c), I.binop("Add", old, ("visres", tag[1], tag[2], node, c)))
            return
        if tag[0] == "CollectImplTrait":
            I.store(st, r, p + ("has_impl_trait",), ("visres", tag[0], node, proj(V, "has_impl_trait")))
            t = proj(V, "traits")
            tr, tp = M.target(I, st, t)
            I.store(st, tr, tp, ("collected", node, I.load(st, tr, tp)))
            return
        I.store(st, nr, np, ("rec", tag, node))
        cr, cp = M.target(I, st, proj(V, "cx"))
        self.cx_effects(st, cr, cp, tag, node)

    def cx_effects(self, st, cr, cp, tag, node, child=True):
        I = self.I
        cx = I.load(st, cr, cp)
        E = proj(cx, "@E")
        if E[0] != "err+":
            I.store(st, cr, cp + ("@E",), ("errw", tag, node, E))
        I.store(st, cr, cp + ("builder",), ("bw", tag, node, proj(cx, "builder")))
        if child:
            h = proj(cx, "has_child")
            if h != TRUE:
                I.store(st, cr, cp + ("has_child",), ("hcw", tag, node, h))

    # wraps ----------------------------------------------------------------
    def wrap(self, st, args):
        I = self.I
        r, p = M.lastplace(I, st, args[0])
        b = I.load(st, r, p)
        attrs, e = args[1], args[2]
        st.event("WRAP", attrs, e)
        I.store(st, r, p, ("wrapped", b, attrs, e))
        return [(wrap_term(b, attrs, e), st)]

    # cuts of plain functions ---------------------------------------------
    def cut_is_unreachable(self, st, F, args):
        e = M.D(self.I, st, args[1])
        return [(("UNREACH", e), st)]

    def cut_child_expr(self, st, F, args):
        return self.cut_node(st, "child_expr", args)

    def cut_node(self, st, name, args, extra=()):
        I = self.I
        nr, np = M.lastplace(I, st, args[1])
        node = I.load(st, nr, np)
        if name.startswith("expand_"):
            node = canon(node)
        cr, cp = self.cxroot(st, args[0])
        st.event("CALL", name, node, tuple(extra))
        I.store(st, nr, np, ("rec", (name,) + tuple(extra), node))
        self.cx_effects(st, cr, cp, (name,) + tuple(extra), node, child=False)
        return [(UNIT, st)]

    def cut_collect_impl_trait(self, st, F, args):
        """derived traits found in a type (analysed by e_collect)"""
        I = self.I
        a, t, ty = I_load(I, st, args[0]), args[1], I_load(I, st, args[2])
        r, p = M.lastplace(I, st, t)
        old = I.load(st, r, p)
        I.store(st, r, p, ("collected", ty, a, old))
        return [(("COLLECTS", ty, a, old), st)]

    def cut_attribute(self, st, F, args):
        return [(("ATTRIBUTE", self.I.fns[F["l"]]["p"], args[0], args[1]), st)]

    def cx_build_enum(self, st, F, args):
        I = self.I
        return [(("enumitem", I_load(I, st, args[0]), I_load(I, st, args[1]), I_load(I, st, args[2])), st)]

    def cut_find_nested(self, st, F, args):
        return [(("NESTEDIN", I_load(self.I, st, args[0])), st)]

    def cut_visit_fn(self, st, F, args):
        n = I_load(self.I, st, args[1])
        return [(("adt", "auto_enum::visitor::FnCount", "FnCount", (("try_", ("COUNT", "try", n)), ("return_", ("COUNT", "return", n)))), st)]

    # context --------------------------------------------------------------
    def cx_error(self, st, F, args):
        I = self.I
        r, p = self.cxroot(st, args[0])
        m = M.D(I, st, args[1])
        E = self.err_term(st, r, p)
        st.event("ERROR", m)
        I.store(st, r, p + ("@E",), ("err+", E, m))
        return [(UNIT, st)]

    def cx_has_error(self, st, F, args):
        r, p = self.cxroot(st, args[0])
        return [(b2(b), s) for b, s in self.haserr(st, self.err_term(st, r, p))]

    def cx_is_marker_macro_exact(self, st, F, args):
        cx = I_load(self.I, st, args[0])
        return [(("MARKX", cxid(cx), M.D(self.I, st, args[1])), st)]

    def cx_is_marker_macro(self, st, F, args):
        cx = I_load(self.I, st, args[0])
        m = M.D(self.I, st, args[1])
        k = ("MARKX", cxid(cx), m)
        if st.pc.get(("b", k)) == frozenset([True]):
            return [(TRUE, st)]
        return [(("MARK", cxid(cx), m), st)]


def canon(node):
    """a node whose further shape no longer matters, without trivia"""
    import decide
    return decide.norm(node, {})


def cxid(cx):
    """identity of a context term regardless of its mutable state"""
    while cx[0] == "ov":
        cx = cx[1]
    return cx


def whole_node(t):
    """tokens of the node under analysis (an expression statement: of its expression)"""
    if t[0] != "tok" or len(t[1]) != 1 or t[1][0][0] != "v":
        return False
    x = t[1][0][1]
    while True:
        if x[0] in ("ov", "rm"):
            x = x[1]
        elif x[0] == "rec":
            x = x[2]
        elif x[0] == "p" and (x[2] == "0" or x[2] == "*" or isinstance(x[2], tuple) and x[2][0] == "d"):
            x = x[1]
        else:
            return x == ("s", "NODE") or x[0] == "adt" and x[1] in (EXPR, STMT)   # as rewritten so far


def cxmods(cx):
    """what was written to a context besides its errors"""
    out = []
    while cx[0] == "ov":
        out += [x for x in cx[2] if x[0] != "@E"]
        cx = cx[1]
    return tuple(out)


def I_load(I, st, a):
    if a[0] in ("ref", "guard"):
        r, p = M.lastplace(I, st, a)
        return I.load(st, r, p)
    return M.D(I, st, a)


def wrap_term(b, attrs, e):
    call = ("adt", "syn::ExprCall", "ExprCall", (("attrs", attrs), ("func", ("variant", b)), ("paren_token", UNIT), ("args", ("seq", (e,)))))
    return ("adt", "syn::Expr", "Call", (("0", call),))


# ----------------------------------------------------------------- child contexts
def _ctx_methods():
    def cx_make_child(self, st, F, args):
        I = self.I
        r, p = self.cxroot(st, args[0])
        cx = I.load(st, r, p)
        span, toks = M.D(I, st, args[1]), M.D(I, st, args[2])
        out = []
        for lab, s in I.fork_dom(st, ("mk", toks), ("ok", "err"), [("ok", frozenset(["ok"])), ("err", frozenset(["err"]))]):
            if lab == "ok":
                name = ("child", cxid(cx), toks)
                if not whole_node(span):
                    name = ("altered", name, ("span", span))
                child = write(name, ("@E",), proj(cx, "@E"))
                s.event("MAKECHILD", span, toks, proj(cx, "has_child"))
                out.append((ok(child), s))
            else:
                s.event("MKFAIL", span, toks)
                out.append((err(("mkerr", span, toks)), s))
        return out

    def cx_join_child(self, st, F, args):
        I = self.I
        r, p = self.cxroot(st, args[0])
        child = args[1]
        E, Ec = proj(I.load(st, r, p), "@E"), proj(child, "@E")
        st.event("JOIN", cxid(child))
        if E[0] != "err+":
            I.store(st, r, p + ("@E",), ("errj", E, Ec) if Ec[0] != "err+" else ("err+", E, "child"))
        return [(UNIT, st)]

    def cx_check(self, st, F, args):
        I = self.I
        cx = args[0]
        E = proj(cx, "@E")
        st.event("CHECK", cxid(cx))
        return [((err(("errors", E)) if b else ok(UNIT)), s) for b, s in self.haserr(st, E)]

    def cx_root(self, st, F, args):
        span, toks = M.D(self.I, st, args[0]), M.D(self.I, st, args[1])
        out = []
        for lab, s in self.I.fork_dom(st, ("mkroot", span, toks), ("ok", "err"), [("ok", frozenset(["ok"])), ("err", frozenset(["err"]))]):
            out.append((ok(("rootcx", span, toks)) if lab == "ok" else err(("mkerr", span, toks)), s))
        return out

    def cut_expand_parent_expr(self, st, F, args):
        out = []
        for b, s in self.I.force_bool(st, args[2]):
            out += self.expand(s, "expand_parent_expr", args, (b2(b),))
        return out

    def cut_expand_parent_stmt(self, st, F, args):
        return self.expand(st, "expand_parent_stmt", args, ())

    def cut_expand_parent_local(self, st, F, args):
        return self.expand(st, "expand_parent_local", args, ())

    def cut_expand_parent_item_fn(self, st, F, args):
        return self.expand(st, "expand_parent_item_fn", args, ())

    def expand(self, st, name, args, extra):
        I = self.I
        cr, cp = self.cxroot(st, args[0])
        cx = I.load(st, cr, cp)
        c = cxid(cx)
        if c[0] in ("child", "rootcx", "altered"):                       # a fresh context starts out as made
            mods = cxmods(cx)
            if mods:
                c = ("altered", c, mods)
        return self.cut_node(st, name, args, (c,) + extra)

    for k, v in list(locals().items()):
        setattr(AE, k, v)


_ctx_methods()
