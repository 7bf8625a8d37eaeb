"""C11-C29: properties of #[auto_enum], decided function by function on the
type-checked program (see ae.py, decide.py, ae_specs.py)."""
import collections
import contextlib
import itertools
from interp import *
import models as M
import ae as AEM
from decide import *
import decide
import ae_specs as S
import common

KNOWN = common.known()

MARKS = {"is_marker_macro", "is_marker_macro_exact"}
BASE = MARKS | {"is_unreachable", "next_expr", "error", "has_error", "child_expr", "find_nested",
                "make_child", "join_child", "expand_parent_expr", "expand_parent_stmt"}
N = (("G", "node"), ())
CXREF, NREF = ("ref", ("G", "cx"), ()), ("ref", ("G", "node"), ())


def obs_bool(ret, st, pc):
    return {"ret": norm(ret, pc)}


def obs_node(ret, st, pc):
    o = cx_obs(st.mem[("G", "cx")], pc, CXFIELDS)
    o["node"] = norm(st.mem[("G", "node")], pc)
    return o


def setup(I, cuts):
    A = AEM.AE(I)
    A.require(cuts)
    A.cut_fns = set(cuts)
    I.unroll = 1
    return A


def run(A, rep, what, rows, mk, spec, obs):
    rep.add("entries", what)
    rows = list(rows)
    for ob in getattr(A.I, "row_obs", ()):
        ob(what, rows)
    if len(rows) > 60000:
        rep.undecided(what, "%d paths are too many to compare" % len(rows))
        return []
    return compare(A, rep, what, rows, mk, spec, obs, lambda b: settles(rep.pid, what, b))


def settles(pid, what, b):
    """the disagreement is a violation of pid that no known finding covers"""
    label = "is_unreachable" if what == "unreachable" else what
    ids, kind = classify(label, *b)
    return pid in ids and (pid, "%s:%s" % (label, kind)) not in KNOWN


# ------------------------------------------------------------- is_unreachable
def e_unreachable(I, rep):
    A = setup(I, MARKS | {"is_unreachable"})
    bad = []
    for n, p in [(I.bound, {})] + list(wide_match(I, A, False)):
        def mk():
            st = A.state(node=("s", "NODE"))
            st.pc.update(p)
            return st
        with bounded(I, n):
            rows = I.exec_fn(A.fn("is_unreachable"), [CXREF, NREF], mk())
            bad += run(A, rep, "is_unreachable", rows, lambda: Spec(A, mk()), S.spec_unreachable, obs_bool)
    return bad


# ------------------------------------------------------------------ child_expr
IFP = ("p", ("p", ("s", "NODE"), ("d", "If", EXPR)), "0")
SOME = ("d", "Some", "std::option::Option")


def macro_opaque(stmts):
    """the last statement, if a macro, is not one of the known names"""
    mac = S.sub(("p", stmts, ("i", -1)), ("d", "Macro", STMT), "0", "mac", "path", "segments")
    return {("int", ("len", mac)): (3, INF)}


def plain_tail(stmts):
    e = S.sub(("p", stmts, ("i", -1)), ("d", "Expr", STMT), "0")
    return {("int", ("len", stmts)): (1, INF), ("var", ("p", stmts, ("i", -1))): frozenset(["Expr"]),
            ("var", S.sub(("p", stmts, ("i", -1)), ("d", "Expr", STMT), "1")): frozenset(["None"]),
            ("b", ("hasattr", ("p", e, "@attrs"), "nested")): Fl}


def U(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def child_presets(I):
    tb = S.sub(IFP, "then_branch", "stmts")
    eb = S.sub(IFP, "else_branch", SOME, "0", "1")
    els = S.sub(eb, ("d", "Block", EXPR), "0", "block", "stmts")
    ei = S.sub(eb, ("d", "If", EXPR), "0")
    etb = S.sub(ei, "then_branch", "stmts")
    eeb = S.sub(ei, "else_branch", SOME, "0", "1")
    eels = S.sub(eeb, ("d", "Block", EXPR), "0", "block", "stmts")
    no_if = {("var", eb): frozenset(["Block"])}
    isif = {("var", ("s", "NODE")): frozenset(["If"])}
    full = frozenset(I.variants(EXPR))
    live = {("var", ("p", ("s", "CX"), "visit_last_mode")): frozenset(["Default"]),
            ("var", ("p", ("s", "CX"), "visit_mode")): frozenset(["Default", "Return"]),
            ("b", ("UNREACH", ("s", "NODE"))): Fl}
    eif = {("var", eb): frozenset(["If"])}
    flat = {("var", eeb): frozenset(["Block"])}
    return [
        {("var", ("s", "NODE")): full - {"If"}},
        U(isif, no_if, macro_opaque(els)),
        U(isif, live, no_if, macro_opaque(tb)),
        U(isif, live, eif, plain_tail(tb), plain_tail(etb), flat),
        U(isif, live, eif, plain_tail(tb), macro_opaque(etb), plain_tail(eels), flat),
    ]


def widths(I, top=40):
    """sizes of lists at which the code could change its treatment"""
    import ae_direct as D
    if not hasattr(I, "own_ints"):
        I.own_ints = D.own_ints(I)
    return sorted({3} | {x for x in I.own_ints if 3 < x <= top})


def wide_match(I, A, live=True):
    """matches with many arms, all but one of them alike and known: [(length, facts)]"""
    node = ("s", "NODE")
    arms = S.sub(node, ("d", "Match", EXPR), "0", "arms")
    for L in widths(I):
        for skip in (False, True):
            pc = {("var", node): frozenset(["Match"]), ("int", ("len", arms)): (L + 2, L + 2)}
            if live:
                pc.update({("var", ("p", ("s", "CX"), "visit_last_mode")): frozenset(["Default"]),
                           ("var", ("p", ("s", "CX"), "visit_mode")): frozenset(["Default", "Return"]), ("b", ("UNREACH", node)): Fl})

            def facts(f):
                for i in range(L + 2):
                    if i == L:
                        continue
                    a = ((("G", "node"), (("d", "Match", EXPR), "0", "arms", ("i", i))))
                    v = f.get(a)
                    if f.has(a, S.NEVER, S.ARMK) != skip or skip and not f.has_path(a, S.NEVER, S.ARMK):
                        raise decide.Cut()
                    if f.has(a, S.NESTED, S.ARMK) or S.unreach(f, proj(v, "body")) or S.nestedin(f, v):
                        raise decide.Cut()
            st = lambda: Spec(A, A.state(node=node))
            got = decide.leaves(st, facts, pc)
            yield L + 2, got[0][1].st.pc


def e_child(I, rep):
    A = setup(I, BASE)
    A.require((), ("LoopVisitor",))
    bad = []
    for n, p in [(I.bound, p) for p in child_presets(I)] + list(wide_match(I, A)):
        def mk():
            st = A.state(node=("s", "NODE"))
            st.pc.update(p)
            return st
        with bounded(I, n):
            rows = I.exec_fn(A.fn("child_expr"), [CXREF, NREF], mk())
            bad += run(A, rep, "child_expr", rows, lambda: Spec(A, mk()), S.spec_child_expr, obs_node)
    return bad


@contextlib.contextmanager
def bounded(I, n):
    """lists of up to n elements are walked to their end"""
    old, I.bound = I.bound, n
    try:
        yield
    finally:
        I.bound = old


# -------------------------------------------------------------------- visitors
def adt_named(I, name):
    k = I.__dict__.setdefault("adt_names", {})
    if name in k:
        return k[name]
    k[name] = adt_named_(I, name)
    return k[name]


def adt_named_(I, name):
    c = [a for a in I.adts if AEM.short(a) == name and a.startswith("auto_enum")]
    if not c:
        raise Stop("anchor type `%s` not found" % name)
    return c[0]


def obs_visitor(role):
    def obs(ret, st, pc):
        o = obs_node(ret, st, pc)
        v = st.mem[("G", "vis")]
        o["visitor state"] = norm(tuple(x for _, x in OBSA[0].snapshot(st, v)), pc) if role != "Dummy" else ()
        return o
    return obs


OBSA = [None]


def visit_entry(A, rep, role, method, spec, presets=({},), obs=None):
    """one traversal method (overridden or default) on an arbitrary node"""
    I = A.I
    A.require((), (role,) + {"Visitor": ("Scope",), "FnVisitor": ("Scope", "FnCount")}.get(role, ()))
    obs = obs or obs_visitor(role)
    OBSA[0] = A
    bad = []
    for pre in presets:
        def mk():
            st = A.state(node=("s", "NODE"))
            st.mem[("G", "vis")] = A.struct(st, adt_named(I, role), "V")
            st.pc.update(pre)
            return st
        o = A.overrides.get(role, {}).get(method)
        args = [("ref", ("G", "vis"), ()), NREF]
        if o is not None:
            rows = I.exec_fn(o, args, mk())
        else:
            st = mk()
            rows = A.visited(st, st.mem[("G", "vis")], role, True, method, ("G", "vis"), (), args[0], args[1])
        bad += run(A, rep, "%s::%s" % (role, method), rows, lambda: Spec(A, mk()), spec, obs)
    return bad


ANALYSED = {"Visitor": {"expr", "stmt", "arm", "local"}, "Dummy": {"expr", "stmt"}, "LoopVisitor": {"expr"}, "FindNested": {"expr", "arm", "local"},
            "FnVisitor": {"expr", "stmt"}}


def items_and_rest(A, rep, role):
    """a traversal leaves nested items alone and passes over every kind of node
    that it does not treat in a way of its own"""
    I = A.I
    ov = A.overrides.get(role)
    if ov is None:
        raise Stop("anchor type `%s` not found" % role)
    V = lambda st: st.mem.__setitem__(("G", "vis"), A.struct(st, adt_named(I, role), "V"))
    args = [("ref", ("G", "vis"), ()), NREF]
    if "visit_item_mut" not in ov and "visit_stmt_mut" not in ov:
        return [("%s:items" % role, "the traversal descends into items nested in the code", "%s::visit_item_mut" % role)]
    out = []
    kinds = {"visit_%s_mut" % x for x in ANALYSED[role]}
    for m in sorted(ov):
        if m in kinds or m.startswith("visit_expr_"):
            continue
        if m == "visit_item_mut":
            if not A.item_noop(role):
                out.append(("%s:items" % role, "an item nested in the code is not left alone", "%s::%s" % (role, m)))
            continue
        st = A.state(node=("s", "NODE"))
        V(st)
        for ret, s in I.exec_fn(ov[m], args, st):
            rep.count("other_methods")
            if s.cut or any(e[0] == "EXT" for e in s.ev):
                raise Stop("`%s::%s` is not decided" % (role, m))
            v = [e for e in s.ev if e[0] == "VISIT"]
            if not v:
                if s.pc and role in ("Visitor", "Dummy") and any(k[0] == "b" and k[1][0] == "HASERR" and x == T for k, x in s.pc.items() if isinstance(k[1], tuple)):
                    continue
                out.append(("%s:%s" % (role, m), "the parts of a node are not traversed", "%s::%s" % (role, m)))
            elif len(v) != 1 or v[0][2] != ("walk", m) or norm(s.mem[("G", "node")], s.pc) != ("rec", (role,) + tuple(v[0][2:4]), ("s", "NODE")) and role in ("Visitor", "Dummy", "LoopVisitor"):
                raise Stop("`%s::%s` treats a node in a way of its own" % (role, m))
    return out


def e_visitor(I, rep):
    A = setup(I, BASE)
    bad = items_and_rest(A, rep, "Visitor")
    if bad:
        return bad
    return [("Visitor::visit_expr_mut", visit_entry(A, rep, "Visitor", "visit_expr_mut", S.spec_visit_expr_mut("Visitor"))),
            ("Visitor::visit_stmt_mut", visit_entry(A, rep, "Visitor", "visit_stmt_mut", S.spec_visit_stmt_mut("Visitor"))),
            ("Visitor::visit_arm_mut", visit_entry(A, rep, "Visitor", "visit_arm_mut", S.spec_visit_arm_mut)),
            ("Visitor::visit_local_mut", visit_entry(A, rep, "Visitor", "visit_local_mut", S.spec_visit_local_mut))]


def e_dummy(I, rep):
    A = setup(I, BASE)
    bad = items_and_rest(A, rep, "Dummy")
    if bad:
        return bad
    return [("Dummy::visit_expr_mut", visit_entry(A, rep, "Dummy", "visit_expr_mut", S.spec_visit_expr_mut("Dummy"))),
            ("Dummy::visit_stmt_mut", visit_entry(A, rep, "Dummy", "visit_stmt_mut", S.spec_visit_stmt_mut("Dummy")))]


def e_loop(I, rep):
    A = setup(I, BASE)
    bad = items_and_rest(A, rep, "LoopVisitor")
    if bad:
        return bad
    # an inner loop is only entered when the analysed loop has a label: the
    # initial state is not nested and `spec_loop` nests under a label only
    pre = ({("b", ("p", S.VS, "nested")): Fl},
           {("b", ("p", S.VS, "nested")): frozenset([True]), ("var", S.VLAB): frozenset(["Some"])})
    return [("LoopVisitor::visit_expr_mut", visit_entry(A, rep, "LoopVisitor", "visit_expr_mut", S.spec_loop, pre))]


def obs_find(ret, st, pc):
    v = st.mem[("G", "vis")]
    return {"node": norm(st.mem[("G", "node")], pc), "nested found": norm(proj(v, "has"), pc), "cx": st.mem[("G", "cx")]}


def addends(t, pc):
    c = collections.Counter()
    todo = [norm(t, pc)]
    while todo:
        x = todo.pop()
        if x[0] == "bin" and x[1] == "Add":
            todo += [x[2], x[3]]
        elif x[0] == "c":
            c["1"] += x[1]
        else:
            c[x] += 1
    return frozenset((k, v) for k, v in c.items() if v)


def obs_count(ret, st, pc):
    v = st.mem[("G", "vis")]
    o = {"node": norm(st.mem[("G", "node")], pc), "cx": st.mem[("G", "cx")]}
    for c in ("try_", "return_"):
        o[c] = addends(proj(proj(v, "count"), c), pc)
    o["closure"] = norm(proj(proj(v, "scope"), "closure"), pc)
    return o


def instances(I, name):
    c = [f for f in I.d["fns"] if f["local"] and f.get("body") and f["p"].split("::")[-1] == name and "{closure" not in f["p"]]
    if not c:
        raise Stop("anchor function `%s` not found" % name)
    return c


def fresh_walk(I, rep, name, role, start, args, expect):
    """a function that only runs a traversal: over the given node, once, with a
    fresh visitor, and returns what the visitor found"""
    A = setup(I, (BASE | {"visit_fn", "collect_impl_trait"}) - {name})
    if role not in A.overrides:
        raise Stop("anchor type `%s` not found" % role)
    for f in instances(I, name):
        st = A.state(node=("s", "NODE"), args=("s", "ARGS"), traits=("s", "TRAITS"))
        n = len(f["a"])
        for ret, s in I.exec_fn(f["id"], args, st):
            if s.cut or any(e[0] == "EXT" for e in s.ev):
                raise Stop("`%s` is not decided" % name)
            rep.count("wrapper_paths")
            v = [e for e in s.ev if e[0] == "VISIT"]
            if not v or any(e[1] != role or e[3] != start for e in v[:1]):
                return [("start:" + name, "the node is not traversed from the start state" if v else "the node is not traversed", name)]
            if len(v) != 1 or v[0][4] != ("s", "NODE"):
                raise Stop("`%s` traverses parts of the node one by one" % name)
            why = expect(I, s, v[0], norm(ret, s.pc))
            if why:
                return [("start:" + name, why, name)]
    return []


def want_found(I, s, v, ret):
    if ret != norm(("visres", "FindNested", v[2], ("s", "NODE")), s.pc):
        return "returns %s instead of what the traversal found" % show(ret)[:200]


def want_count(I, s, v, ret):
    for c in ("try_", "return_"):
        if addends(proj(ret, c), s.pc) != addends(("visres", v[2], v[3], ("s", "NODE"), c), s.pc):
            return "returns %s as the number of %s" % (show(proj(ret, c))[:200], {"try_": "`?`", "return_": "`return`"}[c])


def collect_wrapper(I, rep):
    """the search for `impl Trait` is run on the given type with the context's
    arguments and traits"""
    A = setup(I, BASE)
    fs = [f for f in instances(I, "collect_impl_trait") if short_self(f) == "Context"]
    if not fs:
        raise Stop("anchor function `Context::collect_impl_trait` not found")
    for f in fs:
        st = A.state(node=("s", "NODE"))
        for ret, s in I.exec_fn(f["id"], [CXREF, NREF], st):
            if s.cut or any(e[0] == "EXT" for e in s.ev):
                raise Stop("`collect_impl_trait` is not decided")
            rep.count("wrapper_paths")
            v = [e for e in s.ev if e[0] == "VISIT"]
            cx = s.mem[("G", "cx")]
            get = lambda n: norm(proj(cx, n), s.pc)
            old = lambda n: ("p", ("s", "CX"), n)
            why = None
            if not v:
                why = "the type is not traversed"
            elif len(v) != 1 or v[0][1] != "CollectImplTrait" or v[0][4] != ("s", "NODE"):
                raise Stop("`collect_impl_trait` traverses parts of the type one by one")
            elif dict(v[0][3]).get("args") != old("args"):
                why = "the traversal is given %s as the arguments" % show(dict(v[0][3]).get("args"))[:200]
            elif ret[0:1] != ("visres",) or norm(ret, s.pc) != norm(("visres", "CollectImplTrait", ("s", "NODE"), FALSE), s.pc):
                why = "returns %s instead of what the traversal found" % show(ret)[:200]
            elif get("traits") != norm(("collected", ("s", "NODE"), old("traits")), s.pc):
                why = "the traits become %s" % show(get("traits"))[:200]
            if why:
                return [("start:collect_impl_trait", why, "collect_impl_trait")]
    return []


def e_find(I, rep):
    bad = fresh_walk(I, rep, "find_nested", "FindNested", (), [NREF], want_found)
    if bad:
        return bad
    A = setup(I, BASE)
    bad = items_and_rest(A, rep, "FindNested")
    if bad:
        return bad
    return [("FindNested::visit_%s_mut" % n, visit_entry(A, rep, "FindNested", "visit_%s_mut" % n, S.spec_find(k), obs=obs_find))
            for n, k in (("expr", EXPR), ("arm", "arm"), ("local", "local"))]


def e_count(I, rep):
    bad = fresh_walk(I, rep, "visit_fn", "FnVisitor", (("closure", FALSE),), [CXREF, NREF], want_count)
    if bad:
        return bad
    A = setup(I, BASE)
    bad = items_and_rest(A, rep, "FnVisitor")
    if bad:
        return bad
    return [("FnVisitor::visit_expr_mut", visit_entry(A, rep, "FnVisitor", "visit_expr_mut", S.spec_count_expr, obs=obs_count)),
            ("FnVisitor::visit_stmt_mut", visit_entry(A, rep, "FnVisitor", "visit_stmt_mut", S.spec_count_stmt, obs=obs_count))]


def obs_collect(ret, st, pc):
    v = st.mem[("G", "vis")]
    t = st.mem.get(("M", ("p", S.VS, "traits")), ("p", ("p", S.VS, "traits"), "*"))
    return {"node": st.mem[("G", "node")], "has impl trait": norm(proj(v, "has_impl_trait"), pc), "traits": norm(t, pc)}


def e_collect(I, rep):
    A = setup(I, BASE)
    if not A.analysis:
        return []
    L = ("int", ("len", ("p", ("s", "NODE"), "bounds")))
    key = lambda i: ("str", ("replace", S.path_str(S.bound_path(i)), const(" "), const("")))
    var = lambda i: ("var", S.sub(("s", "NODE"), "bounds", ("i", i)))
    tr = frozenset(["Trait"])
    pre = [{L: (0, 1)}]
    other = ("not", frozenset(S.KNOWN))
    for a, b in itertools.product(("Clone", None), repeat=2):
        pre.append({L: (2, 2), var(0): tr, var(1): tr, key(0): ("is", a) if a else other, key(1): ("is", b) if b else other})
    pre.append({L: (2, 2), var(0): frozenset(["Lifetime", "PreciseCapture", "Verbatim"]), var(1): tr, key(1): ("is", "Clone")})
    what = "CollectImplTrait::visit_type_impl_trait_mut"
    bad = collect_wrapper(I, rep)
    if bad:
        return bad
    conc = collect_lists(I, rep)
    if conc:
        return conc
    A = setup(I, BASE)
    bad = visit_entry(A, rep, "CollectImplTrait", "visit_type_impl_trait_mut", S.spec_collect, pre, obs=obs_collect)
    if bad:
        # the code may not compare paths by their text: given lists decide
        rep.undecided(what, "differs from the specification in form, agrees with it on every list of known and unknown bounds tried")
    return []


def concrete_path(*names, generic=()):
    seg = lambda i, x: ("adt", "syn::PathSegment", "PathSegment", (("ident", ("ident", const(x))), (
        "arguments", ("s", "GENERICS") if i in generic else ("adt", "syn::PathArguments", "None", ()))))
    return ("adt", "syn::Path", "Path", (("leading_colon", NONE), ("segments", ("seq", tuple(seg(i, x) for i, x in enumerate(names))))))


def collect_lists(I, rep):
    """given bounds, arguments and traits so far"""
    A = setup(I, BASE)
    A.leaf = True
    B = "syn::TypeParamBound"
    adt = adt_named(I, "CollectImplTrait")
    tb = I.adts["syn::TraitBound"]["vs"][0]

    def bound(x):
        if x is None:
            return ("adt", B, "Lifetime", (("0", ("s", "LIFETIME")),))
        p = concrete_path(*x.split("::"), generic=(len(x.split("::")) - 1,) if x in ("Iterator", "Fn", "AsRef") else ())
        return ("adt", B, "Trait", (("0", ("adt", "syn::TraitBound", "TraitBound", tuple((f[0], p if f[0] == "path" else ("s", f[0])) for f in tb["f"]))),))
    known = list(S.KNOWN)
    unknown = ["Foo", "Send", "fmt::Clone", "std::fmt::Debug", "iter::Iterator", "io::Error", "clone", "Rea", "fmt", "Debug::fmt", "DebugX"]
    lists = [[]] + [[x] for x in known + unknown + [None]]
    some_ = ["Clone", "fmt::Debug", "Debug", "Iterator", "Foo", None]
    lists += [list(x) for x in itertools.product(some_, repeat=2)] + [["Foo", None, "Clone", "Copy"], ["Clone", "Iterator", "Clone", "Foo", "Copy"]]
    for w in widths(I):
        lists += [["Foo"] * w + ["Clone"], [None] * w + ["Clone"], ["Clone"] * w + ["Copy"], known[:w] + ["Iterator"]]
    pres = [([], []), (["Clone"], []), ([], ["Clone"]), (["Foo", "fmt::Debug"], ["Iterator"]), (["Iterator", "Clone"], ["Debug", "Copy"])]
    for l in lists:
        for a, t in (pres if len(l) > 1 or l and l[0] in some_ + ["Copy"] else pres[:1]):
            st = St()
            st.mem[("G", "cx")] = ("s", "CX")
            st.mem[("G", "args")] = ("seq", tuple(concrete_path(*x.split("::")) for x in a))
            st.mem[("G", "traits")] = ("seq", tuple(concrete_path(*x.split("::")) for x in t))
            v = {"args": ("ref", ("G", "args"), ()), "traits": ("ref", ("G", "traits"), ()), "has_impl_trait": FALSE}
            st.mem[("G", "vis")] = A.struct(st, adt, "V", **v)
            st.mem[("G", "node")] = ("s", "NODE")
            I.store(st, ("G", "node"), ("bounds",), ("seq", tuple(bound(x) for x in l)))
            want = list(t)
            hit = False
            for x in l:
                if x in known:
                    hit = True
                    if x not in a and x not in want:
                        want.append(x)
            rows = I.exec_fn(A.overrides["CollectImplTrait"]["visit_type_impl_trait_mut"], [("ref", ("G", "vis"), ()), NREF], st)
            rep.count("collect_lists")
            for ret, s in rows:
                if s.cut or any(e[0] == "EXT" for e in s.ev):
                    raise Stop("a list of bounds is not decided")
                if any(x is not None for x in l) and not any(e[0] == "LEAF" for e in s.ev):
                    return [("collect:nested", "with the bounds %s, the types in the bounds are not searched for further `impl Trait`" % l, "CollectImplTrait")]
                got = s.mem[("G", "traits")]
                if got[0] != "seq" or not all(x[0] == "adt" and x[1] == "syn::Path" for x in got[1]):
                    raise Stop("the traits collected for a given list are not known")
                names = ["::".join(M.D(I, s, proj(y, "ident"))[1][1] for y in proj(x, "segments")[1]) for x in got[1]]
                if names != want or norm(proj(s.mem[("G", "vis")], "has_impl_trait"), s.pc) != b2(hit):
                    return [("collect:list", "with the bounds %s, the arguments %s and the traits %s before, the traits are %s (required %s)" % (
                        l, a, t, names, want), "CollectImplTrait")]
    return []


TOP = MARKS | {"is_unreachable", "next_expr", "error", "has_error", "child_expr", "find_nested", "visit_fn", "build_enum", "collect_impl_trait"}


def e_parent(I, rep):
    out = []
    for kind, fn, cuts, extra in (("expr", "expand_parent_expr", TOP, [("s", "SEMI")]), ("local", "expand_parent_local", TOP, []),
                                  ("fn", "expand_parent_item_fn", TOP, []),
                                  ("stmt", "expand_parent_stmt", TOP | {"expand_parent_expr", "expand_parent_local", "expand_parent_item_fn"}, [])):
        A = setup(I, cuts)
        mk = lambda: A.state(node=("s", "NODE"))
        rows = I.exec_fn(A.fn(fn), [CXREF, NREF] + extra, mk())
        out.append((fn, run(A, rep, fn, rows, lambda: Spec(A, mk()), S.spec_parent(kind), obs_node)))
    return out


# ------------------------------------------------------------------ attributes
def attr_terms(I, t):
    """[(preset facts, attribute list term or None, label)] for a node type"""
    N = ("s", "NODE")

    def expr(node, pre, lab):
        out = []
        for v in I.adts[EXPR]["vs"]:
            pay = I.ty(v["f"][0][1]) if v["f"] else None
            carries = pay is not None and pay.get("p") in I.adts and any(x[0] == "attrs" for x in I.adts[pay["p"]]["vs"][0]["f"])
            out.append((dict(pre, **{}) | {("var", node): frozenset([v["n"]])}, ("p", node, "@attrs") if carries else None, lab + v["n"]))
        return out
    if t == EXPR:
        return expr(N, {}, "")
    if t == STMT:
        out = expr(S.sub(N, ("d", "Expr", STMT), "0"), {("var", N): frozenset(["Expr"])}, "Expr::")
        for v in ("Local", "Macro"):
            out.append(({("var", N): frozenset([v])}, S.sub(N, ("d", v, STMT), "0", "attrs"), v))
        return out + [({("var", N): frozenset(["Item"])}, None, "Item")]
    return [({}, ("p", N, "attrs"), AEM.short(t))]


def attr_hit(A, name, lit):
    e = ("elem", A)
    isl = lambda p: (("str", ("identof", p)), ("is", lit))
    if name == "any_empty_attr":
        meta = ("p", e, "meta")
        return {frozenset([frozenset([isl(S.sub(meta, ("d", "Path", AEM.META), "0")), (("var", meta), frozenset(["Path"]))])]),
                frozenset([frozenset([isl(("attrpath", e)), (("var", meta), frozenset(["Path"]))])])}
    return {frozenset([frozenset([isl(("attrpath", e))])])}


def e_attrs(I, rep):
    """any_attr, any_empty_attr and find_remove_attr on every node kind"""
    out, seen = [], set()
    for lit in ("nested", "never", "auto_enum", "rec"):
        for x in attr_helpers(I, rep, lit):
            if (x[0], x[2]) not in seen:
                seen.add((x[0], x[2]))
                out.append(x)
    return out


# what is said about the attributes each helper looks for
ATTRHELP = {"any_attr": {"C12", "C18", "C28"}, "any_empty_attr": {"C11", "C12", "C13", "C14", "C15", "C28"}, "find_remove_attr": {"C18", "C28"}}


def attr_helpers(I, rep, lit):
    out = []
    A = setup(I, set())
    I.hooks["call"] = []
    for f in I.d["fns"]:
        n = f.get("n")
        if not (f["local"] and f.get("body") and "Attrs" in f["p"] and n in ("any_attr", "any_empty_attr", "find_remove_attr") and f.get("a")):
            continue
        t = I.ts(f["a"][0])
        if t not in I.adts:
            continue
        rep.add("entries", "%s on %s" % (n, t))
        for pre, L, lab in attr_terms(I, t):
            st = A.state(node=("s", "NODE"))
            st.pc.update(pre)
            rows = [r for r in I.exec_fn(f["id"], [NREF, const(lit)], st) if not any(e[0] == "EXT" for e in r[1].ev)]
            rep.count("paths", len(rows))
            why = attr_symbolic(I, rows, n, L, lab, lit)
            if why and L is not None:
                # not a search over the whole list at once: decide it for every short list
                why = attr_lists(I, A, f, pre, L, n, lab, lit)
            if why:
                out.append((("%s:%s" % (AEM.short(t) + "::" + lab if t != EXPR else lab, "attrs"), why, n)))
    return out


def attr_symbolic(I, rows, n, L, lab, lit):
    for ret, s in rows:
        node = s.mem[("G", "node")]
        facts = [(k, v) for k, v in s.pc.items() if k[0] == "any"]
        if L is None:
            if facts or norm(ret, s.pc) not in (FALSE, NONE) or node != ("s", "NODE"):
                return "attributes found where there are none"
            continue
        if len(facts) != 1 or facts[0][0][1] != L or facts[0][0][2] not in attr_hit(L, n, lit):
            return "attributes of %s are not searched (for exactly `#[%s]`)" % (lab, lit)
        (_, _, hit), v = facts[0]
        v = v == frozenset([True])
        want = b2(v) if n != "find_remove_attr" else (some(("found", L, hit)) if v else NONE)
        removed = n == "find_remove_attr" and v
        r = ("rm", L, hit)
        loc = node
        if removed:
            loc = M.D(I, s, ("ref", ("G", "node"), path_of(L)))
        if norm(ret, s.pc) != want or (loc != r if removed else node != ("s", "NODE")):
            return "`#[%s]` on %s is not %s" % (lit, lab, "found and removed" if n == "find_remove_attr" else "reported")
    return None


def attr_forms(lit):
    seg = lambda x: ("adt", "syn::PathSegment", "PathSegment", (("ident", ("ident", const(x))), ("arguments", ("adt", "syn::PathArguments", "None", ()))))
    path = lambda *xs: ("adt", "syn::Path", "Path", (("leading_colon", NONE), ("segments", ("seq", tuple(seg(x) for x in xs)))))
    P = lambda p: ("adt", META, "Path", (("0", p),))
    Lm = lambda p: ("adt", META, "List", (("0", ("adt", "syn::MetaList", "MetaList", (("path", p), ("delimiter", ("s", "DELIM")), ("tokens", ("s", "TOKS"))))),))
    NV = lambda p: ("adt", META, "NameValue", (("0", ("adt", "syn::MetaNameValue", "MetaNameValue", (("path", p), ("eq_token", UNIT), ("value", ("s", "VALUE"))))),))
    at = lambda m: ("adt", "syn::Attribute", "Attribute", (("pound_token", UNIT), ("style", ("s", "STYLE")), ("bracket_token", UNIT), ("meta", m)))
    # (attribute, its name is `lit`, it is exactly `#[lit]`)
    return [(at(P(path(lit))), True, True), (at(Lm(path(lit))), True, False), (at(NV(path(lit))), True, False),
            (at(P(path("other"))), False, False), (at(P(path("a", lit))), False, False)]


META = "syn::Meta"


def attr_lists(I, A, f, pre, L, n, lab, lit):
    forms = attr_forms(lit)
    lists = [l for k in range(3) for l in itertools.product(forms, repeat=k)]
    for w in widths(I):
        lists += [[forms[3]] * w + [x] for x in forms[:2]] + [[x] + [forms[3]] * w for x in forms[:2]]
    for l in lists:
        if True:
            k = len(l)
            st = A.state(node=("s", "NODE"))
            st.pc.update(pre)
            attrs = ("seq", tuple(x[0] for x in l))
            I.store(st, ("G", "node"), path_of(L), attrs)
            hits = [i for i, x in enumerate(l) if x[2 if n == "any_empty_attr" else 1]]
            for ret, s in I.exec_fn(f["id"], [NREF, const(lit)], st):
                if s.cut or any(e[0] == "EXT" for e in s.ev):
                    continue
                got = norm(ret, s.pc)
                left = M.D(I, s, ("ref", ("G", "node"), path_of(L)))
                if n != "find_remove_attr":
                    good = got == b2(bool(hits)) and left == attrs
                elif hits:
                    i = hits[0]
                    good = got == norm(some(l[i][0]), s.pc) and left == ("seq", attrs[1][:i] + attrs[1][i + 1:])
                else:
                    good = got == NONE and left == attrs
                if not good:
                    return "with %d attributes on %s, `%s(\"%s\")` gives %s" % (k, lab, n, lit, show(got)[:80])
    return None


def path_of(t):
    p = []
    while t[0] == "p":
        p.append(t[2])
        t = t[1]
    return tuple(reversed(p))


# -------------------------------------------------------------- classification
def wrapped_in(t):
    c = t[3][0][1]
    if c[0] != "adt" or c[1] != "syn::ExprCall":
        return None
    fs = dict(c[3])
    if fs.get("func") == ("variant",) and fs.get("args", ("",))[0] == "seq" and len(fs["args"][1]) == 1:
        return fs["args"][1][0]
    return None


def fact(f, t, v):
    return f.st.pc.get(t) == v


def variant(f, t=("s", "NODE")):
    x = f.st.pc.get(("var", t))
    return next(iter(x)) if x and len(x) == 1 else None


def attr_facts(f):
    return {k[1][2] for k, v in f.st.pc.items() if k[0] == "b" and isinstance(k[1], tuple) and k[1] and k[1][0] == "hasattr" and v == T}


def occurs(v, word):
    if v == word:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(occurs(x, word) for x in v)
    return False


BYNODE = {
    "child_expr": {"Match": ["C11"], "If": ["C11"], "Loop": ["C13"]},
    "Visitor": {"Return": ["C14"], "Try": ["C15"], "Macro": ["C17"], "Closure": ["C14", "C15"], "Async": ["C14", "C15"],
                "TryBlock": ["C15"], "Item": ["C14", "C15", "C17", "C18"]},
    "LoopVisitor": {"Break": ["C13"]},
}
DEFAULT = {"is_unreachable": ["C12"], "child_expr": ["C27"], "LoopVisitor": ["C13"], "FindNested": ["C28"], "FnVisitor": ["C25"],
           "CollectImplTrait": ["C23"], "expand_parent_expr": ["C25"], "expand_parent_local": ["C25"], "expand_parent_item_fn": ["C25"],
           "expand_parent_stmt": ["C25"], "Dummy": ["C18"]}
ATTRIDS = {"never": ["C19"], "nested": ["C28", "C19"], "rec": ["C19", "C21"], "auto_enum": ["C18"]}


def classify(what, d, oi, os_, st, f):
    """properties a disagreement concerns (every one whose statement speaks
    about the construct)"""
    role = what.split("::")[0]
    ids = set(DEFAULT.get(role, ()))
    nodes = {variant(f)}
    if variant(f) == "Expr":                                  # a statement: its expression
        nodes.add(variant(f, S.sub(("s", "NODE"), ("d", "Expr", STMT), "0")))
    for n in nodes:
        ids |= set(BYNODE.get(role, {}).get(n, ()))
    facts = attr_facts(f)
    if role in ("Visitor", "Dummy"):
        for a in facts:
            ids |= set(ATTRIDS.get(a, ()))
    if "error" in d:
        ids |= {"C21"}
        if role.startswith("expand_parent"):
            ids |= {"C20", "C25"}
        if role == "child_expr":
            ids |= {"C11"}
        if role in ("Visitor", "Dummy"):
            ids |= {"C19"}
    if "collected errors" in d:
        ids |= {"C21"}
        if role in ("Visitor", "Dummy"):
            ids |= {"C19", "C17"}
    if "visitor state" in d and role == "Visitor":
        ids |= {"C14", "C15", "C18"}
    if "markers" in d or "current_marker" in d or "root" in d:
        ids |= {"C17"}
    if "has_child" in d:
        ids |= {"C18", "C20"}
    if "visit_mode" in d or "visit_last_mode" in d:
        ids |= {"C25", "C14", "C15", "C27"}
    if "args" in d or "traits" in d:
        ids |= {"C23", "C16"}
    if "wraps" in d:
        ids |= {"C16"}
    if "node" in d:
        a, b = oi["node"], os_["node"]
        ids |= {"C22"}
        if wraps(a) != wraps(b) or occurs(a, "insert") != occurs(b, "insert"):
            ids |= {"C16"}
        if occurs(a, "enumitem") != occurs(b, "enumitem"):
            ids |= {"C16", "C20"}
        if role.startswith("expand_parent") and occurs(b, "enumitem"):
            ids |= {"C16"}
        if role.startswith("expand_parent"):
            if occurs(a, "child_expr") != occurs(b, "child_expr"):
                ids |= {"C27"}
            if occurs(a, "Dummy") != occurs(b, "Dummy"):
                ids |= {"C18"}
            ids |= {"C20", "C23"} if role == "expand_parent_local" else {"C20"}
        if role == "Visitor" and "auto_enum" in facts:
            ids |= {"C18"}
        if occurs(a, "altered"):
            ids |= {"C16", "C21"} if occurs(a, "span") else {"C18", "C20"}
        if role in ("Visitor", "FnVisitor") or role.startswith("expand_parent"):
            # the state in which the parts of the node are traversed
            ta, tb = walked(a), walked(b)
            if ta != tb:
                for name, i in (("closure", ("C14", "C15")), ("try_block", ("C15",)), ("foreign", ("C17", "C18"))):
                    pick = lambda ts: {x for x in ts if x[0] == name}
                    if pick(ta) != pick(tb):
                        ids |= set(i)
            if role.startswith("expand_parent") and (occurs(a, "Visitor") != occurs(b, "Visitor")):
                ids |= {"C14", "C15", "C18"}
        if occurs(a, "NESTEDIN") or occurs(b, "NESTEDIN"):
            ids |= {"C28"}
    if role == "child_expr":
        if any(k[0] == "b" and isinstance(k[1], tuple) and k[1] and (k[1][0] == "NESTEDIN" or (k[1][0] == "hasattr" and k[1][2] == NESTEDA)) and v == T
               for k, v in f.st.pc.items()):
            ids |= {"C28"}
        if "never" in facts:
            ids |= {"C11", "C19"}
        if "auto_enum" in facts:
            ids |= {"C18"}
    if role == "LoopVisitor" and facts & {"never"}:
        ids |= {"C19"}
    if not ids:
        ids = {"C22"}
    return ids, "%s:%s" % (variant(f) or "*", "+".join(sorted(d)))


def wraps(t, memo=None):
    """how many wraps a node contains"""
    memo = {} if memo is None else memo
    if not isinstance(t, tuple):
        return 0
    if t not in memo:
        n = 1 if t and t[0] == "adt" and len(t) == 4 and t[2] == "Call" and wrapped_in(t) is not None else 0
        memo[t] = n + sum(wraps(x, memo) for x in t)
    return memo[t]


def walked(t, out=None):
    """the flags a traversal was started with"""
    out = set() if out is None else out
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and len(t) == 2 and t[0] in ("closure", "try_block", "foreign"):
            out.add(t)
        for x in t:
            walked(x, out)
    return out


NESTEDA = "nested"

PARENT = {"C16", "C18", "C20", "C21", "C22", "C23", "C25", "C27", "C28", "C14", "C15"}
SPEAKS = {
    "e_unreachable": {"C12"}, "e_loop": {"C13", "C19", "C22", "C16"}, "e_find": {"C28", "C22"}, "e_count": {"C25", "C22"},
    "e_child": {"C11", "C13", "C16", "C18", "C19", "C21", "C22", "C27", "C28"},
    "e_visitor": {"C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25", "C28"},
    "e_dummy": {"C17", "C18", "C19", "C20", "C21", "C22", "C28"},
    "e_parent": PARENT, "e_collect": {"C23"}, "e_attrs": {"C11", "C12", "C13", "C14", "C15", "C18", "C19", "C28"},
}
ENTRIES = {}
for _e, _ids in SPEAKS.items():
    for _p in _ids:
        ENTRIES.setdefault(_p, []).append(_e)


def where_of(I, label):
    n = label.split("::")
    for f in I.d["fns"]:
        if f["local"] and f.get("body") and f["p"].split("::")[-1] == n[-1] and (len(n) == 1 or short_self(f) == n[0]):
            return f.get("span", f["p"])
    return label


def short_self(f):
    return AEM.short(f.get("impl_self") or "?")


FAIL = (Stop, KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError, RecursionError, NotImplementedError)


def reason(x):
    return str(x) if isinstance(x, Stop) else "%s: %s" % (type(x).__name__, str(x)[:200])


def decide_property(I, rep, pid, conf=""):
    for e in ENTRIES.get(pid, []):
        try:
            res = globals()[e](I, rep)
        except FAIL as x:
            rep.undecided("%s%s" % (e, conf), reason(x))
            continue
        if res and isinstance(res[0], tuple) and len(res[0]) == 3 and isinstance(res[0][0], str):
            for key, why, m in res:                      # direct checks
                if e == "e_attrs" and pid != "C19" and (pid not in ATTRHELP.get(m, ()) or ("C19", key) in KNOWN):
                    continue
                rep.viol(key, "%s (in `%s`)" % (why, m), m)
            continue
        if res and not isinstance(res[0][0], str):
            res = [(e[2:] if e != "e_child" else "child_expr", res)]
            res = [("is_unreachable" if n == "unreachable" else n, b) for n, b in res]
        for label, bad in res:
            report_entry(I, rep, pid, label, bad, conf)


def report_entry(I, rep, pid, label, bad, conf):
    got = []
    for b in bad:
        ids, kind = classify(label, *b)
        got.append((ids, kind, b))
    if not got:
        return
    seen = collections.Counter()
    for ids, kind, (d, oi, os_, st, f) in got:
        if pid not in ids:
            continue
        key = "%s:%s" % (label, kind)
        seen[key] += 1
        if seen[key] > 1:
            continue
        facts = "; ".join(show_fact(k, v)[:160] for k, v in list(f.st.pc.items())[:14])
        det = "; ".join("%s: code gives %s, required %s" % (x, show(oi.get(x))[:300], show(os_.get(x))[:300]) for x in d[:3])
        rep.viol(key, "in `%s`%s: %s; when %s" % (label, conf, det, facts), where_of(I, label))


# direct checks: properties each can speak about
DIRECT = {"d_lib": ["C22", "C25"], "d_attribute": ["C21", "C22", "C24", "C25", "C29"], "d_markers": ["C17", "C18", "C29"],
          "d_fresh": ["C16", "C20", "C23", "C24", "C25", "C29"], "d_errors": ["C21"], "d_builder": ["C16", "C22"], "d_total": ["C20", "C21"], "d_args": ["C29"]}


def decide_direct(I, rep, pid, conf=""):
    import ae_direct as D
    for e, ids in DIRECT.items():
        if pid not in ids:
            continue
        f = getattr(D, e)
        try:
            res = f(I, rep) if f.__code__.co_argcount > 1 else f(I)
        except FAIL as x:
            rep.undecided("%s%s" % (e, conf), reason(x))
            continue
        rep.count("direct_checks")
        for got, key, why, fn in res:
            if pid in got:
                rep.viol(key, "%s (in `%s`)%s" % (why, fn, conf), where_of(I, fn))


def make_check(pid):
    def check(Is, rep, tier):
        rep.rule = RULE
        for conf, I in Is:
            decide_property(I, rep, pid, conf)
            decide_direct(I, rep, pid, conf)
            if pid == "C24":
                import ae_det
                ae_det.c24(I, rep, conf)
    return check


RULE = ("each rewriting function is interpreted abstractly on its MIR for an arbitrary syntax node and context; every path (condition, final "
        "state) must agree with the property's decision procedure under every completion of the facts the path leaves open; calls between the "
        "mutually recursive functions are cut and justified by the callee's own analysis")
for _p in sorted(set(ENTRIES) | {p for v in DIRECT.values() for p in v}):
    globals()[_p] = make_check(_p)
