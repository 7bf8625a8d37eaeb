"""C26: no input reaches a panicking operation of the crate.

Every function is analysed for an arbitrary node and context (ae_checks,
ae_direct) or an arbitrary enum and argument list (derive side); a path that
ends in a panic, an assertion, an overflow check or an out-of-range access is
an alarm unless its condition contradicts the facts the callers establish,
which are themselves obligations checked here (PRECONDITIONS)."""
import itertools
from interp import *
import ae as AEM
import ae_checks as C
import ae_direct as DR
import models as M
from decide import show, show_fact

AE_ENTRIES = ("e_unreachable", "e_child", "e_visitor", "e_dummy", "e_loop", "e_find", "e_count", "e_collect", "e_parent", "e_attrs")


def impossible(p):
    """the condition contradicts what a parsed syntax tree is"""
    for k, v in p["st"].pc.items():
        if v == frozenset():
            return "contradiction"
        if k[0] == "int" and isinstance(k[1], tuple) and k[1][0] == "len" and isinstance(v, tuple) and v[1] == 0:
            t = k[1][1]
            if isinstance(t, tuple) and t[0] == "p" and t[2] == "segments":
                return "a parsed path has at least one segment"
    return None


def drain(I, rep, where, conf):
    for p in I.panics:
        w = impossible(p)
        if w:
            rep.add("discharged", "%s in `%s`: %s" % (text(p), owner(p), w))
            continue
        rep.viol("panic:%s:%s" % (owner(p), text(p)), "`%s` can panic (%s) in %s%s; when %s" % (
            owner(p), text(p), where, conf, "; ".join(show_fact(k, v)[:160] for k, v in list(p["st"].pc.items())[:14])), owner(p))
    rep.count("panic_sites_reached", len(I.panics))
    I.panics.clear()


def owner(p):
    for f in reversed(p["stack"]):
        if not f.split("<")[0].startswith(("std::", "core::", "alloc::")) and not f.startswith(("std", "core")):
            return f
    return p["fn"]


def text(p):
    m = p["msg"]
    if isinstance(m, tuple):
        m = m[1] if len(m) > 1 and m[0] == "c" else show(m)[:80]
    return "%s%s" % (p["what"] if isinstance(p["what"], str) else show(p["what"])[:80], " %s" % m if m else "")


def contexts(I, rep, conf):
    """`Context` panics when dropped unchecked: every context that is made
    is checked or joined on every path; `make_child` is given a context that
    knows it has a child"""
    w = DR.World(I)
    needs = precond_has_child(I)

    def ob(what, rows):
        for _, s in rows:
            if s.cut or any(e[0] == "EXT" for e in s.ev):
                continue
            made = [e for e in s.ev if e[0] == "MAKECHILD"]
            joined = [e for e in s.ev if e[0] == "JOIN"]
            rep.count("context_obligations")
            if len(joined) != len(made):
                rep.viol("drop:%s" % what, "a nested context is made %d times but joined %d times on a path of `%s`: it panics when dropped" %
                         (len(made), len(joined), what), what)
            if needs:
                for e in made:
                    if len(e) > 3 and e[3] != TRUE:
                        rep.viol("has_child:%s" % what, "`make_child` is called in `%s` with a context whose `has_child` is not set: its assertion fails" % what, what)
    return ob


def precond_has_child(I):
    """does make_child panic for a context without the flag"""
    w = DR.World(I)
    w.root(0, None)
    n = len(I.panics)
    try:
        cx = w.st.mem[("G", "c0")]
        I.store(w.st, ("G", "c0"), ("has_child",), FALSE)
        w.I.exec_fn(DR.method(I, "Context", "make_child"), [w.ref(0), ("s", "SPAN1"), w.toks(1, None)], w.st)
    except Stop:
        pass
    r = len(I.panics) > n
    del I.panics[n:]
    return r


def roots(I, rep, conf):
    """attribute: the root context is checked on every path"""
    A = C.setup(I, C.TOP | {"expand_parent_expr", "expand_parent_stmt", "root", "check"})
    fid = [f["id"] for f in I.d["fns"] if f["local"] and f.get("body") and f["p"] == "auto_enum::attribute"]
    if not fid:
        raise Stop("anchor function `auto_enum::attribute` not found")
    for ret, s in I.exec_fn(fid[0], [("s", "ARGS"), ("s", "INPUT")], A.state()):
        if s.cut or DR.unk(s):
            continue
        mk = [v for k, v in s.pc.items() if k[0] == "mkroot"]
        n = len([e for e in s.ev if e[0] == "CHECK"])
        rep.count("context_obligations")
        if mk and mk[0] == frozenset(["ok"]) and n != 1:
            rep.viol("drop:attribute", "the root context is not checked on a path of `auto_enum::attribute`: it panics when dropped", "auto_enum::attribute")


def auto(I, rep, tier, conf):
    I.panics.clear()
    try:
        ob = contexts(I, rep, conf)
    except C.FAIL as x:
        rep.undecided("contexts" + conf, C.reason(x))
        ob = lambda what, rows: None
    I.row_obs = [ob]
    for e in AE_ENTRIES:
        try:
            getattr(C, e)(I, rep)
        except C.FAIL as x:
            rep.undecided(e + conf, C.reason(x))
        drain(I, rep, "the analysis of an arbitrary node", conf)
    I.row_obs = []
    for e in list(C.DIRECT) + [roots]:
        f = e if callable(e) else getattr(DR, e)
        try:
            f(I, rep, conf) if e is roots else f(I, rep) if f.__code__.co_argcount > 1 else f(I)
        except C.FAIL as x:
            rep.undecided("%s%s" % (f.__name__, conf), C.reason(x))
        drain(I, rep, "`%s`" % f.__name__, conf)


def derive(I, rep, tier, conf):
    import derive_side as ds
    import derive_checks as DC
    import oracle
    from toks import BadTokens
    I.panics.clear()
    vs = (1, 2) if tier == "quick" else (1, 2, 3, 4)
    for t in oracle.TRAITS:
        for n in vs:
            try:
                oks, errs, bad = ds.run_macro(I, [t.names[0]], n)
            except C.FAIL + (BadTokens,) as x:
                rep.undecided("enum_derive(%s)%s" % (t.names[0], conf), C.reason(x))
                continue
            rep.count("expansions", len(oks) + len(errs))
            for b in bad:
                if "derive_utils panics" in b:
                    rep.viol("panic:%s" % t.names[0], "enum_derive(%s)%s: %s" % (t.names[0], conf, b), "src/derive")
            drain(I, rep, "enum_derive(%s)" % t.names[0], conf)
    try:
        DC.symbolic_names(I, common_report())
    except C.FAIL + (BadTokens,) as x:
        rep.undecided("argument lists of unknown names" + conf, C.reason(x))
    drain(I, rep, "argument lists of unknown names", conf)
    k = 3 if tier == "quick" else 4
    for g in range(k):
        G = ["T%d" % i for i in range(g)]
        for m in range(1, k):
            for f in itertools.product(G + ["U"], repeat=m):
                for trail in ((False, True) if g else (False,)):
                    try:
                        ds.run_concrete(I, [oracle.TRANSPOSE[0]], G, list(f), trail)
                    except C.FAIL + (BadTokens,) as x:
                        rep.undecided("enum_derive(Transpose)" + conf, C.reason(x))
                    rep.count("expansions")
            drain(I, rep, "enum_derive(Transpose)", conf)
    for l in DC.MIXED + [list(x) for g in DC.GROUPS for x in itertools.permutations(g, 2)] + [[]]:
        try:
            ds.run_macro(I, l, 2)
        except C.FAIL + (BadTokens,) as x:
            rep.undecided("enum_derive(%s)%s" % (", ".join(l), conf), C.reason(x))
        rep.count("expansions")
        drain(I, rep, "enum_derive(%s)" % ", ".join(l), conf)


def common_report():
    import common
    return common.Report("C26")


def C26(Is, rep, tier):
    rep.rule = __doc__
    for conf, I in Is:
        tol, I.tolerant = I.tolerant, False
        derive(I, rep, tier, conf)
        I.tolerant = tol
        auto(I, rep, tier, conf)
