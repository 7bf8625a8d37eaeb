"""What the rewriting functions of #[auto_enum] must do, as decision
procedures over arbitrary syntax nodes (see decide.py)."""
from interp import *
import models as M
import ae as AEM
from decide import *

NAME, NESTED, NEVER = "auto_enum", "nested", "never"
ARMK = "arm"          # any kind other than EXPR: attributes in field `attrs`
PATHS = ["std", "core"]


def sub(t, *path):
    for k in path:
        t = proj(t, k)
    return t


def path_is(f, path, *names):
    """bare last name, or std/core-qualified full path"""
    segs = proj(path, "segments")
    idn = lambda i: proj(proj(segs, ("i", i)), "ident")
    if f.len(segs, "Eq", 1):
        return f.streq(idn(0), names[-1])
    if f.len(segs, "Eq", len(names) + 1):
        if not any(f.streq(idn(0), c) for c in PATHS):
            return False
        return all(f.streq(idn(i + 1), n) for i, n in enumerate(names))
    return False


def mark(f, mac):
    return f.bool(("MARK", ("s", "CX"), mac))


def markx(f, mac):
    return f.bool(("MARKX", ("s", "CX"), mac))


def unreach(f, e):
    return f.bool(("UNREACH", e))


def diverging_macro(f, mac):
    p = proj(mac, "path")
    return path_is(f, p, "panic") or path_is(f, p, "unreachable") or mark(f, mac)


def payload(pl, v, adt=EXPR):
    return (pl[0], pl[1] + (("d", v, adt), "0"))


# ------------------------------------------------------------- is_unreachable
def spec_unreachable(f):
    pl = (("G", "node"), ())
    e = f.get(pl)
    if f.has_path(pl, NEVER) or f.has(pl, NAME):
        return TRUE
    return b2(diverges(f, e))


def diverges(f, e):
    P = lambda v: proj(proj(e, ("d", v, EXPR)), "0")
    for v in ("Block", "Unsafe"):
        if f.is_(e, v):
            return stmt_diverges(f, proj(proj(P(v), "block"), "stmts"))
    if f.is_(e, "Break", "Continue", "Return"):
        return True
    if f.is_(e, "Macro"):
        return diverging_macro(f, proj(P("Macro"), "mac"))
    if f.is_(e, "Match"):
        return not f.exists(proj(P("Match"), "arms"), arm_produces, "arm_produces")
    if f.is_(e, "Try"):
        x = proj(P("Try"), "expr")
        if f.is_(x, "Path"):
            q = sub(x, ("d", "Path", EXPR), "0")
            return not f.opt(proj(q, "qself")) and path_is(f, proj(q, "path"), "option", "Option", "None")
        if f.is_(x, "Call"):
            c = sub(x, ("d", "Call", EXPR), "0")
            if not f.len(proj(c, "args"), "Eq", 1):
                return False
            fn = proj(c, "func")
            if not f.is_(fn, "Path"):
                return False
            q = sub(fn, ("d", "Path", EXPR), "0")
            return not f.opt(proj(q, "qself")) and path_is(f, proj(q, "path"), "result", "Result", "Err")
        return False
    if f.is_(e, "MethodCall"):
        return unreach(f, proj(P("MethodCall"), "receiver"))
    if f.is_(e, "Paren"):
        return unreach(f, proj(P("Paren"), "expr"))
    return False


def arm_produces(f, arm):
    A = AEM.attr_base(proj(arm, "attrs"), NEVER)
    never = f.one(f.I.fork_bool(f.st, ("b", ("hasattr", A, NEVER)))) and f.var(("p", ("attr", A, NEVER), "meta"), AEM.META, "Path")
    return not never and not unreach(f, proj(arm, "body"))


def stmt_diverges(f, stmts):
    if not f.len(stmts, "Ge", 1):
        return False
    s = proj(stmts, ("i", -1))
    V = lambda *n: f.var(s, STMT, *n)
    if V("Expr"):
        return unreach(f, sub(s, ("d", "Expr", STMT), "0"))
    if V("Local"):
        init = sub(s, ("d", "Local", STMT), "0", "init")
        if not f.opt(init):
            return False
        return unreach(f, sub(init, ("d", "Some", "std::option::Option"), "0", "expr"))
    if V("Item"):
        return True
    return diverging_macro(f, sub(s, ("d", "Macro", STMT), "0", "mac"))


# ------------------------------------------------------------------ child_expr
def nestedin(f, t):
    return f.bool(("NESTEDIN", t))


def expr_attr(f, e, lit, empty=True):
    A = AEM.attr_base(proj(e, "@attrs"), lit)
    if A[0] == "seq" and not A[1]:
        return False
    if not f.one(f.I.fork_bool(f.st, ("b", ("hasattr", A, lit)))):
        return False
    return not empty or f.var(("p", ("attr", A, lit), "meta"), AEM.META, "Path")


def block_expr(stmts):
    blk = ("adt", "syn::Block", "Block", (("brace_token", UNIT), ("stmts", stmts)))
    return ("adt", EXPR, "Block", (("0", ("adt", "syn::ExprBlock", "ExprBlock",
                                          (("attrs", ("seq", ())), ("label", NONE), ("block", blk)))),))


def wrap_block(f, pl):
    """{ stmts } -> { Wrap({ stmts }) }"""
    sp = f.sub(pl, "stmts")
    w = f.wrap_value(block_expr(f.get(sp)))
    f.put(sp, ("seq", (("adt", STMT, "Expr", (("0", w), ("1", NONE))),)))


def branch_skipped(f, pl):
    stmts = f.get(f.sub(pl, "stmts"))
    if f.len(stmts, "Ge", 1):
        s = proj(stmts, ("i", -1))
        if f.var(s, STMT, "Expr") and not f.opt(sub(s, ("d", "Expr", STMT), "1")):
            e = sub(s, ("d", "Expr", STMT), "0")
            return expr_attr(f, e, NESTED) or unreach(f, e) or nestedin(f, f.get(pl))
    return stmt_diverges(f, stmts)


def do_if(f, pl, depth):
    if depth > 2:
        raise Cut()
    tb = f.sub(pl, "then_branch")
    if not branch_skipped(f, tb):
        wrap_block(f, tb)
    eb = f.sub(pl, "else_branch")
    if not f.opt(f.get(eb)):
        f.error("missing else")
    e = f.sub(eb, ("d", "Some", "std::option::Option"), "0", "1")
    if f.is_(f.get(e), "Block"):
        b = f.sub(payload(e, "Block"), "block")
        if not branch_skipped(f, b):
            wrap_block(f, b)
    elif f.is_(f.get(e), "If"):
        do_if(f, payload(e, "If"), depth + 1)
    else:
        raise Cut()     # not a program the parser can produce


def spec_child_expr(f):
    cx = f.get(f.CX)
    pl = (("G", "node"), ())
    if f.var(proj(cx, "visit_last_mode"), "auto_enum::context::VisitLastMode", "Never"):
        return UNIT
    if f.var(proj(cx, "visit_mode"), "auto_enum::context::VisitMode", "Try"):
        return UNIT
    e = f.get(pl)
    if unreach(f, e):
        return UNIT
    for v in ("Block", "Unsafe"):
        if f.is_(e, v):
            sp = f.sub(payload(pl, v), "block", "stmts")
            stmts = f.get(sp)
            if f.len(stmts, "Ge", 1):
                l = f.sub(sp, ("i", -1))
                if f.var(f.get(l), STMT, "Expr") and not f.opt(sub(f.get(l), ("d", "Expr", STMT), "1")):
                    f.call("child_expr", f.sub(l, ("d", "Expr", STMT), "0"))
            return UNIT
    if f.is_(e, "Match"):
        ap = f.sub(payload(pl, "Match"), "arms")
        arms = f.get(ap)
        i = 0
        while f.len(arms, "Gt", i):
            if i > f.I.bound + 1:
                raise Cut()
            a = f.sub(ap, ("i", i))
            t = f.get(a)
            if not (f.has_path(a, NEVER, ARMK) or f.has_path(a, NESTED, ARMK) or unreach(f, proj(t, "body")) or nestedin(f, t)):
                f.wrap(f.sub(a, "body"))
            i += 1
        return UNIT
    if f.is_(e, "If"):
        do_if(f, payload(pl, "If"), 0)
        return UNIT
    if f.is_(e, "Loop"):
        lp = payload(pl, "Loop")
        lab = proj(f.get(lp), "label")
        lab = some(sub(lab, ("d", "Some", "std::option::Option"), "0")) if f.opt(lab) else NONE
        V = ("LoopVisitor", (("label", lab), ("nested", FALSE)))
        f.visit(V, ("walk", "visit_block_mut"), f.sub(lp, "body"))
        return UNIT
    if f.is_(e, "MethodCall"):
        f.call("child_expr", f.sub(payload(pl, "MethodCall"), "receiver"))
    elif f.is_(e, "Paren"):
        f.call("child_expr", f.sub(payload(pl, "Paren"), "expr"))
    return UNIT


# ---------------------------------------------------------------------- visitors
VMODE = "auto_enum::context::VisitMode"
VS = ("s", "V")
NODE = (("G", "node"), ())


def scope0():
    return {n: proj(("p", VS, "scope"), n) for n in ("closure", "try_block", "foreign")}


def vtag(role, sc):
    if role == "Visitor":
        return ("Visitor", tuple((n, sc[n]) for n in ("closure", "try_block", "foreign")))
    return (role, ())


def as_call(f, pl):
    """expression at pl becomes Wrap(expression)"""
    f.wrap(pl)


UNITX = ("adt", EXPR, "Tuple", (("0", ("adt", "syn::ExprTuple", "ExprTuple",
                                       (("attrs", ("seq", ())), ("paren_token", UNIT), ("elems", ("seq", ()))))),))


def is_marker_expr(f, e):
    return f.is_(e, "Macro") and mark(f, sub(e, ("d", "Macro", EXPR), "0", "mac"))


def wrap_opt(f, op):
    """Option<Box<Expr>> at op: wrap the value, a missing one as unit"""
    if not f.opt(f.get(op)):
        f.put(op, some(f.wrap_value(UNITX)))
    elif not is_marker_expr(f, f.get(f.sub(op, SOMEK, "0"))):
        f.wrap(f.sub(op, SOMEK, "0"))


SOMEK = ("d", "Some", "std::option::Option")


def known_true(f, t):
    return f.bool(t)


def visit_expr(f, pl, semi, role):
    sc = scope0()
    cxp = f.CX
    if f.has(pl, NAME):
        sc["foreign"] = TRUE
        f.put(f.sub(cxp, "has_child"), TRUE)
    if role == "Visitor":
        e = f.get(pl)
        if f.is_(e, "Closure", "Async"):
            sc["closure"] = TRUE
        if f.is_(e, "TryBlock"):
            sc["try_block"] = TRUE
        mode = f.get(f.sub(cxp, "visit_mode"))
        if f.var(mode, VMODE, "Return"):
            if f.is_(e, "Return") and not f.bool(sc["closure"]) and not f.has_path(pl, NEVER):
                wrap_opt(f, f.sub(payload(pl, "Return"), "expr"))
        elif f.var(mode, VMODE, "Try"):
            if f.is_(e, "Try") and not f.bool(sc["closure"]) and not f.bool(sc["try_block"]) and not f.has_path(pl, NEVER):
                t = sub(e, ("d", "Try", EXPR), "0")
                if not is_marker_expr(f, proj(t, "expr")):
                    w = f.wrap_value(("parsed", EXPR, ("tok", (("i", "err"),))))
                    core = lambda x: tuple(("o", "::") if y == "::" else ("i", y) for y in ("::", "core", "::", "result", "::", "Result", "::", x))
                    arms = ("seq", (("parsed", "syn::Arm", ("tok", core("Ok") + (("g", "(", (("i", "val"),)), ("o", "=>"), ("i", "val"), ("o", ",")))),
                                    ("parsed", "syn::Arm", ("tok", core("Err") + (("g", "(", (("i", "err"),)), ("o", "=>"),
                                     ("g", "{", (("i", "return"),) + core("Err") + (("g", "(", (("v", w),)), ("o", ";"))))))))
                    f.put(pl, ("adt", EXPR, "Match", (("0", ("adt", "syn::ExprMatch", "ExprMatch", (
                        ("attrs", f.get(f.sub(pl, "@attrs"))), ("match_token", UNIT), ("expr", proj(t, "expr")), ("brace_token", UNIT), ("arms", arms)))),)))
        nested_here(f, pl, pl, sc, EXPR)
    mk = None
    if f.has(pl, NAME):
        m = f.meta(pl, NAME)
        f.remove(pl, NAME)
        if f.var(m, AEM.META, "List"):
            mk = make_child(f, sub(m, ("d", "List", AEM.META), "0", "tokens"))
        else:
            mk = "bad"
    f.visit(vtag(role, sc), ("walk", "visit_expr_mut"), pl)
    if mk == "bad":
        f.error("auto_enum without list")
    if mk:
        expand(f, "expand_parent_expr", pl, mk, (b2(semi),))
    if role == "Visitor":
        fo = f.bool(sc["foreign"])
        if not fo or not f.streq(f.get(f.sub(cxp, "current_marker")), "marker"):
            e = f.get(pl)
            if f.is_(e, "Macro"):
                x = sub(e, ("d", "Macro", EXPR), "0")
                mac = proj(x, "mac")
                if markx(f, mac):
                    toks = proj(mac, "tokens")
                    if f.one_of(("parse", EXPR, toks), ("ok", "err")) == "err":
                        f.error("marker argument")
                    f.put(pl, f.wrap_value(("parsed", EXPR, toks), f.get(f.sub(pl, "@attrs"))))
        if not fo:
            clean(f, pl, EXPR)


def nested_here(f, pl, target, sc, kind):
    if not f.bool(sc["foreign"]) and f.has(pl, NESTED, kind):
        p = f.var(f.meta(pl, NESTED, kind), AEM.META, "Path")
        f.remove(pl, NESTED, kind)
        if not p:
            f.error("nested with arguments")
        if target is not None:
            f.call("child_expr", target)


def clean(f, pl, kind):
    if f.has(pl, NEVER, kind):
        p = f.var(f.meta(pl, NEVER, kind), AEM.META, "Path")
        f.remove(pl, NEVER, kind)
        if not p:
            f.error("never with arguments")
    if f.has(pl, "rec", kind):
        f.error("rec")


def make_child(f, toks):
    if f.one_of(("mk", toks), ("ok", "err")) == "err":
        return "bad"
    return (("child", ("s", "CX"), toks), proj(f.get(f.CX), "@E"))


def expand(f, name, pl, mk, extra):
    child, E0 = mk
    node = AEM.canon(f.get(pl))
    tag = (name, child) + extra
    f.put(pl, ("rec", tag, node))
    E = proj(f.get(f.CX), "@E")
    f.put(f.sub(f.CX, "@E"), ("errj", E, ("errw", tag, node, E0)))


def spec_visit_expr_mut(role):
    def spec(f):
        noerr(f)
        visit_expr(f, NODE, False, role)
        return UNIT
    return spec


def noerr(f):
    if f.bool(("HASERR", ("p", ("s", "CX"), "@E"))):
        raise Done()


def spec_visit_stmt_mut(role):
    def spec(f):
        noerr(f)
        pl = NODE
        s = f.get(pl)
        if role == "Visitor" and f.var(s, STMT, "Macro"):
            m = sub(s, ("d", "Macro", STMT), "0")
            if not f.opt(proj(m, "semi_token")) and markx(f, proj(m, "mac")):
                x = ("adt", "syn::ExprMacro", "ExprMacro", (("attrs", proj(m, "attrs")), ("mac", proj(m, "mac"))))
                f.put(pl, ("adt", STMT, "Expr", (("0", ("adt", EXPR, "Macro", (("0", x),))), ("1", NONE))))
                s = f.get(pl)
        if f.var(s, STMT, "Expr"):
            semi = f.opt(sub(s, ("d", "Expr", STMT), "1"))
            visit_expr(f, f.sub(pl, ("d", "Expr", STMT), "0"), semi, role)
            return UNIT
        if f.var(s, STMT, "Item"):
            return UNIT
        sc = scope0()
        v = "Local" if f.var(s, STMT, "Local") else "Macro"
        ip = payload(pl, v, STMT)
        mk = None
        if f.has(ip, NAME, v):
            sc["foreign"] = TRUE
            f.put(f.sub(f.CX, "has_child"), TRUE)
            if v == "Local":
                m = f.meta(ip, NAME, v)
                f.remove(ip, NAME, v)
                if f.var(m, AEM.META, "Path"):
                    mk = make_child(f, ("tok", ()))
                elif f.var(m, AEM.META, "List"):
                    mk = make_child(f, sub(m, ("d", "List", AEM.META), "0", "tokens"))
                else:
                    mk = "bad"
        f.visit(vtag(role, sc), ("walk", "visit_stmt_mut"), pl)
        if mk == "bad":
            f.error("bad attribute")
        if mk:
            expand(f, "expand_parent_stmt", pl, mk, ())
        return UNIT
    return spec


def spec_visit_arm_mut(f):
    noerr(f)
    sc = scope0()
    nested_here(f, NODE, f.sub(NODE, "body"), sc, "arm")
    f.visit(vtag("Visitor", sc), ("walk", "visit_arm_mut"), NODE)
    if not f.bool(sc["foreign"]):
        clean(f, NODE, "arm")
    return UNIT


def spec_visit_local_mut(f):
    noerr(f)
    sc = scope0()
    init = f.sub(NODE, "init")
    if not f.bool(sc["foreign"]) and f.has(NODE, NESTED, "local"):
        nested_here(f, NODE, f.sub(init, SOMEK, "0", "expr") if f.opt(f.get(init)) else None, sc, "local")
    f.visit(vtag("Visitor", sc), ("walk", "visit_local_mut"), NODE)
    if not f.bool(sc["foreign"]):
        clean(f, NODE, "local")
    return UNIT


def spec_walk(role, method):
    def spec(f):
        noerr(f)
        f.visit(vtag(role, scope0()), ("walk", method), NODE)
        return UNIT
    return spec


# ------------------------------------------------------------------ LoopVisitor
VLAB = ("p", VS, "label")
LABEL_SOME = ("p", ("p", ("p", VLAB, ("d", "Some", "std::option::Option")), "0"), "*")


def loop_state(f, nested=None):
    return ("LoopVisitor", (("label", f.label), ("nested", proj(VS, "nested") if nested is None else nested)))


def same_label(f, name):
    """the analysed loop's label is `name` (a lifetime)"""
    if not f.opt(VLAB):
        return False
    return f.bool(M.str_eq(f.I, f.st, proj(name, "ident"), sub(LABEL_SOME, "name", "ident")))


def shadows(f, label):
    """an inner loop or block reuses the analysed loop's label"""
    return f.opt(VLAB) and f.opt(label) and same_label(f, sub(label, SOMEK, "0", "name"))


def spec_loop(f):
    f.label = VLAB
    if f.has_path(NODE, NEVER):
        return UNIT
    e = f.get(NODE)
    if f.is_(e, "Closure", "Async"):
        return UNIT
    P = lambda v: sub(e, ("d", v, EXPR), "0")
    if f.is_(e, "ForLoop"):
        # the iterator is evaluated outside of that loop
        f.visit(loop_state(f), ("visit", "visit_expr_mut"), f.sub(payload(NODE, "ForLoop"), "expr"))
        if f.opt(VLAB) and not shadows(f, proj(P("ForLoop"), "label")):
            f.visit(loop_state(f, TRUE), ("walk", "visit_block_mut"), f.sub(payload(NODE, "ForLoop"), "body"))
        return UNIT
    for v in ("Loop", "While"):
        if f.is_(e, v):
            if f.opt(VLAB) and not shadows(f, proj(P(v), "label")):
                f.visit(loop_state(f, TRUE), ("walk", "visit_expr_mut"), NODE)
            return UNIT
    if f.is_(e, "Block") and shadows(f, proj(P("Block"), "label")):
        return UNIT
    if f.is_(e, "Break"):
        lab = proj(P("Break"), "label")
        own = same_label(f, sub(lab, SOMEK, "0")) if f.opt(lab) else not f.bool(proj(VS, "nested"))
        if own:
            wrap_opt(f, f.sub(payload(NODE, "Break"), "expr"))
    f.visit(loop_state(f), ("walk", "visit_expr_mut"), NODE)
    return UNIT


# ------------------------------------------------------------------- FindNested
def spec_find(kind):
    """an annotation #[nested] belonging to this auto_enum makes it true"""
    def spec(f):
        if kind != "arm" and f.has(NODE, NAME, kind):
            return UNIT
        if f.has_path(NODE, NESTED, kind):
            f.put((("G", "vis"), ("has",)), TRUE)
            return UNIT
        f.on_visitor(("FindNested", ()), ("walk", "visit_%s_mut" % ("expr" if kind == EXPR else kind)), NODE)
        return UNIT
    return spec


# -------------------------------------------------------------------- FnVisitor
def is_marker_of(f, e):
    return f.is_(e, "Macro") and mark(f, sub(e, ("d", "Macro", EXPR), "0", "mac"))


def spec_count_expr(f):
    VIS = (("G", "vis"), ())
    closure = proj(("p", VS, "scope"), "closure")
    e = f.get(NODE)
    if f.is_(e, "Closure", "Async"):
        closure = TRUE
    if not f.bool(closure) and not f.has_path(NODE, NEVER):
        c = None
        if f.is_(e, "Try"):
            if not is_marker_of(f, sub(e, ("d", "Try", EXPR), "0", "expr")):
                c = "try_"
        elif f.is_(e, "Return"):
            x = sub(e, ("d", "Return", EXPR), "0", "expr")
            if not (f.opt(x) and is_marker_of(f, sub(x, SOMEK, "0"))):
                c = "return_"
        if c:
            pl = f.sub(VIS, "count", c)
            f.put(pl, f.I.binop("Add", f.get(pl), const(1)))
    f.on_visitor(("FnVisitor", (("closure", closure),)), ("walk", "visit_expr_mut"), NODE)
    return UNIT


def spec_count_stmt(f):
    if f.var(f.get(NODE), STMT, "Item"):
        return UNIT
    f.on_visitor(("FnVisitor", (("closure", proj(("p", VS, "scope"), "closure")),)), ("walk", "visit_stmt_mut"), NODE)
    return UNIT


# ---------------------------------------------------------------- type analysis
KNOWN = """Clone Copy PartialEq Eq PartialOrd Ord Hash AsRef AsMut Debug fmt::Debug Display fmt::Display fmt::Binary
fmt::LowerExp fmt::LowerHex fmt::Octal fmt::Pointer fmt::UpperExp fmt::UpperHex fmt::Write Iterator DoubleEndedIterator
ExactSizeIterator FusedIterator TrustedLen Extend Deref DerefMut Index IndexMut RangeBounds Fn FnMut FnOnce Coroutine
Future Read io::Read BufRead io::BufRead Write io::Write Seek io::Seek Error error::Error""".split()
BOUND = "syn::TypeParamBound"
TRAITS = (("M", ("p", VS, "traits")), ())


def bound_path(i):
    """the bound's path without generic arguments"""
    segs = sub(("s", "NODE"), "bounds", ("i", i), ("d", "Trait", BOUND), "0", "path", "segments")
    seg = ("adt", "syn::PathSegment", "PathSegment", (("ident", ("p", ("elem", segs), "ident")), ("arguments", ("adt", "syn::PathArguments", "None", ()))))
    return ("adt", "syn::Path", "Path", (("leading_colon", NONE), ("segments", ("mapseq", segs, seg))))


def path_str(p):
    return ("tostr", ("tok", (("v", p),)))


def spec_collect(f):
    VIS = (("G", "vis"), ())
    f.on_visitor(("CollectImplTrait", ()), ("walk", "visit_type_impl_trait_mut"), NODE)
    bounds = proj(("s", "NODE"), "bounds")
    i = 0
    while f.len(bounds, "Gt", i):
        if i > 2:
            raise Cut()
        if f.var(proj(bounds, ("i", i)), BOUND, "Trait"):
            p = bound_path(i)
            key = ("replace", path_str(p), const(" "), const(""))
            if any(f.one(f.I.fork_str(f.st, key, n)) for n in KNOWN):
                f.put(f.sub(VIS, "has_impl_trait"), TRUE)

                def same_path(g, x, p=p):
                    a, b = sorted((path_str(p), path_str(x)), key=repr)
                    return g.bool(("eq", a, b))
                same_path.__qualname__ = "same_path%d" % i
                args, traits = ("p", ("p", VS, "args"), "*"), f.get(TRAITS)
                if not f.exists(args, same_path, "in args") and not f.exists(traits, same_path, "in traits"):
                    f.put(TRAITS, ("push", f.get(TRAITS), p))
        i += 1
    return UNIT


# ------------------------------------------------------------- annotated places
LMODE = "auto_enum::context::VisitLastMode"
FRESH = {"closure": FALSE, "try_block": FALSE, "foreign": FALSE}
RET, TYPE = "syn::ReturnType", "syn::Type"


def cxsub(f, *k):
    return f.sub(f.CX, *k)


def mode(v, *fields):
    return ("adt", VMODE, v, tuple(("%d" % i, x) for i, x in enumerate(fields)))


def is_dummy(f):
    return f.len(f.get(cxsub(f, "args")), "Eq", 0) and f.len(f.get(cxsub(f, "traits")), "Eq", 0)


def visit_as(f, role, method, pl):
    walk = method not in f.A.overrides.get(role, {})
    f.visit(vtag(role, FRESH), ("walk" if walk else "visit", method), pl)


def visits_last(f):
    return not f.var(f.get(cxsub(f, "visit_last_mode")), LMODE, "Never") and not f.var(f.get(cxsub(f, "visit_mode")), VMODE, "Try")


def count(f, what, pl):
    return ("COUNT", what, f.get(pl))


def few_returns(f):
    """inferred traits, no branch found and fewer than two returns"""
    m = f.get(cxsub(f, "visit_mode"))
    return (f.A.analysis and f.var(m, VMODE, "Return") and f.len(f.get(cxsub(f, "args")), "Eq", 0)
            and f.len(f.get(cxsub(f, "builder", "variants")), "Eq", 0)
            and f.int(sub(m, ("d", "Return", VMODE), "0"), "Lt", 2))


def expand_expr(f, pl):
    body = pl
    if f.is_(f.get(pl), "Closure") and visits_last(f):
        body = f.sub(payload(pl, "Closure"), "body")
        f.put(cxsub(f, "visit_mode"), mode("Try") if f.int(count(f, "try", body), "Ge", 2) else mode("Return", count(f, "return", body)))
    f.call("child_expr", body)
    if few_returns(f):
        visit_as(f, "Dummy", "visit_expr_mut", body)
    else:
        visit_as(f, "Visitor", "visit_expr_mut", body)


def build(f, place, kind):
    if f.haserr():
        raise Done()
    b = f.get(cxsub(f, "builder"))
    vs = proj(b, "variants")
    if f.len(vs, "Eq", 0):
        if not f.bool(f.get(cxsub(f, "has_child"))):
            f.error("no branch")
        return
    if f.len(vs, "Eq", 1):
        f.error("one branch")
    item = ("enumitem", b, f.get(cxsub(f, "args")), f.get(cxsub(f, "traits")))
    st_item = ("adt", STMT, "Item", (("0", ("adt", "syn::Item", "Enum", (("0", item),))),))
    if kind == "expr":
        stmts = ("seq", (st_item, ("adt", STMT, "Expr", (("0", f.get(place)), ("1", NONE)))))
        f.put(place, block_expr(stmts))
    else:
        f.put(place, ("insert", f.get(place), st_item))


def parent_expr(f, pl, semi):
    if f.bool(semi):
        f.put(cxsub(f, "visit_last_mode"), ("adt", LMODE, "Never", ()))
    if is_dummy(f):
        visit_as(f, "Dummy", "visit_expr_mut", pl)
        return
    expand_expr(f, pl)
    build(f, pl, "expr")


def collect(f, pl):
    if not f.A.analysis:
        return FALSE
    ty, a, t = f.get(pl), f.get(cxsub(f, "args")), cxsub(f, "traits")
    old = f.get(t)
    f.put(t, ("collected", ty, a, old))
    return ("COLLECTS", ty, a, old)


def parent_local(f, pl):
    pat = f.sub(pl, "pat")
    if f.A.analysis and f.var(f.get(pat), "syn::Pat", "Type"):
        pt = f.sub(pat, ("d", "Type", "syn::Pat"), "0")
        if f.bool(collect(f, f.sub(pt, "ty"))):
            f.put(pat, f.get(f.sub(pt, "pat")))
    if is_dummy(f):
        visit_as(f, "Dummy", "visit_local_mut", pl)
        return
    init = f.sub(pl, "init")
    if not f.opt(f.get(init)):
        f.error("uninitialized")
    e = f.sub(init, SOMEK, "0", "expr")
    expand_expr(f, e)
    build(f, e, "expr")


def parent_fn(f, pl):
    out = f.get(f.sub(pl, "sig", "output"))
    block = f.sub(pl, "block")
    if f.var(out, RET, "Type"):
        typ = f.sub(pl, "sig", "output", ("d", "Type", RET), "1")
        ty = f.get(typ)
        never = f.var(f.get(cxsub(f, "visit_last_mode")), LMODE, "Never")
        if f.var(ty, TYPE, "ImplTrait"):
            if not never:
                f.put(cxsub(f, "visit_mode"), mode("Return", count(f, "return", block)))
        elif f.var(ty, TYPE, "Path") and not never and result_of_impl(f, sub(ty, ("d", "Path", TYPE), "0")):
            if f.int(count(f, "try", block), "Ge", 2):
                f.put(cxsub(f, "visit_mode"), mode("Try"))
        collect(f, typ)
    if is_dummy(f):
        visit_as(f, "Dummy", "visit_item_fn_mut", pl)
        return
    sp = f.sub(block, "stmts")
    if not f.len(f.get(sp), "Ge", 1):
        f.error("empty function")
    l = f.sub(sp, ("i", -1))
    if f.var(f.get(l), STMT, "Expr") and not f.opt(sub(f.get(l), ("d", "Expr", STMT), "1")):
        f.call("child_expr", f.sub(l, ("d", "Expr", STMT), "0"))
    if few_returns(f):
        visit_as(f, "Dummy", "visit_item_fn_mut", pl)
        return
    visit_as(f, "Visitor", "visit_item_fn_mut", pl)
    build(f, sp, "stmts")


def result_of_impl(f, tp):
    """Result<T, impl Trait>"""
    if f.opt(proj(tp, "qself")):
        return False
    path = proj(tp, "path")
    a = sub(path, "segments", ("i", -1), "arguments")
    PA, GA = "syn::PathArguments", "syn::GenericArgument"
    if not f.var(a, PA, "AngleBracketed"):
        return False
    g = sub(a, ("d", "AngleBracketed", PA), "0")
    args = proj(g, "args")
    if f.opt(proj(g, "colon2_token")) or not f.len(args, "Eq", 2) or not path_is(f, path, "result", "Result"):
        return False
    x = lambda i: proj(args, ("i", i))
    return f.var(x(0), GA, "Type") and f.var(x(1), GA, "Type") and f.var(sub(x(1), ("d", "Type", GA), "0"), TYPE, "ImplTrait")


def spec_parent(kind):
    def spec(f):
        if kind == "expr":
            parent_expr(f, NODE, ("s", "SEMI"))
        elif kind == "local":
            parent_local(f, NODE)
        elif kind == "fn":
            parent_fn(f, NODE)
        else:
            s = f.get(NODE)
            if f.var(s, STMT, "Expr"):
                f.call_parent("expand_parent_expr", f.sub(NODE, ("d", "Expr", STMT), "0"), b2(f.opt(sub(s, ("d", "Expr", STMT), "1"))))
            elif f.var(s, STMT, "Local"):
                f.call_parent("expand_parent_local", payload(NODE, "Local", STMT))
            elif f.var(s, STMT, "Item"):
                it = payload(NODE, "Item", STMT)
                if not f.var(f.get(it), "syn::Item", "Fn"):
                    f.error("not a function")
                f.call_parent("expand_parent_item_fn", payload(it, "Fn", "syn::Item"))
        return UNIT
    return spec
