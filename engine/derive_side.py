"""Expansions of the derive functions of #[enum_derive]: the token streams they
build (from the abstract interpretation) are flattened with the documented
meaning of derive_utils, parsed, and returned as items."""
import interp
from interp import St, Stop, FALSE, TRUE
import toks
from toks import norm, lex, BadTokens

CX = ("L", 0, "cx")
DATA = ("parsed", "derive_utils::EnumData", ("s", "INPUT"))


def path_value(name):
    """a syn::Path spelled `name`"""
    segs = []
    for x in name.lstrip(":").split("::"):
        segs.append(("adt", "syn::PathSegment", "PathSegment", (("ident", ("ident", ("c", x))), ("arguments", ("adt", "syn::PathArguments", "None", ())))))
    lc = interp.some(("s", "colon2")) if name.startswith("::") else interp.NONE
    return ("adt", "syn::Path", "Path", (("leading_colon", lc), ("segments", ("seq", tuple(segs)))))


def path_token(name):
    v = path_value(name)
    t = {"Path": v}
    if "::" not in name:
        t["Ident"] = ("ident", ("c", name))
    return t


COMMA = {"Comma": ("s", "comma")}


def arg_tokens(names, trailing=False):
    out = []
    for i, n in enumerate(names):
        if i:
            out.append(COMMA)
        out.append(path_token(n) if isinstance(n, str) else n)
    if trailing and names:
        out.append(COMMA)
    return out


class Sim:
    def __init__(self, n):
        self.n = n
        self.T = [(("v", "T%d" % i),) for i in range(n)]
        self.V = [("v", "V%d" % i) for i in range(n)]

    # ----------------------------------------------------------- flatten
    def flat(self, els):
        out = []
        for e in els:
            if e[0] == "g":
                out.append(("g", e[1], self.flat(e[2])))
            elif e[0] == "v":
                out += self.sym(e[1])
            else:
                out.append(e)
        return tuple(out)

    def sym(self, x):
        t = x[0]
        if isinstance(x, str):
            return [("v", x)]
        if t == "s" and isinstance(x[1], str):
            return [("v", x[1])]
        if x == DATA or (t == "into" and x[2] == DATA):
            return [("v", "ENUM")]
        if t == "p" and self.enum(x[1]) and x[2] == "ident":
            return [("v", "E")]
        if t == "p" and self.enum(x[1]) and x[2] == "generics":
            return [("o", "<"), ("v", "EG"), ("o", ">")]
        if t == "adt" and x[1] == "derive_utils::EnumData":
            return [("v", "ENUM")]
        if t == "gen" and (x[2][0] == "p" and self.enum(x[2][1]) and x[2][2] == "generics" or x[2][0] == "adt" and x[2][1] == "syn::Generics"):
            return [("v", {"impl": "IMPLG", "ty": "TYG", "where": "WHERE"}[x[1]])]
        if t == "parsed":
            return list(self.flat(x[2][1])) if x[2][0] == "tok" else [("v", repr(x))]
        if t == "tok":
            return list(self.flat(x[1]))
        if t == "ident":
            if x[1][0] == "c":
                return [("i", x[1][1])]
            return [("v", repr(x))]
        if t == "c":
            return [("i", str(x[1]))]
        if t == "into":
            return self.sym(x[2])
        if t == "adt" and x[1] == "syn::Type" and x[2] == "Path":
            import models
            y = models.spelled(x)
            return [("v", y[0])] if y and len(y) == 1 and y[0][0] == "T" else [("v", repr(x))]
        if t == "adt" and x[1] == "syn::Generics":
            return [("o", "<"), ("v", "EG"), ("o", ">")]
        if t == "adt" and x[1] == "syn::GenericParam":
            return self.sym(x[3][0][1])
        if t == "derive_trait":
            return self.impl_tokens(self.from_trait(x[2], x[3], x[4]))
        if t in ("built", "implof", "enumimpl"):
            return self.impl_tokens(self.impl(x))
        if t == "ov":
            b = x
            while b[0] == "ov":
                b = b[1]
            if b[0] == "implof":
                return self.impl_tokens(self.impl(x))
            if self.enum(b):
                return self.enum_tokens(x, b)
        if t == "adt" and x[1] == "std::option::Option":
            return [] if x[2] == "None" else self.sym(x[3][0][1])
        if t == "seq":
            out = []
            for y in x[1]:
                out += self.sym(y)
            return out
        return [("v", repr(x))]

    def enum(self, x):
        while x[0] == "into" or x[0] == "p" and x[2] == "*":
            x = x[2] if x[0] == "into" else x[1]
        return x == DATA or x[0] == "adt" and x[1] == "derive_utils::EnumData"

    def enum_tokens(self, x, b):
        """the user's enum with changed fields"""
        pre, post, other = [], [], []
        while x[0] == "ov":
            for f, v in x[2]:
                if f != "attrs":
                    other.append(f)
                    continue
                while not (v[0] == "p" and v[2] == "attrs"):
                    if v[0] == "push":
                        post.insert(0, v[2])
                        v = v[1]
                    elif v[0] == "insert":
                        pre.append(v[2])
                        v = v[1]
                    elif v[0] == "extend":
                        post = seq_elems(v[2]) + post
                        v = v[1]
                    else:
                        raise BadTokens("attributes of the enum are replaced by %r" % (v,))
            x = x[1]
        out = []
        for a in pre:
            out += self.sym(a)
        for f in other:
            out += [("o", "#"), ("g", "[", (("v", "CHANGED_" + f),))]
        for a in post:
            out += self.sym(a)
        out.append(("v", "ENUM"))
        return out

    # --------------------------------------------------- derive_utils model
    def idents(self, sup):
        if sup[0] == "adt" and sup[1] == "std::option::Option":
            return [] if sup[2] == "None" else [self.sym(sup[3][0][1])[0][1]]
        if sup[0] == "seq":
            return [self.sym(x)[0][1] for x in sup[1]]
        raise BadTokens("supertrait types %r" % (sup,))

    def base(self):
        return {"unsafe": False, "params": [], "where": [], "trait": None, "self": (("v", "E"), ("v", "TYG")), "items": [],
                "attrs": [(("i", "automatically_derived"),)]}

    def from_trait(self, path, sup, tdef):
        ptoks = norm(self.sym(path))
        d = toks.parse_trait(self.sym(tdef))
        sup = self.idents(sup)
        im = self.base()
        names = []
        for g in d["generics"]:
            names.append(g[1] if g[0] == ("i", "const") else g[0])
        tr = ptoks
        if d["generics"]:
            tr = ptoks + (("o", "<"),)
            for k, n in enumerate(names):
                tr += ((("o", ","),) if k else ()) + (n,)
            tr += (("o", ">"),)
        types = [m["name"] for m in d["items"] if m["kind"] == "type"]
        if sup and d["supers"]:
            types += sup
        im["where"].append(self.T[0] + (("o", ":"),) + tr)
        for i in range(1, self.n):
            bind = []
            for a in types:
                b = (("i", a), ("o", "="), ("o", "<")) + self.T[0] + (("i", "as"),) + tr + (("o", ">"), ("o", "::"), ("i", a))
                bind.append(b)
            args = [(x,) for x in names] + bind
            w = self.T[i] + (("o", ":"),) + ptoks
            if args:
                w += (("o", "<"),)
                for k, a in enumerate(args):
                    w += ((("o", ","),) if k else ()) + a
                w += (("o", ">"),)
            im["where"].append(w)
        im["params"] += d["generics"]
        im["where"] += d["where"]
        im["unsafe"] = d["unsafe"]
        im["trait"] = tr
        self.append_items(im, d)
        return im

    def append_items(self, im, d):
        for m in d["items"]:
            if m["kind"] == "type":
                im["items"].append((("i", "type"), ("i", m["name"]), ("o", "="), ("o", "<")) + self.T[0] + (("i", "as"),) + (im["trait"] or ()) +
                                   (("o", ">"), ("o", "::"), ("i", m["name"]), ("o", ";")))
            elif m["kind"] == "fn":
                self.push_method(im, m)

    def push_method(self, im, m):
        if m["body"] is not None:
            raise BadTokens("method `%s` has a body: derive_utils panics" % m["name"])
        if not m["params"] or not any(e == ("i", "self") for e in m["params"][0]):
            raise BadTokens("method `%s` has no receiver: derive_utils panics" % m["name"])
        if recv(m["params"][0]) not in ("&", "m", "s"):
            raise BadTokens("method `%s` has a receiver derive_utils panics on" % m["name"])
        args = []
        for prm in m["params"][1:]:
            p = toks.P(prm)
            p.attrs()
            args.append(p.until(lambda e: e == ("o", ":")))
        arms = ()
        for i in range(self.n):
            if im["trait"] is None:
                c = (("i", "x"), ("o", "."), ("i", m["name"]))
                al = args
            else:
                c = (("o", "<"),) + self.T[i] + (("i", "as"),) + im["trait"] + (("o", ">"), ("o", "::"), ("i", m["name"]))
                al = [(("i", "x"),)] + args
            cargs = ()
            for k, a in enumerate(al):
                cargs += ((("o", ","),) if k else ()) + a
            arms += (("v", "E"), ("o", "::"), self.V[i], ("g", "(", (("i", "x"),)), ("o", "=>")) + c + (("g", "(", cargs), ("o", ","))
        out = ()
        for a in m["attrs"]:
            out += (("o", "#"), ("g", "[", a))
        out += tuple(("lit", q) if q.startswith('"') else ("i", q) for q in m["quals"]) + (("i", "fn"), ("i", m["name"]))
        if m["generics"]:
            out += (("o", "<"),)
            for k, g in enumerate(m["generics"]):
                out += ((("o", ","),) if k else ()) + g
            out += (("o", ">"),)
        ps = ()
        for k, q in enumerate(m["params"]):
            ps += ((("o", ","),) if k else ()) + q
        out += (("g", "(", ps),)
        if m["ret"]:
            out += (("o", "->"),) + m["ret"]
        if m["where"]:
            out += (("i", "where"),)
            for k, w in enumerate(m["where"]):
                out += ((("o", ","),) if k else ()) + w
        out += (("g", "{", (("i", "match"), ("i", "self"), ("g", "{", arms))),)
        im["items"].append(out)

    def impl(self, x):
        """value of type EnumImpl or ItemImpl -> description"""
        t = x[0]
        if t in ("built", "implof"):
            return self.impl(x[1])
        if t == "enumimpl":
            im = None
            for op in x[1]:
                k = op[0]
                if k == "new":
                    im = self.base()
                elif k == "from_trait":
                    im = self.from_trait(op[2], op[3], op[4])
                elif k == "set_trait":
                    im["trait"] = norm(self.sym(op[1]))
                elif k == "push_generic_param":
                    im["params"].append(norm(self.sym(op[1])))
                elif k == "push_where_predicate":
                    im["where"].append(norm(self.sym(op[1])))
                elif k == "push_item":
                    im["items"].append(norm(self.sym(op[1])))
                elif k == "push_method":
                    m = toks.parse_members(norm(self.sym(op[1])))
                    self.push_method(im, m[0])
                elif k == "append_items_from_trait":
                    d = toks.parse_trait(self.sym(op[1]))
                    self.append_items(im, d)
                else:
                    raise BadTokens("EnumImpl::%s" % k)
            return im
        if t == "ov":
            im = self.impl(x[1])
            for f, v in x[2]:
                if f == "items":
                    im["items"] = self.items(v)
                elif f == "self_ty":
                    im["self"] = norm(self.sym(v))
                elif f == "attrs":
                    im["attrs"] = [norm(self.sym(y)) for y in seq_elems(v)]
                else:
                    raise BadTokens("assignment to the impl's %s" % (f,))
            return im
        raise BadTokens("impl value %r" % (x,))

    def items(self, v):
        if v[0] == "p" and v[2] == "items":
            return list(self.impl(v[1])["items"])
        if v[0] == "push":
            return self.items(v[1]) + [norm(self.sym(v[2]))]
        if v[0] == "insert":
            return [norm(self.sym(v[2]))] + self.items(v[1])
        if v[0] == "extend":
            return self.items(v[1]) + self.items(v[2])
        if v[0] == "seq":
            return [norm(self.sym(y)) for y in v[1]]
        raise BadTokens("impl items %r" % (v[0],))

    def impl_tokens(self, im):
        out = []
        for a in im["attrs"]:
            out += [("o", "#"), ("g", "[", a)]
        if im["unsafe"]:
            out.append(("i", "unsafe"))
        out.append(("i", "impl"))
        if im["params"]:
            out += [("o", "<"), ("v", "EG")]
            for p in im["params"]:
                out += [("o", ",")] + list(p)
            out.append(("o", ">"))
        else:
            out.append(("v", "IMPLG"))
        if im["trait"] is not None:
            out += list(im["trait"]) + [("i", "for")]
        out += list(im["self"])
        if im["where"]:
            out += [("i", "where"), ("v", "EW")]
            for p in im["where"]:
                out += [("o", ",")] + list(p)
        else:
            out.append(("v", "WHERE"))
        body = ()
        for i in im["items"]:
            body += tuple(i)
        out.append(("g", "{", body))
        return out


def seq_elems(v):
    return list(v[1]) if v[0] == "seq" else []


def recv(param):
    """receiver kind of the first parameter: & m s p or other"""
    t = [e for e in param if not (e[0] == "i" and e[1].startswith("'"))]
    s = tuple(e[1] for e in t if e[0] in ("i", "o"))
    if s in (("self",), ("mut", "self"), ("self", ":", "Self"), ("mut", "self", ":", "Self")):
        return "s"
    if s in (("&", "self"), ("self", ":", "&", "Self")):
        return "&"
    if s in (("&", "mut", "self"), ("self", ":", "&", "mut", "Self")):
        return "m"
    if s[0] == "mut":
        s = s[1:]
    if s[:2] == ("self", ":") and s[-5:] == ("<", "&", "mut", "Self", ">") and "Pin" in s:
        return "p"
    return "?" + " ".join(s)


class Expansion:
    """one accepted expansion: the enum's added attributes, the items"""

    def __init__(self, tokens):
        self.tokens = tokens
        its = toks.parse_items(tokens)
        self.enum = [i for i in its if i["kind"] == "value" and i["value"] == "ENUM"]
        self.items = [i for i in its if not (i["kind"] == "value" and i["value"] == "ENUM")]
        self.impls = [i for i in self.items if i["kind"] == "impl"]


def type_value(x):
    """a field type written as path x, or any other spelling"""
    if x.isidentifier() or "::" in x and "<" not in x:
        return ("adt", "syn::Type", "Path", (("0", ("adt", "syn::TypePath", "TypePath", (("qself", interp.NONE), ("path", path_value(x))))),))
    return ("lit*", tuple(e[1] if e[0] != "g" else "".join(toks.show([e])) for e in lex(x)))


def param_value(g):
    """a generic parameter: `T`, `'a` or `const N`"""
    idn = lambda x: ("ident", ("c", x))
    no, none = ("attrs", ("seq", ())), interp.NONE
    if g.startswith("'"):
        lt = ("adt", "syn::Lifetime", "Lifetime", (("apostrophe", ("span",)), ("ident", idn(g[1:]))))
        return ("adt", "syn::GenericParam", "Lifetime", (("0", ("adt", "syn::LifetimeParam", "LifetimeParam", (
            no, ("lifetime", lt), ("colon_token", none), ("bounds", ("seq", ()))))),))
    if g.startswith("const "):
        return ("adt", "syn::GenericParam", "Const", (("0", ("adt", "syn::ConstParam", "ConstParam", (
            no, ("const_token", ("unit",)), ("ident", idn(g[6:])), ("colon_token", ("unit",)), ("ty", type_value("usize")), ("eq_token", none), ("default", none)))),))
    return ("adt", "syn::GenericParam", "Type", (("0", ("adt", "syn::TypeParam", "TypeParam", (
        no, ("ident", idn(g)), ("colon_token", none), ("bounds", ("seq", ())), ("eq_token", none), ("default", none)))),))


def concrete_enum(I, generics, fields, trailing=False):
    """makes the input stream an enum with these parameters and payload types"""
    ps = [param_value(g) for g in generics]
    gen = ("adt", "syn::Generics", "Generics", (("lt_token", interp.NONE), ("params", ("seq", tuple(ps))), ("gt_token", interp.NONE), ("where_clause", interp.NONE),
                                                ("trailing", TRUE if trailing else FALSE)))
    v = ("adt", "derive_utils::EnumData", "EnumData", (("ident", ("s", "E")), ("generics", gen)))
    I.parsed_values = {("derive_utils::EnumData", ("s", "INPUT")): v}
    I.data_types = tuple(type_value(f) for f in fields)
    I.trailing_generics = trailing
    return len(fields)


def run_concrete(I, names, generics, fields, trailing=False, args_trailing=False):
    n = concrete_enum(I, generics, fields, trailing)
    dt = I.data_types
    try:
        return run_macro(I, names, n, args_trailing, types=dt)
    finally:
        I.parsed_values = {}
        I.trailing_generics = False


FAIL = (Stop, KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError, RecursionError, NotImplementedError)


def run_macro(I, names, n, trailing=False, types=None):
    """Abstractly runs #[enum_derive(names)] on an enum with n variants.
    -> (list of (Expansion, state), list of errors (term, state), list of bad texts)
    The input stream is assumed to parse as an enum (otherwise an error, listed).
    I.und: why the run is not decided (then nothing is returned), or None.
    Code that looks into the enum's own parameters is run on an enum whose payloads are its parameters instead."""
    if types is None and I.concrete_generics:
        g = ["T%d" % i for i in range(n)]
        return run_concrete(I, names, g, g, False, trailing)
    r = run_macro_(I, names, n, trailing, types)
    if types is None and I.und and "syn::Generics::" in I.und:
        I.concrete_generics = True
        for k in [k for k in I.unknown if k[1].startswith("syn::Generics::")]:
            del I.unknown[k]
        return run_macro(I, names, n, trailing)
    return r


def run_macro_(I, names, n, trailing, types):
    I.data_variants = tuple(("s", "V%d" % i) for i in range(n))
    I.data_types = types or tuple(("s", "T%d" % i) for i in range(n))
    I.streams = {("s", "ARGS"): arg_tokens(names, trailing)}
    st = St()
    oks, errs, bad = [], [], []
    I.und = None
    np, ns = len(I.panics), sum(I.stops.values())
    I.strict_calls = True
    try:
        rows = I.exec_fn(I.fn("enum_derive"), [("s", "ARGS"), ("s", "INPUT")], st)
    except FAIL as e:
        I.und = str(e) if isinstance(e, Stop) else "%s: %s" % (type(e).__name__, str(e)[:200])
        return [], [], []
    finally:
        I.strict_calls = False
    if sum(I.stops.values()) > ns:
        I.und = "; ".join("%s in `%s`" % (w, f) for f, w in list(I.stops)[-2:])
    for v, s in rows:
        if s.pc.get(("parse", "derive_utils::EnumData", ("s", "INPUT"))) == frozenset(["err"]):
            continue
        if any(e[0] == "EXT" for e in s.ev):
            I.und = "unmodelled call: %s" % ", ".join(sorted({k[1] for k in I.unknown}))
            continue
        sim = Sim(n)
        try:
            if v[0] == "parsed":
                v = v[2]
            tk = norm(sim.sym(v))
            e = compile_error(v)
            if e is not None:
                errs.append((e, s))
                continue
            oks.append((Expansion(tk), s))
        except BadTokens as e:
            bad.append(str(e))
        except FAIL as e:
            I.und = "%s: %s" % (type(e).__name__, str(e)[:200])
    for p in I.panics[np:]:
        bad.append("panics in %s" % (p,))
    if I.und:
        return [], [], []
    return oks, errs, bad


def compile_error(v):
    if v[0] == "tok" and len(v[1]) == 1 and v[1][0][0] == "v" and v[1][0][1][0] == "compile_error":
        return v[1][0][1][1]
    return None


# ------------------------------------------------------------------ dispatch
class NotDispatch(Exception):
    pass


def strip(els):
    """peel blocks, `unsafe {}`, parentheses, trailing `,`"""
    un = False
    while True:
        els = tuple(els)
        if len(els) == 1 and els[0][0] == "g" and els[0][1] in "{(":
            els = els[0][2]
            continue
        if len(els) == 2 and els[0] == ("i", "unsafe") and els[1][0] == "g" and els[1][1] == "{":
            un = True
            els = els[1][2]
            continue
        if len(els) > 1 and els[0] == ("i", "return"):
            els = els[1:]
            if els[-1] == ("o", ";"):
                els = els[:-1]
            continue
        return els, un


PIN = tuple(toks.lex("::core::pin::Pin"))
PINS = [PIN, tuple(toks.lex("::std::pin::Pin"))]


def lets(els, env):
    """leading `let name = expr;` of a block body"""
    out = {}
    while els and els[0] == ("i", "let"):
        p = toks.P(els)
        p.next()
        pat = p.until(lambda e: e == ("o", "="))
        if p.eof() or len([x for x in pat if x != ("i", "mut")]) != 1:
            raise NotDispatch("`let` with a pattern")
        name = [x for x in pat if x != ("i", "mut")][0]
        p.next()
        val = p.until(lambda e: e == ("o", ";"))
        if p.eof():
            raise NotDispatch("unterminated let")
        p.next()
        m = dict(out)
        val, _ = strip(val)
        out[name] = toks.subst(val, {k: ("g", "(", v) for k, v in m.items()})
        els = tuple(p.t[p.i:])
    return tuple(toks.subst(els, {k: ("g", "(", v) for k, v in out.items()}))


def unparen(els):
    """remove parentheses around single elements / substituted expressions"""
    out = []
    for e in els:
        if e[0] == "g":
            inner = unparen(e[2])
            if e[1] == "(" and not out and len(inner) >= 1 and len(els) == 1:
                return inner
            out.append(("g", e[1], inner))
        else:
            out.append(e)
    return tuple(out)


def no_unsafe(els):
    """`unsafe { e }` as `(e)`: where the marker stands makes no difference"""
    out = []
    k = 0
    while k < len(els):
        e = els[k]
        if e == ("i", "unsafe") and k + 1 < len(els) and els[k + 1][0] == "g" and els[k + 1][1] == "{":
            inner = no_unsafe(els[k + 1][2])
            stm = any(x == ("o", ";") for x in inner)
            out.append(("g", "{" if stm else "(", inner))
            k += 2
            continue
        out.append(("g", e[1], no_unsafe(e[2])) + tuple(e[3:]) if e[0] == "g" else e)
        k += 1
    return tuple(out)


def dispatch(body, n, pinned, tr, mname, params, V=None):
    """Checks that a method body is `match self { E::Vi(x) => Ti::m(x, params) }`.
    -> dict(arms=[...]) ; raises NotDispatch"""
    body, un = strip(no_unsafe(body))
    body = lets(body, {})
    body, un2 = strip(body)
    un = un or un2
    body = lets(body, {})
    p = toks.P(body)
    if not p.eat("i", "match"):
        raise NotDispatch("the body is not a match on the active variant: `%s`" % toks.show(body)[:120])
    scrut = p.until(lambda e: e[0] == "g" and e[1] == "{")
    if p.eof():
        raise NotDispatch("match without arms")
    arms = p.next()[2]
    if not p.eof():
        raise NotDispatch("the result of the match is changed: `%s`" % toks.show(p.t[p.i:])[:80])
    scrut, u = strip(scrut)
    s = toks.show(unparen(scrut))
    flat = s.replace(" ", "")
    if pinned:
        good = ("self.get_unchecked_mut()", "::core::pin::Pin::get_unchecked_mut(self)", "::core::pin::Pin::<&mutSelf>::get_unchecked_mut(self)",
                "::core::pin::Pin::get_unchecked_mut(::core::pin::Pin::as_mut(&mutself))", "self.as_mut().get_unchecked_mut()",
                "::std::pin::Pin::get_unchecked_mut(self)")
    else:
        good = ("self", "*self", "&*self", "&mut*self", "&self", "&mutself")
    if flat not in good:
        raise NotDispatch("matches on `%s`, not on the enum itself" % s)
    seen = []
    p = toks.P(arms)
    while not p.eof():
        at = p.attrs()
        pat = p.until(lambda e: e in (("o", "=>"), ("i", "if")))
        if p.isid("if"):
            raise NotDispatch("arm with a guard")
        p.expect("o", "=>")
        e = p.peek()
        if e and e[0] == "g" and e[1] == "{":
            rhs = (p.next(),)
            p.eat("o", ",")
        else:
            rhs = p.until(lambda e: e == ("o", ","))
            p.eat("o", ",")
        if toks.P(pat).eat("o", "|"):
            pat = pat[1:]
        if len(pat) != 4 or pat[0] not in (("v", "E"), ("i", "Self")) or pat[1] != ("o", "::") or pat[2][0] != "v" or pat[3][0] != "g":
            raise NotDispatch("arm pattern `%s`" % toks.show(pat))
        b = [x for x in pat[3][2] if x not in (("i", "ref"), ("i", "mut"), ("o", ","))]
        if len(b) != 1 or b[0][0] != "i":
            raise NotDispatch("arm pattern `%s`" % toks.show(pat))
        seen.append((pat[2][1], b[0], rhs))
    want = ["V%d" % i for i in range(n)]
    got = [x[0] for x in seen]
    if sorted(got) != sorted(want):
        raise NotDispatch("arms for %s instead of each variant once" % got)
    for v, x, rhs in seen:
        i = int(v[1:])
        check_call(rhs, i, x, pinned, tr, mname, params)
    return {"unsafe": un or u}


def check_call(rhs, i, x, pinned, tr, mname, params):
    rhs, un = strip(rhs)
    rhs = lets(rhs, {})
    rhs, un2 = strip(rhs)
    rhs = unparen(rhs)
    p = toks.P(rhs)
    recv_first = True
    if p.iso("<"):
        p.next()
        ty = p.until(lambda e: e == ("i", "as") or e == ("o", ">"))
        if ty != (("v", "T%d" % i),):
            raise NotDispatch("variant %d calls `%s` on type `%s`" % (i, mname, toks.show(ty)))
        p.expect("i", "as")
        t = p.until(lambda e: e == ("o", ">"))
        p.expect("o", ">")
        p.expect("o", "::")
        if not same_path(t, tr):
            raise NotDispatch("variant %d calls `%s`, not `%s`" % (i, toks.show(t), toks.show(tr)))
    elif p.iso("::") or p.isid("std", "core") and p.peek(1) == ("o", "::"):
        t = []
        while not (p.peek() and p.peek()[0] == "g"):
            if p.eof():
                raise NotDispatch("variant %d does not call the payload's method: `%s`" % (i, toks.show(rhs)[:80]))
            t.append(p.next())
        if len(t) < 2 or t[-2] != ("o", "::"):
            raise NotDispatch("variant %d calls `%s`" % (i, toks.show(t)))
        if not same_path(tuple(t[:-2]), tr):
            raise NotDispatch("variant %d calls `%s`, not `%s`" % (i, toks.show(t), toks.show(tr)))
        p.i -= 1
    else:
        # method syntax is only accepted with the payload as receiver
        if p.peek() == x and p.peek(1) == ("o", "."):
            p.next()
            p.next()
            recv_first = False
        else:
            raise NotDispatch("variant %d does not call the payload's method: `%s`" % (i, toks.show(rhs)[:80]))
    if p.next() != ("i", mname):
        raise NotDispatch("variant %d calls another method than `%s`: `%s`" % (i, mname, toks.show(rhs)[:80]))
    if p.eat("o", "::"):
        toks.generics(p)
    g = p.next() if not p.eof() else None
    if not (g and g[0] == "g" and g[1] == "("):
        raise NotDispatch("variant %d: `%s`" % (i, toks.show(rhs)[:80]))
    if not p.eof():
        raise NotDispatch("variant %d changes the result: `%s`" % (i, toks.show(rhs)[:80]))
    args = [unparen(strip(a)[0]) for a in toks.split(g[2])]
    if recv_first:
        if not args:
            raise NotDispatch("variant %d: no receiver" % i)
        r = args.pop(0)
        if pinned:
            ok = any(r in (q + (("o", "::"), ("i", "new_unchecked"), ("g", "(", (x,))),
                           q + (("o", "::"), ("i", "new_unchecked"), ("g", "(", (("o", "&"), ("i", "mut"), ("o", "*"), x)))) for q in PINS)
        else:
            ok = r == (x,) or r == (("o", "&"), ("i", "mut"), ("o", "*"), x) or r == (("o", "&"), ("o", "*"), x)
        if not ok:
            raise NotDispatch("variant %d passes `%s` as receiver" % (i, toks.show(r)))
    elif pinned:
        raise NotDispatch("variant %d reaches the pinned payload without a pin" % i)
    want = [(("i", a),) for a in params]
    if list(args) != want:
        raise NotDispatch("variant %d passes (%s) instead of (%s)" % (i, ", ".join(toks.show(a) for a in args), ", ".join(params)))


def same_path(a, b):
    """trait paths with optional generic arguments; `::std::` and `::core::` name the same items"""
    return norm_path(a) == norm_path(b)


def norm_path(t):
    t = tuple(t)
    if t[:1] == (("i", "std"),) or t[:1] == (("i", "core"),):
        t = (("o", "::"),) + t
    if len(t) > 1 and t[0] == ("o", "::") and t[1] == ("i", "std"):
        t = (t[0], ("i", "core")) + t[2:]
    return t


def param_names(m):
    out = []
    for prm in m["params"][1:]:
        p = toks.P(prm)
        p.attrs()
        nm = [e for e in p.until(lambda e: e == ("o", ":")) if e != ("i", "mut")]
        if len(nm) != 1 or nm[0][0] != "i":
            raise NotDispatch("parameter pattern `%s` of `%s`" % (toks.show(nm), m["name"]))
        out.append(nm[0][1])
    return out


def split_path(tr):
    """trait path tokens -> (plain path text, list of generic args)"""
    p = toks.P(tr)
    t = p.until(lambda e: e == ("o", "<"))
    # until() counts `<` only after the stop test, so it stops at the first `<`
    g = toks.generics(p) if p.iso("<") else []
    return "".join(e[1] for e in t), g
