"""C01-C10: properties of #[enum_derive], decided on the expansions of the
macro's entry point (abstract interpretation of its MIR, one run per argument
list and number of variants)."""
import os, json, itertools, re
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import build, interp, toks, oracle
import derive_side as ds
from derive_side import NotDispatch

VARS = (1, 2, 3)      # numbers of variants; widened by `thresholds`
LENS = ()             # lengths of argument lists beyond the tabulated ones


def thresholds(I):
    """Runs are made for small sizes; a size the code itself compares with (an
    integer literal of the derive part) is analysed on both sides as well."""
    global VARS, LENS
    lits = set()
    for f in I.d["fns"]:
        if not f.get("local") or "auto_enum/" in f["file"].split("/src/")[-1]:
            continue
        for b in [f["body"]] + list(f.get("promoted") or []):
            walk_ints(I, b, lits)
    lits = sorted(x for x in lits if 3 <= x <= 40)[:4]
    extra = sorted({y for x in lits for y in (x, x + 1)} - set(VARS))
    VARS = (1, 2, 3) + tuple(extra)
    LENS = tuple(extra)


def walk_ints(I, x, out, body=None):
    if isinstance(x, dict):
        if x.get("k") == "const" and isinstance(x.get("v"), dict) and isinstance(x["v"].get("i"), int):
            out.add(x["v"]["i"])
        b = x if "bb" in x else body
        for y in x.values():
            walk_ints(I, y, out, b)
    elif isinstance(x, list):
        if len(x) > 2 and x[0] == "sw" and isinstance(x[1], dict) and body is not None:
            pl = next((q for q in x[1].values() if isinstance(q, list)), None)
            if pl and len(pl) == 1:
                ty = I.ty(body["locals"][pl[0]])
                if ty.get("k") == "prim" and ty.get("p") in ("usize", "u8", "u16", "u32", "u64", "i32"):
                    out.update(int(q[0]) for q in x[2] if isinstance(q, (list, tuple)) and q)
        for y in x:
            walk_ints(I, y, out, body)
def own_names(I):
    """texts in the macro's own code that could be names of traits"""
    if "own_names" not in I.__dict__:
        out = set()
        todo = [[f["body"]] + list(f.get("promoted") or []) for f in I.d["fns"] if f.get("local") and f.get("body")
                and "/derive/" not in f["file"].split("/src/")[-1].rjust(1) and not f["file"].split("/src/")[-1].startswith(("derive/", "auto_enum/"))]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                s = x.get("s")
                if isinstance(s, str) and re.fullmatch(r"(::)?[A-Z]\w*|(::)?\w+(::\w+)+", s) and s not in oracle.BY_NAME and s not in oracle.TRANSPOSE:
                    out.add(s)
                todo += x.values()
            elif isinstance(x, list):
                todo += x
        I.own_names = sorted(out)
    return I.own_names


UNPIN = ("::core::marker::Unpin", "::std::marker::Unpin")


def where_of(I, name):
    """source file of the derive function for `name` (diagnostics only)"""
    return "src/derive"


def run(I, rep, names, n, **kw):
    r = ds.run_macro(I, names, n, **kw)
    if I.und and rep:
        rep.undecided("enum_derive(%s) with %d variants" % (", ".join(names), n), I.und)
    return r


def runc(I, rep, names, gen, fields, *a):
    r = ds.run_concrete(I, names, gen, fields, *a)
    if I.und and rep:
        rep.undecided("enum_derive(%s) on enum<%s>(%s)" % (", ".join(names), ",".join(gen), ",".join(fields)), I.und)
    return r


def expansions(I, rep, names=None, variants=None):
    """(name, oracle trait, n, [Expansion]) for every documented single name"""
    for t in oracle.TRAITS:
        for nm in t.names[:1] if names is None else names:
            if nm not in t.names:
                continue
            for n in variants or VARS:
                oks, errs, bad = run(I, rep, [nm], n)
                rep.count("expansions", len(oks))
                for b in bad:
                    rep.viol("%s:malformed" % nm, "expansion is not well formed: %s" % b)
                for e, s in errs:
                    rep.viol("%s:rejected" % nm, "enum_derive(%s) is rejected: %s" % (nm, toks_err(e)))
                yield nm, t, n, [x for x, s in oks]
                for x, s in oks:
                    if s.cut:
                        rep.viol("%s:unbounded" % nm, "an unbounded loop was cut")


def toks_err(e):
    return str(e)[:160]


def impls_of(ex, t):
    """impls of the oracle trait t in an expansion"""
    out = []
    for im in ex.impls:
        if im["trait"] is None:
            continue
        p, g = ds.split_path(im["trait"])
        if same(p, t.path):
            out.append((im, g))
    return out


def same(p, q):
    n = lambda x: x.replace("::std::", "::core::", 1) if x.startswith("::std::") else x
    if n(p) == n(q):
        return True
    return n(p) in ALT.get(n(q), ())


# public re-exports of the same trait
ALT = {
    "::serde::ser::Serialize": ("::serde::Serialize",),
    "::futures::stream::Stream": ("::futures::Stream",), "::futures::sink::Sink": ("::futures::Sink",),
    "::futures::future::Future": ("::futures::Future",), "::rayon::iter::ParallelIterator": ("::rayon::prelude::ParallelIterator",),
    "::futures::io::AsyncRead": ("::futures::AsyncRead",), "::futures::io::AsyncWrite": ("::futures::AsyncWrite",),
    "::futures::io::AsyncSeek": ("::futures::AsyncSeek",), "::futures::io::AsyncBufRead": ("::futures::AsyncBufRead",),
    "::core::future::Future": ("::core::future::future::Future",),
    "::core::iter::Extend": ("::core::iter::traits::collect::Extend",),
}


def by_path(p):
    return [t for t in oracle.TRAITS if same(p, t.path)]


def all_traits(nm):
    """oracle traits expected in the expansion of the single name nm"""
    t = oracle.BY_NAME[nm]
    out = [t]
    for d in oracle.REQUIRES.get(oracle.canon(nm), []):
        if d in oracle.BY_NAME:
            out.append(oracle.BY_NAME[d])
    return out


def C01(I, rep):
    rep.rule = ("Every method of every impl in the expansion of each documented trait name (1, 2 and 3 variants) is a match on the enum whose arms cover "
                "each variant once and call the same method of the same trait on the payload with the parameters unchanged and in order, returning the "
                "result unchanged (Error::source: Some(payload)).")
    for nm, t, n, exs in expansions(I, rep):
        for ex in exs:
            found = impls_of(ex, t)
            if not found:
                rep.viol("%s:no-impl" % nm, "enum_derive(%s) does not implement %s" % (nm, t.path))
            for im, g in found:
                for m in im["items"]:
                    if m["kind"] == "type":
                        continue
                    if m["kind"] != "fn":
                        rep.viol("%s:%s" % (nm, m["kind"]), "unexpected %s item" % m["kind"])
                        continue
                    key = "%s::%s" % (nm, m["name"])
                    try:
                        delegate(im, m, n, t)
                        rep.count("methods")
                        rep.count("arms", n)
                        if n == 2:
                            rep.add("samples", key) if len(rep.lists.get("samples", [])) < 8 else None
                    except (NotDispatch, toks.BadTokens) as e:
                        rep.viol(key, "%s (enum with %d variants)" % (e, n))


def delegate(im, m, n, t):
    if not m["params"]:
        raise NotDispatch("no receiver")
    r = ds.recv(m["params"][0])
    names = ds.param_names(m)
    if m["name"] in t.methods:
        wr, wn = t.methods[m["name"]]
        if r != wr:
            raise NotDispatch("receiver `%s` instead of `%s`" % (r, wr))
        if len(names) != wn:
            raise NotDispatch("%d parameters instead of %d" % (len(names), wn))
    if (t.names[0], m["name"]) == oracle.ERROR_SOURCE:
        return source(m["body"], n)
    return ds.dispatch(m["body"], n, r == "p", im["trait"], m["name"], names)


def source(body, n):
    """match self { E::Vi(x) => Some(x) }"""
    body, _ = ds.strip(body)
    p = toks.P(body)
    if not (p.eat("i", "match") and p.eat("i", "self")):
        raise NotDispatch("`source` is not a match on self")
    arms = p.next()[2]
    if not p.eof():
        raise NotDispatch("`source` changes the result")
    seen = []
    p = toks.P(arms)
    while not p.eof():
        pat = p.until(lambda e: e == ("o", "=>"))
        p.expect("o", "=>")
        rhs, _ = ds.strip(p.until(lambda e: e == ("o", ",")))
        p.eat("o", ",")
        if len(pat) != 4 or pat[2][0] != "v" or len(pat[3][2]) != 1:
            raise NotDispatch("`source` arm `%s`" % toks.show(pat))
        some = [toks.lex(q) for q in ("::std::option::Option::Some", "::core::option::Option::Some")]
        if rhs not in [q + (("g", "(", pat[3][2]),) for q in some]:
            raise NotDispatch("`source` returns `%s` instead of the payload" % toks.show(rhs))
        seen.append(pat[2][1])
    if sorted(seen) != sorted("V%d" % i for i in range(n)):
        raise NotDispatch("`source` has arms for %s" % seen)


def C02(I, rep):
    rep.rule = ("The impl of each documented trait contains every method listed in the frozen method table (required methods plus the provided methods "
                "the crate forwards), with the trait's receiver kind and parameter count.")
    for nm, t, n, exs in expansions(I, rep, variants=(2,)):
        for ex in exs:
            for im, g in impls_of(ex, t) or [(None, None)]:
                have = {} if im is None else {m["name"]: m for m in im["items"] if m["kind"] == "fn"}
                for mn, (r, k) in t.methods.items():
                    rep.count("required_methods")
                    if mn not in have:
                        rep.viol("%s::%s" % (nm, mn), "method is not forwarded: the trait's default body would be used instead of the payload's")
                        continue
                    m = have[mn]
                    try:
                        got = (ds.recv(m["params"][0]) if m["params"] else "-", len(m["params"]) - 1)
                    except Exception as e:
                        got = (str(e), 0)
                    if got != (r, k):
                        rep.viol("%s::%s" % (nm, mn), "declared with receiver/parameters %s instead of %s" % (got, (r, k)))
        rep.count("traits")


def predicates(im):
    """where predicates: list of (subject tokens, [bound tokens])"""
    out = []
    for w in im["where"]:
        p = toks.P(w)
        if p.iso("<") or (p.isid("for") and p.peek(1) == ("o", "<")):
            pass
        sub = p.until(lambda e: e == ("o", ":"))
        if p.eof():
            out.append((sub, []))
            continue
        p.next()
        rest = tuple(p.t[p.i:])
        out.append((sub, toks.split(rest, "+")))
    return out


def bound_parts(b):
    """trait bound -> (plain path, [positional args], {assoc: tokens}, fn sugar)"""
    p = toks.P(b)
    t = p.until(lambda e: e == ("o", "<") or e[0] == "g")
    path = "".join(e[1] for e in t)
    pos, assoc, sugar = [], {}, None
    if p.iso("<"):
        for a in toks.generics(p):
            q = toks.P(a)
            h = q.until(lambda e: e == ("o", "="))
            if not q.eof() and len(h) == 1:
                q.next()
                assoc[h[0][1]] = tuple(q.t[q.i:])
            else:
                pos.append(a)
    elif p.peek() and p.peek()[0] == "g":
        ins = toks.split(p.next()[2])
        out = ()
        if p.eat("o", "->"):
            out = tuple(p.t[p.i:])
            p.i = len(p.t)
        sugar = (ins, out)
    if not p.eof():
        raise toks.BadTokens("bound `%s`" % toks.show(b))
    return path, pos, assoc, sugar


def assoc_of(ty):
    """<T as TR>::X -> (T tokens, trait tokens, X)"""
    p = toks.P(ty)
    if not p.eat("o", "<"):
        return None
    t = p.until(lambda e: e == ("i", "as"))
    if p.eof():
        return None
    p.next()
    tr = p.until(lambda e: e == ("o", ">"))
    p.next()
    if not p.eat("o", "::"):
        return None
    x = p.next()
    return (t, tr, x[1]) if p.eof() else None


def C03(I, rep):
    rep.rule = ("For each documented trait with own or inherited associated types: the impl defines each own associated type as a payload's, requires the "
                "same trait (same path, same generic arguments) of every payload, and binds every associated type (inherited ones included) of the other "
                "payloads to the first payload's; for the Fn family through one shared output parameter. Own generics of the impl are those of the trait.")
    for nm, t, n, exs in expansions(I, rep):
        for ex in exs:
            for im, g in impls_of(ex, t):
                key = nm
                try:
                    agree(rep, im, g, t, n)
                except (NotDispatch, toks.BadTokens) as e:
                    rep.viol(key, "%s (enum with %d variants)" % (e, n))
                rep.count("impls")


def agree(rep, im, g, t, n):
    preds = predicates(im)
    tr = im["trait"]
    mine = {}
    own = {x[1] for gp in im["generics"] for x in gp[:2] if x[0] == "i"}
    for a in g:
        for x in toks.flat_idents(a):
            if x[0] == "i" and x[1].startswith("__") and x[1] not in own:
                raise NotDispatch("the trait argument `%s` is not a parameter of the impl" % x[1])
    for i in range(n):
        sub = (("v", "T%d" % i),)
        cands = []
        for s, bs in preds:
            if s == sub:
                for b in bs:
                    if b[:1] and b[0][0] == "i" and b[0][1].startswith("'"):
                        continue
                    path, pos, assoc, sugar = bound_parts(b)
                    if same(path, t.path):
                        cands.append((pos, assoc, sugar))
        if not cands:
            raise NotDispatch("payload type %d is not required to implement %s" % (i, t.path))
        mine[i] = cands[0]
        pos, assoc, sugar = mine[i]
        if sugar is not None:
            want = (("g", "(", join(sugar[0])),) if len(sugar[0]) != 1 else (("g", "(", sugar[0][0] + (("o", ","),)),)
            if [x for x in g] != [want]:
                raise NotDispatch("payload type %d is bound by `%s` arguments that differ from the impl's" % (i, t.path))
        elif list(pos) != list(g):
            raise NotDispatch("payload type %d implements `%s<%s>`, the enum `<%s>`" % (i, t.path, ", ".join(map(toks.show, pos)), ", ".join(map(toks.show, g))))
        rep.count("payload_bounds")
    types = {m["name"]: m for m in im["items"] if m["kind"] == "type"}
    for x in t.assoc:
        rep.count("associated_types")
        if x not in types:
            raise NotDispatch("associated type `%s` is not defined" % x)
        a = assoc_of(types[x]["ty"])
        out0 = mine[0][2][1] if mine[0][2] else None
        if out0 and types[x]["ty"] == out0:
            pass
        elif a is None or a[2] != x or a[0][0][0] != "v" or not a[0][0][1].startswith("T") or not ds.same_path(a[1], tr):
            raise NotDispatch("associated type `%s` is `%s`, not the payload's" % (x, toks.show(types[x]["ty"])))
    if set(types) - set(t.assoc):
        raise NotDispatch("unexpected associated type %s" % sorted(set(types) - set(t.assoc)))
    fn = mine[0][2] is not None
    if fn:
        outs = {mine[i][2][1] if mine[i][2] else None for i in range(n)}
        if len(outs) != 1 or None in outs or () in outs:
            raise NotDispatch("payloads need not agree on the output type")
        o = next(iter(outs))
        if len(o) != 1 or not any(gp[:1] == o for gp in im["generics"]):
            raise NotDispatch("output of the payloads is `%s`, not one shared parameter" % toks.show(o))
        return
    for x in t.assoc + t.sup:
        # all payloads equal, via bindings to another payload's type or to one shared type
        cls = {}
        for i in range(n):
            v = mine[i][1].get(x)
            a = assoc_of(v) if v else None
            if v is None:
                cls[i] = ("self", i)
            elif a and a[0][0][0] == "v" and a[0][0][1].startswith("T") and a[2] == x:
                if not any(same(ds.split_path(a[1])[0], q) for q in [t.path] + sup_paths(t)) or \
                        (same(ds.split_path(a[1])[0], t.path) and list(ds.split_path(a[1])[1]) != list(g)):
                    raise NotDispatch("`%s` of payload %d is bound to another trait's: `%s`" % (x, i, toks.show(v)))
                cls[i] = ("ref", int(a[0][0][1][1:]))
            elif len(v) == 1 or True:
                cls[i] = ("ty", v)
        find = {}

        def root(i, k=0):
            c = cls[i]
            if c[0] == "ref" and c[1] != i and k < n + 1:
                return root(c[1], k + 1)
            return c
        roots = {root(i) for i in range(n)}
        if len(roots) != 1:
            raise NotDispatch("payloads need not agree on associated type `%s`" % x)
        rep.count("agreements")


def join(l):
    out = ()
    for k, a in enumerate(l):
        out += ((("o", ","),) if k else ()) + a
    return out


def sup_paths(t):
    return [oracle.BY_NAME[d].path for d in oracle.REQUIRES.get(t.names[0], []) if d in oracle.BY_NAME]


UNSAFE_METHODS = ("prepare_uninitialized_buffer",)       # tokio 0.1 / 0.2 AsyncRead
ALLOWED_UNSAFE_TRAITS = ("::core::iter::TrustedLen",)


def unsafe_count(els):
    k = 0
    for e in els:
        if e == ("i", "unsafe"):
            k += 1
        if e[0] == "g":
            k += unsafe_count(e[2])
    return k


def C04(I, rep):
    rep.rule = ("Each method with a pinned receiver reaches the payload only as Pin::new_unchecked(x) inside `unsafe { match self.get_unchecked_mut() }`; no "
                "other token `unsafe` is generated except the `unsafe impl` of TrustedLen, whose where clause requires TrustedLen of each payload; the "
                "Transpose inherent methods and the crate itself contain no unsafe code.")
    names = [(t.names[0], t) for t in oracle.TRAITS] + [(oracle.TRANSPOSE[0], None)]
    for nm, t in names:
        for n in VARS:
            oks, errs, bad = run(I, rep, [nm], n)
            for b in bad:
                rep.viol("%s:malformed" % nm, b)
            for ex, s in oks:
                rep.count("expansions")
                total = unsafe_count(ex.tokens)
                used = 0
                for im in ex.impls:
                    p = ds.split_path(im["trait"])[0] if im["trait"] else ""
                    if im["unsafe"]:
                        used += 1
                        if not any(same(p, q) for q in ALLOWED_UNSAFE_TRAITS):
                            rep.viol("%s:unsafe-impl" % nm, "`unsafe impl %s`" % p)
                        else:
                            rep.count("unsafe_impls")
                            b = predicates(im)
                            for i in range(n):
                                if not any(s2 == (("v", "T%d" % i),) and any(same(bound_parts(x)[0], p) for x in bs if not x[0][1].startswith("'")) for s2, bs in b):
                                    rep.viol("%s:unsafe-impl-bound" % nm, "unsafe impl %s does not require it of payload %d" % (p, i))
                    for m in im["items"]:
                        if m["kind"] != "fn" or not m["params"]:
                            continue
                        r = ds.recv(m["params"][0])
                        if r[0] == "?":
                            rep.viol("%s::%s" % (nm, m["name"]), "unknown receiver form %s" % r)
                        if "unsafe" in m["quals"] and m["name"] in UNSAFE_METHODS and unsafe_count(m["body"]) == 0:
                            used += 1       # the trait's own method is an unsafe fn; it is only forwarded (C01)
                        elif "unsafe" in m["quals"]:
                            rep.viol("%s::%s" % (nm, m["name"]), "generated method is an unsafe fn")
                        if r != "p":
                            continue
                        rep.count("pinned_methods")
                        try:
                            d = ds.dispatch(m["body"], n, True, im["trait"], m["name"], ds.param_names(m))
                            used += unsafe_count(m["body"])
                            if unsafe_count(m["body"]) > 2 * (n + 1):
                                rep.viol("%s::%s" % (nm, m["name"]), "extra unsafe blocks")
                        except (NotDispatch, toks.BadTokens) as e:
                            rep.viol("%s::%s" % (nm, m["name"]), "pinned payload: %s" % e)
                if total != used:
                    rep.viol("%s:unsafe" % nm, "%d `unsafe` token(s) outside the pinned projections and TrustedLen" % (total - used))


def C05(I, rep):
    rep.rule = ("Whenever an expansion (single names, pairs of a pinned with any other trait, and alias lists; 1-3 variants) contains a method with a "
                "pinned receiver, it also contains exactly one Unpin impl for the same enum, requiring Unpin of every payload (or of PhantomData-free "
                "payload types), and a const item in which a private trait is blanket-implemented for Drop types and implemented for the enum with the "
                "enum's generics and where clause.")
    pinned = [t for t in oracle.TRAITS if t.pinned]
    lists = [[t.names[0]] for t in oracle.TRAITS] + [[oracle.TRANSPOSE[0]]]
    for t in pinned:
        lists += [[t.names[0], "Iterator"], ["Debug", t.names[0]], ["Clone", t.names[0], "Foo"], [t.names[0], "http_body1::Body"] if t.names[0] != "http_body1::Body" else ["Future", t.names[0]]]
    first = list(lists)
    for x in own_names(I):
        lists += [["Future", x], [x, "Foo", "Future"]]
    for k in LENS:
        lists += [["X%d" % i for i in range(k)] + ["Future"], ["Future"] + ["X%d" % i for i in range(k)]]
    for l in lists:
        for n in VARS:
            if n != 2 and len(l) > 1 and l not in first:
                continue
            oks, errs, bad = run(I, rep, l, n)
            nm = ",".join(l)
            for b in bad:
                rep.viol("%s:malformed" % nm, b)
            for ex, s in oks:
                rep.count("expansions")
                pins = [(im, m) for im in ex.impls for m in im["items"] if m["kind"] == "fn" and m["params"] and ds.recv(m["params"][0]) == "p"]
                if not pins:
                    continue
                rep.count("pinned_expansions")
                safe_projection(rep, ex, nm, n)


def enum_self(toks_):
    return tuple(toks_) in ((("v", "E"), ("v", "TYG")),)


def safe_projection(rep, ex, nm, n):
    key = nm.split(",")[0] if "," not in nm else nm
    up = [im for im in ex.impls if im["trait"] and ds.split_path(im["trait"])[0] in UNPIN]
    if len(up) != 1:
        rep.viol("%s:unpin" % key, "%d Unpin impls for an enum with pinned methods" % len(up))
    for im in up:
        if not enum_self(im["self"]) or (("v", "EG"),) not in im["generics"]:
            rep.viol("%s:unpin-self" % key, "the Unpin impl is not for the enum with its generics")
        if not any(w == (("v", "EW"),) for w in im["where"]):
            rep.viol("%s:unpin-where" % key, "the Unpin impl lacks the enum's where clause")
        for i in range(n):
            if not any(s == (("v", "T%d" % i),) and any("".join(e[1] for e in b) in UNPIN for b in bs if all(e[0] != "g" for e in b)) for s, bs in predicates(im)):
                rep.viol("%s:unpin-bound" % key, "the Unpin impl does not require Unpin of payload %d" % i)
        if im["unsafe"] or any(t for t in im["trait"] if t == ("o", "!")):
            rep.viol("%s:unpin-form" % key, "unexpected form of the Unpin impl")
    good = 0
    for it in list(ex.items):
        scopes = []
        if it["kind"] == "const" and it["value"] and it["value"][0][0] == "g":
            scopes.append(it["value"][0][2])
        for body in scopes:
            try:
                its = toks.parse_items(body)
            except toks.BadTokens:
                continue
            good += drop_guard(its)
    good += drop_guard(ex.items)
    if good != 1:
        rep.viol("%s:drop-guard" % key, "%d items forbidding Drop impls of the enum (expected 1)" % good)


DROP = ("::core::ops::Drop", "::std::ops::Drop")


def drop_guard(its):
    """number of traits in `its` that conflict with a Drop impl of the enum"""
    k = 0
    for t in its:
        if t["kind"] != "trait" or t["generics"]:
            continue
        ims = [i for i in its if i["kind"] == "impl" and i["trait"] == (("i", t["name"]),)]
        blanket = mine = False
        for i in ims:
            gs = i["generics"]
            if len(gs) == 1 and len(i["self"]) == 1 and i["self"][0][0] == "i":
                g = gs[0]
                bounds = []
                if g[:1] == i["self"]:
                    if len(g) > 1 and g[1] == ("o", ":"):
                        bounds += toks.split(g[2:], "+")
                    for s, bs in predicates(i):
                        if s == i["self"]:
                            bounds += bs
                bs = {"".join(e[1] for e in b) for b in bounds}
                if bs and bs <= set(DROP) | {"?Sized"}:
                    blanket = bool(bs & set(DROP))
            if enum_self(i["self"]) and (("v", "EG"),) in i["generics"] and i["where"] == [(("v", "EW"),)]:
                mine = True
        if blanket and mine and len(ims) == 2:
            k += 1
    return k


def names_of(ex):
    """canonical names of the traits implemented, and the derive list"""
    out = []
    for im in ex.impls:
        if im["trait"] is None:
            out.append("<inherent>")
            continue
        p = ds.split_path(im["trait"])[0]
        ts = by_path(p)
        out.append(ts[0].path if ts else p)
    return out


def derive_list(ex):
    """paths in the #[derive(..)] attributes added to the enum"""
    out = []
    for it in ex.enum:
        for a in it["attrs"]:
            if a[:1] == (("i", "derive"),) and len(a) == 2 and a[1][0] == "g":
                for x in toks.split(a[1][2]):
                    out.append(show_path(x))
            else:
                out.append("?" + toks.show(a))
    return out


def show_path(x):
    s = ""
    for e in x:
        if e[0] == "v" and isinstance(e[1], str) and e[1].startswith("("):
            import ast
            try:
                import models
                t = models.spelled(ast.literal_eval(e[1]))
                s += "".join(t) if t else e[1]
            except Exception:
                s += e[1]
        else:
            s += e[1] if isinstance(e[1], str) else str(e[1])
    return s


def expected_impls(nm):
    """trait paths a single documented name expands to"""
    out = []
    for t in all_traits(nm):
        out.append(t.path)
    if any(t.pinned for t in all_traits(nm)):
        out.append("::core::marker::Unpin")
    return sorted(out)


def C06(I, rep):
    rep.rule = ("The macro's name lookup is run on a symbolic name: the set of names for which anything is implemented equals the documented set and each "
                "name yields exactly the impls of its trait and companions; names outside the set, alone and mixed in lists of up to four, go "
                "verbatim and in order into one #[derive] on the otherwise unchanged enum.")
    # every documented name, alone
    for nm, n in [(nm, n) for nm in oracle.BY_NAME for n in (2,) + LENS[:2]]:
        oks, errs, bad = run(I, rep, [nm], n)
        for b in bad:
            rep.viol("%s:malformed" % nm, b)
        for e, s in errs:
            rep.viol("%s:rejected" % nm, toks_err(e))
        if not oks and not I.und:
            rep.viol("%s:no-expansion" % nm, "no expansion")
        for ex, s in oks:
            rep.count("names")
            got = sorted(names_of(ex))
            if got != expected_impls(nm):
                rep.viol("%s:impls" % nm, "implements %s instead of %s" % (got, expected_impls(nm)))
            check_enum(rep, ex, nm, [d for d in derived_extra([nm])])
    # unknown names
    for l in (["Foo"], ["Foo", "a::Bar"], ["Hash"], ["Foo", "Iterator", "a::b::Bar"], ["Iterator", "Foo"], ["Foo", "Debug", "Bar", "Baz"],
              ["iterator"], ["fmt::Iterator"], ["std::io::Read"], ["Foo", "Future", "Bar"], ["io::Foo", "BufRead"], ["::Iterator"], ["iter::Iterator"],
              ["futures::Stream", "futures03::Stream"], ["Transposed"], ["Clone", "Foo", "Copy"], ["Bar", "Foo", "Iterator"],
              ["Foo", "Foo"], ["Foo", "Iterator", "Foo"], ["::Foo"], ["::a::Foo", "Bar"], ["a::Foo"], ["a::Foo", "b::Foo"], ["Clone", "Clone"],
              ["Bar"] * 2 + ["Foo"] * 2, *long_lists(),
              *([x] for x in own_names(I)), *(["Foo", x, "Iterator"] for x in own_names(I)), *([x, x] for x in own_names(I))):
        for trail in (False, True):
            oks, errs, bad = run(I, rep, l, 2, trailing=trail)
            nm = ",".join(l)
            for b in bad:
                rep.viol("%s:malformed" % nm, b)
            for e, s in errs:
                rep.viol("%s:rejected" % nm, toks_err(e))
            if not oks and not I.und:
                rep.viol("%s:no-expansion" % nm, "no expansion")
            for ex, s in oks:
                rep.count("lists")
                check_enum(rep, ex, nm, [x for x in l if x not in oracle.BY_NAME], ordered=l)
                known = [x for x in l if x in oracle.BY_NAME]
                got = sorted(names_of(ex))
                want = sorted({p for x in known for p in expected_impls(x)})
                if got != want:
                    rep.viol("%s:impls" % nm, "implements %s instead of %s" % (got, want))
    symbolic_names(I, rep)


def long_lists():
    for n in LENS:
        yield ["X%d" % i for i in range(n)]
        yield ["X%d" % i for i in range(n - 1)] + ["Iterator"]
        yield ["Iterator", "Future"] + ["X%d" % i for i in range(n - 1)]


def derived_extra(l):
    return []


def check_enum(rep, ex, nm, want, ordered=None):
    if len(ex.enum) != 1:
        rep.viol("%s:enum" % nm, "the enum item appears %d times in the output" % len(ex.enum))
    got = derive_list(ex)
    if got != want:
        rep.viol("%s:derive" % nm, "#[derive] list added to the enum is %s instead of %s" % (got, want))
    for it in ex.items:
        if it["kind"] not in ("impl", "const"):
            rep.viol("%s:extra" % nm, "unexpected generated item `%s`" % it["kind"])
        if it["kind"] == "const" and it["name"] != "_":
            rep.viol("%s:extra" % nm, "unexpected generated item `const %s`" % it["name"])


def symbolic_names(I, rep):
    """the lookup on a symbolic spelling: all names it distinguishes"""
    import interp as IP
    I.data_variants = (("s", "V0"), ("s", "V1"))
    I.data_types = (("s", "T0"), ("s", "T1"))
    P0 = ("s", "P0")
    I.streams = {("s", "ARGS"): [{"Path": P0}]}
    known = set()
    generic = 0
    ns = sum(I.stops.values())
    for v, s in I.exec_fn(I.fn("enum_derive"), [("s", "ARGS"), ("s", "INPUT")], IP.St()):
        if s.pc.get(("parse", "derive_utils::EnumData", ("s", "INPUT"))) == frozenset(["err"]):
            continue
        if any(e[0] == "EXT" for e in s.ev):
            ns -= 1
            continue
        strs = {k: x for k, x in s.pc.items() if k[0] == "str"}
        lit = [x[1] for k, x in strs.items() if x[0] == "is"]
        rep.count("symbolic_paths")
        if v[0] == "parsed":
            v = v[2]
        if ds.compile_error(v) is not None:
            if not (lit and lit[0] == oracle.TRANSPOSE[0]):
                rep.viol("symbolic:%s:error" % (lit[0] if lit else "other"), "name is rejected")
            continue
        try:
            ex = ds.Expansion(toks.norm(ds.Sim(2).sym(v)))
        except toks.BadTokens as e:
            rep.viol("symbolic:%s" % lit, str(e))
            continue
        if ex.impls:
            for x in lit:
                known.add(x)
            if not lit:
                rep.viol("symbolic:other", "a name outside the documented set is implemented: %s" % names_of(ex))
        else:
            generic += 1
            d = derive_list(ex)
            if d != ["P0"]:
                rep.viol("symbolic:%s:derive" % (lit[0] if lit else "other"), "an unknown name yields #[derive(%s)]" % d)
    if sum(I.stops.values()) > ns:
        rep.undecided("the set of names the lookup knows", "some of its paths are not decided")
        return
    allowed = set(oracle.BY_NAME) | {oracle.TRANSPOSE[0]} | set(oracle.STD_DERIVES)
    if generic == 0:
        rep.viol("symbolic:none", "no path passes unknown names to #[derive]")
    # names with companions (Copy, ...) fork too but implement nothing
    extra = known - allowed
    if extra:
        rep.viol("names:extra", "undocumented names are implemented: %s" % sorted(extra))
    missing = set(oracle.BY_NAME) | {oracle.TRANSPOSE[0]}
    missing -= known
    if missing:
        rep.viol("names:missing", "documented names are not implemented: %s" % sorted(missing))
    rep.counts["names_in_lookup"] = len(known)


GROUPS = [
    ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen"],
    ["Deref", "DerefMut"],
    ["Index", "IndexMut"],
    ["Fn", "FnMut", "FnOnce"],
    ["Read", "io::Read", "BufRead", "io::BufRead"],
    ["Write", "io::Write"],
    ["Seek", "io::Seek"],
    ["Debug", "fmt::Debug", "Display", "fmt::Display", "Error", "error::Error"],
    ["rayon::ParallelIterator", "rayon::IndexedParallelIterator"],
]
MIXED = [
    ["Iterator", "Foo", "ExactSizeIterator"], ["Foo", "BufRead", "Iterator"], ["Error", "Iterator", "Debug", "DoubleEndedIterator"],
    ["DerefMut", "IndexMut"], ["TrustedLen", "Fn", "FusedIterator"], ["io::BufRead", "Seek", "io::Write", "Read"], ["Foo", "Error", "Bar"],
    ["rayon::IndexedParallelIterator", "ExactSizeIterator"], ["Future", "futures03::Stream", "Unpin"], ["Iterator", "Iterator2"],
    ["Read", "tokio1::AsyncRead", "futures03::AsyncRead", "BufRead"],
]


def closure(l):
    """multiset semantic: canonical traits expected once each"""
    want = []
    for x in l:
        c = oracle.canon(x)
        if c in oracle.BY_NAME:
            for t in all_traits(x):
                if t.path not in want:
                    want.append(t.path)
    return want


def C07(I, rep, tier="quick"):
    rep.rule = ("For every ordered list without repetition drawn from each dependency/alias group (Iterator family, Deref, Index, Fn, BufRead/Read/Write/Seek "
                "aliases, Debug/Display/Error aliases, rayon; up to length 3, 4 in the thorough tier) and mixed lists, the set of impls in the expansion is "
                "the transitive closure of the named traits, each exactly once; names written twice under two spellings give one impl.")
    maxk = 4 if tier == "thorough" else 3
    for g in GROUPS:
        for k in range(1, min(maxk, len(g)) + 1):
            for l in itertools.permutations(g, k):
                once(I, rep, list(l))
    for l in MIXED + [["X%d" % i for i in range(n - 2)] + ["io::BufRead", "FusedIterator"] for n in LENS] + fillers():
        for p in (l, list(reversed(l))):
            once(I, rep, list(p))
    # #[derive] names: companions are never generated, and names stay
    for l in (["Copy"], ["Copy", "Clone"], ["Clone", "Copy"], ["Ord"], ["PartialOrd"], ["Eq", "PartialEq"], ["Ord", "PartialOrd", "Eq", "PartialEq"]):
        oks, errs, bad = run(I, rep, l, 2)
        for ex, s in oks:
            rep.count("lists")
            if ex.impls:
                rep.viol("%s:impls" % ",".join(l), "implements %s" % names_of(ex))
            d = derive_list(ex)
            if sorted(set(d)) != sorted(d) or not set(l) <= set(d):
                rep.viol("%s:derive" % ",".join(l), "#[derive(%s)] for enum_derive(%s)" % (", ".join(d), ", ".join(l)))


def fillers():
    """a companion named far from the trait that needs it"""
    out = []
    for n in LENS:
        x = ["X%d" % i for i in range(n)]
        for a, b in (("DoubleEndedIterator", "Iterator"), ("io::BufRead", "io::Read"), ("Error", "fmt::Debug")):
            out += [[a, b] + x, [a] + x + [b], x + [a, b]]
    return out


def once(I, rep, l):
    nm = ",".join(l)
    oks, errs, bad = run(I, rep, l, 2)
    for b in bad:
        rep.viol("%s:malformed" % nm, b)
    for e, s in errs:
        rep.viol("%s:rejected" % nm, toks_err(e))
    for ex, s in oks:
        rep.count("lists")
        got = sorted(x for x in names_of(ex) if x != "::core::marker::Unpin")
        want = sorted(closure(l))
        if got != want:
            dup = sorted({x for x in got if got.count(x) > 1})
            miss = sorted(set(want) - set(got))
            extra = sorted(set(got) - set(want))
            rep.viol("%s:closure" % nm, "; ".join(x for x in (
                "implemented twice: %s" % dup if dup else "", "missing: %s" % miss if miss else "", "not asked for: %s" % extra if extra else "") if x))


def C09(I, rep, tier="quick"):
    rep.rule = ("Each inherent impl of the Transpose expansion (1-3 variants): the self type pairs each variant with Option/Result of its own parameter, and "
                "every arm rebuilds the same variant from the payload's own side (map for values, map_err for errors). The macro is run on every pairing of "
                "up to three (thorough: four) parameters with up to as many payload types (parameters, other types, trailing comma): accepted exactly when "
                "the payload types are the parameters in order.")
    for n in VARS:
        G = ["T%d" % i for i in range(n)]
        oks, errs, bad = runc(I, rep, [oracle.TRANSPOSE[0]], G, G)
        for b in bad:
            rep.viol("Transpose:malformed", b)
        for e, s in errs:
            rep.viol("Transpose:rejects", "an enum whose payloads are its parameters is rejected")
        if not oks and not rep.viols and not I.und:
            rep.viol("Transpose:none", "no expansion")
        for ex, s in oks:
            rep.count("expansions")
            forms = []
            for im in ex.impls:
                try:
                    forms.append(transpose(rep, im, n))
                except (NotDispatch, toks.BadTokens) as e:
                    rep.viol("Transpose:%s" % ",".join(m.get("name", "?") for m in im["items"]), str(e))
            want = ["transpose/Option", "transpose/Result", "transpose_err/Result", "transpose_ok/Result"]
            if sorted(f for f in forms) != want and not rep.viols and not I.und:
                rep.viol("Transpose:methods", "methods %s instead of %s" % (sorted(forms), want))
            if len(ex.enum) != 1 or derive_list(ex):
                rep.viol("Transpose:enum", "the enum is changed")
    for G in (["'a", "T0"], ["T0", "'a"], ["T0", "const N"], ["const N", "T0"], ["'a"], ["const N"], ["'a", "'b", "T0", "T1", "const N"]):
        for f in itertools.product(["T0", "T1", "U", "N"], repeat=2):
            for f in (f[:1], f):
                oks, errs, bad = runc(I, rep, [oracle.TRANSPOSE[0]], G, list(f))
                rep.count("generic_shapes")
                if not I.und and (oks or bad or not errs):
                    rep.viol("Transpose:check:kinds", "enum<%s>(%s) is not rejected" % (",".join(G), ",".join(f)))
    top = 4 if tier == "thorough" else 3
    for k in range(0, top + 1):
        G = ["T%d" % i for i in range(k)]
        for m in range(1, top + 1):
            for f in itertools.product(G + ["U", "Vec<T0>", "(T0)", "m::T0"], repeat=m):
                if sum(x not in G for x in f) > 1 + (m == 2):
                    continue
                for trail in ((False, True) if k else (False,)):
                    want = list(f) == G
                    oks, errs, bad = runc(I, rep, [oracle.TRANSPOSE[0]], G, list(f), trail)
                    rep.count("generic_shapes")
                    what = "enum<%s>(%s)%s" % (",".join(G), ",".join(f), " with trailing comma" if trail else "")
                    if I.und:
                        continue
                    if bad and (oks or not errs):
                        rep.viol("Transpose:check:%s" % what, str(bad[:1]))
                    elif want and errs:
                        rep.viol("Transpose:check:%s" % what, "is rejected")
                    elif not want and (oks or not errs):
                        rep.viol("Transpose:check", "%s is not rejected" % what)


def transpose(rep, im, n):
    if im["trait"] is not None:
        raise NotDispatch("a trait impl")
    fns = [m for m in im["items"] if m["kind"] == "fn"]
    if len(fns) != 1 or len(im["items"]) != 1:
        raise NotDispatch("expected one method per impl")
    m = fns[0]
    # self type  E< W<..>, .. >
    p = toks.P(im["self"])
    if p.next() != ("v", "E"):
        raise NotDispatch("self type `%s`" % toks.show(im["self"]))
    args = toks.generics(p)
    if len(args) != n:
        raise NotDispatch("self type has %d arguments" % len(args))
    oks, errs_, kinds = [], [], set()
    for i, a in enumerate(args):
        q = toks.P(a)
        path = "".join(e[1] for e in q.until(lambda e: e == ("o", "<")))
        if path in ("::core::option::Option", "::std::option::Option"):
            kinds.add("Option")
        elif path in ("::core::result::Result", "::std::result::Result"):
            kinds.add("Result")
        else:
            raise NotDispatch("payload `%s`" % path)
        g = toks.generics(q)
        oks.append(g[0])
        errs_.append(g[1] if len(g) > 1 else None)
    if len(kinds) != 1:
        raise NotDispatch("mixed payload kinds")
    kind = kinds.pop()
    if len(set(im["generics"]) & {(("v", "EG"),)}) != 1:
        raise NotDispatch("the impl lacks the enum's own generics")
    T = [(("v", "T%d" % i),) for i in range(n)]
    own = {tuple(g) for g in im["generics"]}
    # result type
    q = toks.P(m["ret"])
    path = "".join(e[1] for e in q.until(lambda e: e == ("o", "<")))
    if path not in ("::core::%s::%s" % (kind.lower(), kind), "::std::%s::%s" % (kind.lower(), kind)):
        raise NotDispatch("returns `%s`" % toks.show(m["ret"]))
    rg = toks.generics(q)

    def enum_of(params):
        out = (("v", "E"), ("o", "<"))
        for k, x in enumerate(params):
            out += ((("o", ","),) if k else ()) + tuple(x)
        return out + (("o", ">"),)
    dt = lambda t: tuple(e for k, e in enumerate(t) if not (e == ("o", ",") and k + 1 < len(t) and t[k + 1] == ("o", ">")))
    same_ok, same_err = len(set(oks)) == 1 and n > 1 or (n == 1 and oks[0] != T[0]), None
    if kind == "Option":
        maps = {"map"}
        want = [enum_of(oks)]
        if oks != T:
            raise NotDispatch("payload %s is not Option of the variant's own parameter" % [toks.show(o) for o in oks])
    else:
        ok_side = [dt(rg[0]) == enum_of(oks)]
        if len(rg) != 2:
            raise NotDispatch("result type")
        maps = set()
        if dt(rg[0]) == enum_of(oks):
            maps.add("map")
        elif all(o == rg[0] for o in oks):
            pass
        else:
            raise NotDispatch("success side: `%s` from %s" % (toks.show(rg[0]), [toks.show(o) for o in oks]))
        if dt(rg[1]) == enum_of(errs_):
            maps.add("map_err")
        elif all(o == rg[1] for o in errs_):
            pass
        else:
            raise NotDispatch("error side: `%s` from %s" % (toks.show(rg[1]), [toks.show(o) for o in errs_]))
        for side, on in ((oks, "map" in maps), (errs_, "map_err" in maps)):
            for i, o in enumerate(side):
                if len(o) != 1:
                    raise NotDispatch("payload type `%s`" % toks.show(o))
            if on and len(set(side)) != n:
                raise NotDispatch("a mapped side shares one parameter between variants")
        want = None
    if kind == "Option" and (len(rg) != 1 or dt(rg[0]) != want[0]):
        raise NotDispatch("returns `%s`" % toks.show(m["ret"]))
    names = {frozenset(["map", "map_err"]): "transpose", frozenset(["map"]): "transpose" if kind == "Option" else "transpose_ok", frozenset(["map_err"]): "transpose_err"}
    if names.get(frozenset(maps)) != m["name"]:
        raise NotDispatch("`%s` maps the sides %s" % (m["name"], sorted(maps)))
    if kind == "Result":
        pos = {"transpose_ok": (T, None), "transpose_err": (None, T), "transpose": (T, None)}[m["name"]]
        for want_side, got in zip(pos, (oks, errs_)):
            if want_side is not None and got != want_side:
                raise NotDispatch("payload parameters %s are not the enum's own in order" % [toks.show(x) for x in got])
    if ds.recv(m["params"][0]) != "s" or len([x for x in m["params"] if x]) != 1:
        raise NotDispatch("receiver of `%s`" % m["name"])
    # arms
    body, un = ds.strip(m["body"])
    p = toks.P(body)
    if un or not (p.eat("i", "match") and p.eat("i", "self")):
        raise NotDispatch("not a match on self")
    arms = toks.P(p.next()[2])
    if not p.eof():
        raise NotDispatch("the result of the match is changed")
    seen = []
    while not arms.eof():
        pat = arms.until(lambda e: e == ("o", "=>"))
        arms.expect("o", "=>")
        rhs, _ = ds.strip(arms.until(lambda e: e == ("o", ",")))
        arms.eat("o", ",")
        if len(pat) != 4 or pat[0] not in (("v", "E"), ("i", "Self")) or pat[2][0] != "v" or pat[3][0] != "g" or len(pat[3][2]) != 1:
            raise NotDispatch("arm `%s`" % toks.show(pat))
        V, x = pat[2], pat[3][2]
        seen.append(V[1])
        r = toks.P(rhs)
        if r.next() != x[0]:
            raise NotDispatch("arm of %s does not map its payload: `%s`" % (V[1], toks.show(rhs)))
        got = []
        while r.eat("o", "."):
            f = r.next()[1]
            g = r.next()
            got.append(f)
            if f not in ("map", "map_err"):
                raise NotDispatch("arm of %s calls `%s`" % (V[1], f))
            c = ds.strip(g[2])[0]
            okc = c in ((("v", "E"), ("o", "::"), V),)
            if not okc and c[:1] == (("o", "|"),) and len(c) >= 4:
                y = c[1]
                okc = ds.strip(c[3:])[0] == (("v", "E"), ("o", "::"), V, ("g", "(", (y,)))
            if not okc:
                raise NotDispatch("variant %s is turned into `%s`" % (V[1], toks.show(c)))
        if not r.eof() or sorted(got) != sorted(maps):
            raise NotDispatch("arm of %s applies %s instead of %s: `%s`" % (V[1], got, sorted(maps), toks.show(rhs)))
        rep.count("arms")
    if sorted(seen) != sorted("V%d" % i for i in range(n)):
        raise NotDispatch("arms for %s" % seen)
    return "%s/%s" % (m["name"], kind)


# -------------------------------------------------------------------- hygiene
PRIMS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "str", "char", "f32", "f64", "u128", "i128"}
# (primitive type names are the language's own; shadowing them is not supported by any derive)
KEYWORDS = {"as", "dyn", "else", "fn", "for", "if", "impl", "in", "let", "match", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "type",
            "unsafe", "where", "const", "extern", "trait", "true", "false", "loop", "while", "break", "continue", "_", "enum"}


class Hyg:
    def __init__(self, rep, nm):
        self.rep, self.nm = rep, nm

    def bad(self, what, key):
        self.rep.viol("%s:%s" % (self.nm, key), what)


def hygiene(rep, nm, ex):
    for im in ex.impls:
        impl_hyg(rep, nm, im, set())
    for it in ex.items:
        if it["kind"] == "impl":
            continue
        if it["kind"] == "const" and it["name"] == "_":
            inner = toks.parse_items(it["value"][0][2]) if it["value"] and it["value"][0][0] == "g" else []
            local = {x["name"] for x in inner if "name" in x}
            for x in inner:
                if x["kind"] == "impl":
                    impl_hyg(rep, nm, x, local, scoped=True)
                elif x["kind"] == "trait":
                    for m in x["items"]:
                        scan(rep, nm, m.get("ty") or (), local)
                else:
                    rep.viol("%s:item" % nm, "item `%s` in an anonymous const" % x["kind"])
            scan(rep, nm, it["ty"], set())
        elif "name" in it and it["name"].startswith("__"):
            pass
        else:
            rep.viol("%s:item:%s" % (nm, it.get("name", it["kind"])), "introduces the item name `%s`" % it.get("name", it["kind"]))


def gen_names(rep, nm, gs, free=False):
    out = set()
    for g in gs:
        if not g or g[0][0] == "v":
            continue
        e = g[1] if g[0] == ("i", "const") else g[0]
        if e[0] != "i":
            continue
        out.add(e[1])
        if not (e[1].lstrip("'").startswith("__")) and not free:
            rep.viol("%s:generic:%s" % (nm, e[1]), "introduces the generic parameter name `%s`, which can capture a user's" % e[1])
    return out


def impl_hyg(rep, nm, im, local, scoped=False):
    # a scoped blanket impl without the enum's generics cannot capture anything of the user's
    foreign = scoped and not any(g == (("v", "EG"),) for g in im["generics"])
    names = gen_names(rep, nm, im["generics"], free=foreign) | local
    rep.count("impls")
    for g in im["generics"]:
        scan(rep, nm, g, names)
    scan(rep, nm, im["trait"] or (), names)
    scan(rep, nm, im["self"], names)
    for w in im["where"]:
        scan(rep, nm, w, names)
    for m in im["items"]:
        if m["kind"] == "type":
            scan(rep, nm, m["ty"] or (), names)
            continue
        if m["kind"] != "fn":
            scan(rep, nm, m.get("toks", ()), names)
            continue
        inner = names | gen_names(rep, nm, m["generics"])
        locs = set(inner)
        for prm in m["params"]:
            p = toks.P(prm)
            pat = p.until(lambda e: e == ("o", ":"))
            for e in toks.flat_idents(pat):
                if e[0] == "i":
                    locs.add(e[1])
            scan(rep, nm, tuple(p.t[p.i + 1:]), inner)
        for g in m["generics"]:
            scan(rep, nm, g, inner)
        scan(rep, nm, m["ret"], inner)
        for w in m["where"]:
            scan(rep, nm, w, inner)
        scan(rep, nm, m["body"] or (), locs | binders(m["body"] or ()))
        rep.count("methods")


def binders(els):
    """names bound by arms `E::V(x) =>`, `let x`, closures `|x|` inside a body"""
    out = set()
    for k, e in enumerate(els):
        if e == ("o", "=>"):
            j = k - 1
            if j >= 0 and els[j][0] == "g":
                for x in toks.flat_idents(els[j][2]):
                    if x[0] == "i":
                        out.add(x[1])
        if e == ("i", "let") and k + 1 < len(els):
            for x in els[k + 1:k + 3]:
                if x[0] == "i":
                    out.add(x[1])
        if e == ("o", "|") and k + 2 < len(els) and els[k + 1][0] == "i" and els[k + 2] == ("o", "|"):
            out.add(els[k + 1][1])
        if e[0] == "g":
            out |= binders(e[2])
    return out


# method names called with method syntax are resolved on Pin/Option/Result receivers
INHERENT = {"get_unchecked_mut", "map", "map_err", "as_mut", "get_mut", "as_ref"}


def scan(rep, nm, els, names):
    els = tuple(els)
    for k, e in enumerate(els):
        prev = els[k - 1] if k else None
        nxt = els[k + 1] if k + 1 < len(els) else None
        if e[0] == "g":
            if prev == ("o", "#") and e[1] == "[":
                continue
            if prev == ("o", "!"):
                pass
            scan(rep, nm, e[2], names)
            continue
        if e[0] != "i":
            continue
        rep.count("identifiers")
        w = e[1]
        if w.startswith("'") or w in KEYWORDS or w in names or (w.startswith("__") and not w[2:3].isupper()):
            if w in names and nxt == ("o", "!"):
                rep.viol("%s:macro:%s" % (nm, w), "calls the macro `%s!` by a relative name" % w)
            continue
        if prev == ("o", "::"):
            continue
        if prev == ("o", ".") :
            if w not in INHERENT:
                rep.viol("%s:method:%s" % (nm, w), "calls `.%s` by method syntax, which a user's item can capture" % w)
            continue
        if nxt == ("o", "=") and in_angle(els, k):
            continue        # associated type binding
        if w in PRIMS:
            continue
        if w.startswith("__"):
            rep.viol("%s:undeclared:%s" % (nm, w), "refers to `%s`, which the expansion does not declare" % w)
            continue
        rep.viol("%s:path:%s" % (nm, w), "refers to `%s` by a relative path" % w)


def in_angle(els, k):
    d = 0
    for e in els[:k]:
        if e == ("o", "<"):
            d += 1
        elif e == ("o", ">"):
            d -= 1
    return d > 0


def C10(I, rep):
    rep.rule = ("Every identifier introduced by the expansion of each documented name is part of an absolute path, Self, a keyword, a primitive type, a "
                "locally bound value, an associated item reached through such a path, or a `__` generic; every item it introduces is anonymous or reserved; "
                "`#[auto_enum]` part: see the tokens built by the branch rewriting (absolute paths, reserved bindings).")
    for nm in [t.names[0] for t in oracle.TRAITS] + [oracle.TRANSPOSE[0]]:
        for n in (1, 2):
            oks, errs, bad = run(I, rep, [nm], n)
            for b in bad:
                rep.viol("%s:malformed" % nm, b)
            for ex, s in oks:
                rep.count("expansions")
                try:
                    hygiene(rep, nm, ex)
                except toks.BadTokens as e:
                    rep.viol("%s:malformed" % nm, str(e))


# ------------------------------------------------------------------ features
def feature_table():
    out = {None: []}
    for t in oracle.TRAITS:
        out.setdefault(t.feature, []).extend(t.names)
    out.setdefault(oracle.TRANSPOSE[1], []).append(oracle.TRANSPOSE[0])
    return out


def one_config(args):
    feats, tag = args
    path = os.path.join(build.BUILD, "cfg_%s_%d.json" % (tag, os.getpid()))
    try:
        d = build.dump(feats, path)
    except build.CompileError as e:
        return feats, "compile_error", str(e)[-1500:]
    finally:
        if os.path.exists(path):
            os.remove(path)
    I = interp.Interp(d)
    res = {}
    for nm in list(oracle.BY_NAME) + [oracle.TRANSPOSE[0]]:
        oks, errs, bad = run(I, None, [nm], 2)
        if I.und:
            res[nm] = ("undecided", I.und)
            continue
        if bad:
            res[nm] = "bad: %s" % bad[0]
            continue
        ims = [sorted(names_of(ex)) for ex, s in oks]
        drv = [derive_list(ex) for ex, s in oks]
        if oks and all(x for x in ims) and all(d == [] for d in drv):
            res[nm] = ("impl", ims[0])
        elif oks and all(not x for x in ims) and all(d == [nm] for d in drv):
            res[nm] = ("derive", [])
        else:
            res[nm] = "mixed %s %s %s" % (ims, drv, errs[:1])
    return feats, "ok", res


def C08(I, rep, tier="quick"):
    rep.rule = ("The crate is type-checked and interpreted once per feature configuration (each documented feature alone with its opt-in, none, all, and all "
                "but one): every documented name is implemented exactly when its feature is on (directly or by alias) and is otherwise passed to #[derive]; "
                "each unstable-trait feature without `unstable` must fail to compile with a compile_error.")
    ft = feature_table()
    feats = [f for f in ft if f]
    m = build.manifest().get("features", {})
    for f in feats + sorted(oracle.ALIAS_FEATURES):
        if f not in m:
            rep.viol("feature:%s" % f, "documented feature `%s` does not exist" % f)
    for f in m.get("default", []):
        pass
    if sorted(m.get("default", [])) != ["std"]:
        rep.viol("feature:default", "default features are %s" % m.get("default"))
    allf = sorted(set(feats))
    jobs = []
    jobs.append(([], "none"))
    jobs.append((allf + ["unstable"], "all"))
    for f in allf + sorted(oracle.ALIAS_FEATURES):
        u = ["unstable"] if f in oracle.UNSTABLE or oracle.ALIAS_FEATURES.get(f) in oracle.UNSTABLE else []
        jobs.append(([f] + u, "only_" + f))
    for f in ("type_analysis", "unstable"):
        jobs.append(([f], "only_" + f))
    if tier == "thorough":
        for f in allf:
            jobs.append(([x for x in allf if x != f] + ["unstable"], "but_" + f))
        for a, b in itertools.combinations([x for x in allf if x not in oracle.UNSTABLE], 2):
            jobs.append(([a, b], "pair_%s_%s" % (a, b)))
    neg = []
    for f in sorted(oracle.UNSTABLE) + sorted(oracle.ALIAS_FEATURES):
        neg.append(([f], "neg_" + f))
    neg.append((allf, "neg_all"))
    for f in sorted(oracle.UNSTABLE):
        neg.append(([x for x in allf if x not in oracle.UNSTABLE or x == f], "neg_all_" + f))
    build.ensure_driver()
    with ProcessPoolExecutor(8) as ex:
        pos = list(ex.map(one_config, jobs))
        ng = list(ex.map(one_config, neg))
    for fs, kind, res in pos:
        tag = "+".join(fs) or "none"
        rep.count("configurations")
        rep.add("configurations_checked", tag) if len(rep.lists.get("configurations_checked", [])) < 60 else None
        if kind != "ok":
            rep.viol("config:%s" % tag, "does not compile: %s" % res[-300:])
            continue
        on = set(fs) | {oracle.ALIAS_FEATURES.get(f) for f in fs}
        for f, ns in ft.items():
            for nm in ns:
                want = "impl" if f is None or f in on else "derive"
                got = res[nm]
                if got[0] == "undecided":
                    rep.undecided("%s with [%s]" % (nm, tag), got[1])
                    continue
                rep.count("decisions")
                if not (isinstance(got, tuple) and got[0] == want):
                    rep.viol("%s@%s" % (nm, f or "always"), "with features [%s] `%s` should be %s, is %s" % (
                        tag, nm, "implemented" if want == "impl" else "passed to #[derive]", got))
    for fs, kind, res in ng:
        tag = "+".join(fs)
        rep.count("opt_in_configurations")
        if kind != "compile_error":
            rep.viol("opt-in:%s" % tag, "compiles without the `unstable` opt-in")
        elif "unstable" not in res:
            rep.viol("opt-in:%s" % tag, "fails for another reason: %s" % res[-200:])
