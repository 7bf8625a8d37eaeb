"""Abstract transfer functions of library functions (core/alloc/std, syn, quote,
proc_macro2, derive_utils)."""
from interp import (Stop, UNIT, TRUE, FALSE, NONE, MOVED, some, ok, err, const, b2, proj, INF)

PUNCT = {
    "push_add": "+", "push_add_eq": "+=", "push_and": "&", "push_and_and": "&&", "push_and_eq": "&=",
    "push_at": "@", "push_bang": "!", "push_caret": "^", "push_caret_eq": "^=", "push_colon": ":",
    "push_colon2": "::", "push_comma": ",", "push_div": "/", "push_div_eq": "/=", "push_dot": ".",
    "push_dot2": "..", "push_dot3": "...", "push_dot_dot_eq": "..=", "push_eq": "=", "push_eq_eq": "==",
    "push_ge": ">=", "push_gt": ">", "push_le": "<=", "push_lt": "<", "push_mul_eq": "*=", "push_ne": "!=",
    "push_or": "|", "push_or_eq": "|=", "push_or_or": "||", "push_pound": "#", "push_question": "?",
    "push_rarrow": "->", "push_larrow": "<-", "push_rem": "%", "push_rem_eq": "%=", "push_fat_arrow": "=>",
    "push_semi": ";", "push_shl": "<<", "push_shl_eq": "<<=", "push_shr": ">>", "push_shr_eq": ">>=",
    "push_star": "*", "push_sub": "-", "push_sub_eq": "-=", "push_underscore": "_",
}

UNITTY = ()


def lastplace(I, st, a):
    """the place of the innermost non-reference value"""
    if a[0] != "ref":
        return I.deref(st, a)
    n = 0
    while True:
        v = I.load(st, a[1], a[2])
        if v[0] == "ref":
            a = v
        elif v[0] == "guard":
            a = ("ref", v[1], v[2])
        else:
            return a[1], a[2]
        n += 1
        if n > 30:
            raise Stop("reference cycle")


def D(I, st, a):
    n = 0
    while a[0] in ("ref", "guard"):
        a = I.load(st, a[1], a[2])
        n += 1
        if n > 30:
            raise Stop("reference cycle")
    return a


def temp(I, st, v):
    I.frame += 1
    r = ("L", I.frame, "tmp")
    st.mem[r] = v
    return ("ref", r, ())


# ------------------------------------------------------------------ defaults
def default_of(I, st, ti):
    t = I.ty(ti)
    if t["k"] == "prim":
        return FALSE if t["p"] == "bool" else const(0)
    if t["k"] == "tuple":
        return ("tup", tuple(default_of(I, st, x) for x in t["ts"]))
    if t["k"] == "adt":
        p = t["p"]
        if p in ("std::vec::Vec", "syn::punctuated::Punctuated", "std::collections::VecDeque"):
            return ("seq", ())
        if p == "std::string::String":
            return const("")
        if p == "std::option::Option":
            return NONE
        if p == "proc_macro2::TokenStream":
            return ("tok", ())
        if p in ("std::cell::Cell", "std::cell::RefCell", "std::boxed::Box"):
            return default_of(I, st, t["a"][0])
        if p in ("std::collections::HashSet", "std::collections::HashMap", "std::collections::BTreeSet", "std::collections::BTreeMap"):
            return ("coll", p, ())
        return ("dflt", p)
    return ("dflt", t["s"])


# ----------------------------------------------------------------- sequences
def seq_len(I, st, v):
    return I.length(st, v)


def seq_elem_at(I, st, root, path, v, k):
    """is there a k-th element?  -> [(exists, state)]"""
    n = I.length(st, v)
    return [(x, s) for x, s in I.force_bool(st, I.binop("Gt", n, const(k)))]


def is_symseq(v):
    return v[0] not in ("seq",)


def base_len_term(v):
    while v[0] in ("push", "insert", "ov", "rec"):
        v = v[2] if v[0] == "rec" else v[1]
    return v


def next_iter(I, st, it):
    """-> list of (item or None, new iterator, state)"""
    k = it[1]
    if k in ("ref", "own"):
        if k == "ref":
            root, path, pos = it[2], it[3], it[4]
            v = I.load(st, root, path)
        else:
            v, pos = it[2], it[3]
        while v[0] == "guard" or v[0] == "ref":
            if v[0] == "ref" and k == "ref":
                root, path = v[1], v[2]
            v = I.load(st, v[1], v[2])
        if v[0] == "mapseq":
            return mapseq_next(I, st, it, v, pos)
        out = []
        for x, s in seq_elem_at(I, st, None, None, v, pos):
            if not x:
                out.append((None, it, s))
                continue
            base = base_len_term(v)
            if base[0] != "seq" and pos >= I.bound + (0 if v[0] not in ("push", "insert") else 1):
                s.cut = True
                continue
            if k == "ref":
                out.append((("ref", root, path + (("i", pos),)), ("it", "ref", root, path, pos + 1), s))
            else:
                out.append((proj(v, ("i", pos)), ("it", "own", v, pos + 1), s))
        return out
    if k == "range":
        a, b = it[2], it[3]
        out = []
        for x, s in I.force_bool(st, I.binop("Lt", a, b)):
            if x:
                if a[0] == "c" and b[0] != "c" and a[1] >= I.bound + 2:
                    s.cut = True
                    continue
                out.append((a, ("it", "range", I.binop("Add", a, const(1)), b), s))
            else:
                out.append((None, it, s))
        return out
    if k == "from":
        return [(it[2], ("it", "from", I.binop("Add", it[2], const(1))), st)]
    if k == "once":
        if it[2] is None:
            return [(None, it, st)]
        return [(it[2], ("it", "once", None), st)]
    if k == "const":
        return [(it[2], it, st)]
    if k == "map":
        out = []
        for x, n, s in next_iter(I, st, it[2]):
            if x is None:
                out.append((None, ("it", "map", n, it[3]), s))
                continue
            for v, s2 in I.call_value(s, it[3], [x]):
                out.append((v, ("it", "map", n, it[3]), s2))
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        out, work = [], [(it[2], st)]
        n_guard = 0
        while work:
            inner, s0 = work.pop()
            n_guard += 1
            if n_guard > 4000:
                raise Stop("filter")
            for x, n, s in next_iter(I, s0, inner):
                if x is None:
                    out.append((None, ("it", k, n, it[3]), s))
                    continue
                if k == "filter":
                    arg = temp(I, s, x)
                    for v, s2 in I.call_value(s, it[3], [arg]):
                        for b, s3 in I.force_bool(s2, v):
                            if b:
                                out.append((x, ("it", k, n, it[3]), s3))
                            else:
                                work.append((n, s3))
                elif k == "filter_map":
                    for v, s2 in I.call_value(s, it[3], [x]):
                        for name, s3 in I.fork_variant(s2, v, "std::option::Option"):
                            if name == "Some":
                                out.append((proj(proj(v, ("d", "Some", "std::option::Option")), "0"), ("it", k, n, it[3]), s3))
                            else:
                                work.append((n, s3))
                elif k == "take_while":
                    arg = temp(I, s, x)
                    for v, s2 in I.call_value(s, it[3], [arg]):
                        for b, s3 in I.force_bool(s2, v):
                            if b:
                                out.append((x, ("it", k, n, it[3]), s3))
                            else:
                                out.append((None, ("it", "own", ("seq", ()), 0), s3))
                elif k == "skip_while":
                    arg = temp(I, s, x)
                    for v, s2 in I.call_value(s, it[3], [arg]):
                        for b, s3 in I.force_bool(s2, v):
                            if b:
                                work.append((n, s3))
                            else:
                                out.append((x, n, s3))
                else:
                    for v, s2 in I.call_value(s, it[3], [x]):
                        for name, s3 in I.fork_variant(s2, v, OPT):
                            if name == "Some":
                                out.append((proj(proj(v, ("d", "Some", OPT)), "0"), ("it", k, n, it[3]), s3))
                            else:
                                out.append((None, ("it", "own", ("seq", ()), 0), s3))
        return out
    if k == "inspect":
        out = []
        for x, n, s in next_iter(I, st, it[2]):
            if x is None:
                out.append((None, ("it", k, n, it[3]), s))
                continue
            for _, s2 in I.call_value(s, it[3], [temp(I, s, x)]):
                out.append((x, ("it", k, n, it[3]), s2))
        return out
    if k == "from_fn":
        out = []
        for v, s in I.call_value(st, it[2], []):
            for name, s2 in I.fork_variant(s, v, OPT):
                out.append(((proj(proj(v, ("d", "Some", OPT)), "0") if name == "Some" else None), it, s2))
        return out
    if k == "successors":
        out = []
        for name, s in I.fork_variant(st, it[2], OPT):
            if name == "None":
                out.append((None, it, s))
                continue
            x = proj(proj(it[2], ("d", "Some", OPT)), "0")
            for v, s2 in I.call_value(s, it[3], [temp(I, s, x)]):
                out.append((x, ("it", k, v, it[3]), s2))
        return out
    if k == "byref":
        r, p = lastplace(I, st, it[2])
        cur = I.load(st, r, p)
        if cur[0] != "it":
            raise Stop("iterator behind a reference")
        out = []
        for x, n, s in next_iter(I, st, cur):
            I.store(s, r, p, n)
            out.append((x, it, s))
        return out
    if k == "chain":
        out = []
        if it[2] is not None:
            for x, n, s in next_iter(I, st, it[2]):
                if x is not None:
                    out.append((x, ("it", "chain", n, it[3]), s))
                else:
                    for y, m, s2 in next_iter(I, s, it[3]):
                        out.append((y, ("it", "chain", None, m), s2))
            return out
        return [(y, ("it", "chain", None, m), s) for y, m, s in next_iter(I, st, it[3])]
    if k == "zip":
        out = []
        for x, n, s in next_iter(I, st, it[2]):
            if x is None:
                out.append((None, it, s))
                continue
            for y, m, s2 in next_iter(I, s, it[3]):
                if y is None:
                    out.append((None, it, s2))
                else:
                    out.append((("tup", (x, y)), ("it", "zip", n, m), s2))
        return out
    if k == "enum":
        out = []
        for x, n, s in next_iter(I, st, it[2]):
            if x is None:
                out.append((None, it, s))
            else:
                out.append((("tup", (const(it[3]), x)), ("it", "enum", n, it[3] + 1), s))
        return out
    if k == "cloned":
        return [((None if x is None else load1(I, s, x)), ("it", "cloned", n), s) for x, n, s in next_iter(I, st, it[2])]
    if k == "skip":
        cur = [(it[2], it[3], st)]
        out = []
        while cur:
            inner, n, s = cur.pop()
            for x, m, s2 in next_iter(I, s, inner):
                if x is None:
                    out.append((None, ("it", "skip", m, 0), s2))
                elif n > 0:
                    cur.append((m, n - 1, s2))
                else:
                    out.append((x, ("it", "skip", m, 0), s2))
        return out
    if k == "take":
        if it[3] <= 0:
            return [(None, it, st)]
        return [(x, ("it", "take", n, it[3] - 1), s) for x, n, s in next_iter(I, st, it[2])]
    if k == "rev":
        return [r for n, s in reversed_it(I, st, it[2]) for r in next_iter(I, s, n)]
    if k == "peekable":
        if it[3] is not None:
            x = it[3][0]
            return [(x, ("it", "peekable", it[2], None), st)]
        return [(x, ("it", "peekable", n, None), s) for x, n, s in next_iter(I, st, it[2])]
    if k == "flat_map":
        # (inner, f, current)
        out, work = [], [(it[2], it[4], st)]
        while work:
            inner, cur, s = work.pop()
            if cur is not None:
                for x, n, s2 in next_iter(I, s, cur):
                    if x is not None:
                        out.append((x, ("it", "flat_map", inner, it[3], n), s2))
                    else:
                        work.append((inner, None, s2))
                continue
            for x, n, s2 in next_iter(I, s, inner):
                if x is None:
                    out.append((None, ("it", "flat_map", n, it[3], None), s2))
                    continue
                vs = I.call_value(s2, it[3], [x]) if it[3] is not None else [(x, s2)]
                for v, s3 in vs:
                    work.append((n, to_iter(I, s3, v), s3))
        return out
    raise Stop("iterator kind %s" % k)


OPT = "std::option::Option"


def fix_int(I, st, t):
    """the possible values of an integer term -> [(n, state)]; larger values are cut"""
    if t[0] == "c":
        return [(t[1], st)]
    out, cur = [], [st]
    for n in range(I.bound + 2):
        nxt = []
        for s in cur:
            for b, s2 in I.force_bool(s, I.binop("Eq", t, const(n))):
                (out if b else nxt).append((n, s2) if b else s2)
        cur = nxt
    for s in cur:
        s.cut = True
    return out


def fix_lengths(I, st, it):
    """an iterator over sequences of exactly known lengths -> [(iterator, state)]"""
    k = it[1]
    if k in ("ref", "own"):
        v, pos = (I.load(st, it[2], it[3]), it[4]) if k == "ref" else (it[2], it[3])
        root, path = (it[2], it[3]) if k == "ref" else (None, None)
        while v[0] in ("ref", "guard"):
            root, path = v[1], v[2]
            v = I.load(st, root, path)
        out = []
        for n, s in fix_int(I, st, I.length(st, v)):
            if k == "ref":
                xs = [("ref", root, path + (("i", i),)) for i in range(pos, n)]
            else:
                xs = [proj(v, ("i", i)) for i in range(pos, n)]
            out.append((("it", "own", ("seq", tuple(xs)), 0), s))
        return out
    if k == "once":
        return [(("it", "own", ("seq", () if it[2] is None else (it[2],)), 0), st)]
    if k == "range":
        return [(("it", "own", ("seq", tuple(const(i) for i in range(a, b))), 0), s2)
                for a, s in fix_int(I, st, it[2]) for b, s2 in fix_int(I, s, it[3])]
    if k == "cloned":
        return [(("it", "own", ("seq", tuple(load1(I, s, x) for x in n[2][1])), 0), s) for n, s in fix_lengths(I, st, it[2])]
    if k == "enum":
        return [(("it", "own", ("seq", tuple(("tup", (const(it[3] + i), x)) for i, x in enumerate(n[2][1]))), 0), s)
                for n, s in fix_lengths(I, st, it[2])]
    if k == "rev":
        return [(("it", "own", ("seq", n[2][1][::-1]), 0), s) for n, s in fix_lengths(I, st, it[2])]
    if k in ("skip", "take"):
        return [(("it", "own", ("seq", n[2][1][it[3]:] if k == "skip" else n[2][1][:it[3]]), 0), s) for n, s in fix_lengths(I, st, it[2])]
    if k == "chain":
        if it[2] is None:
            return fix_lengths(I, st, it[3])
        return [(("it", "own", ("seq", n[2][1] + m[2][1]), 0), s2) for n, s in fix_lengths(I, st, it[2]) for m, s2 in fix_lengths(I, s, it[3])]
    if k == "zip" and (it[2][1] in ("const", "from") or it[3][1] in ("const", "from")):
        raise Stop("endless sequence")
    if k == "zip":
        return [(("it", "own", ("seq", tuple(("tup", p) for p in zip(n[2][1], m[2][1]))), 0), s2)
                for n, s in fix_lengths(I, st, it[2]) for m, s2 in fix_lengths(I, s, it[3])]
    if k in ("const", "from"):
        raise Stop("endless sequence")
    # an adaptor with a closure: run it to its end
    out, work = [], [(it, st, ())]
    while work:
        i, s, acc = work.pop()
        if len(acc) > 5000:
            raise Stop("endless iterator")
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append((("it", "own", ("seq", acc), 0), s1))
            else:
                work.append((m, s1, acc + (x,)))
    return out


def reversed_it(I, st, it):
    k = it[1]
    if k in ("map", "filter", "filter_map", "cloned", "inspect"):
        return [(("it", k, n) + tuple(it[3:]), s) for n, s in reversed_it(I, st, it[2])]
    if k == "rev":
        return [(it[2], st)]
    if k == "chain" and it[2] is not None:
        return [(("it", "chain", n, m), s2) for n, s in reversed_it(I, st, it[3]) for m, s2 in reversed_it(I, s, it[2])]
    return [(("it", "own", ("seq", n[2][1][::-1]), 0), s) for n, s in fix_lengths(I, st, it)]


def mapseq_next(I, st, it, v, pos):
    # ('mapseq', seq, f, generic result)
    out = []
    for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v[1]), const(pos))):
        if not x:
            out.append((None, it, s))
        elif pos >= I.bound:
            s.cut = True
        else:
            r = proj(v, ("i", pos))
            if it[1] == "ref":
                out.append((temp(I, s, r), ("it", "ref", it[2], it[3], pos + 1), s))
            else:
                out.append((r, ("it", "own", v, pos + 1), s))
    return out


def load1(I, st, a):
    if a[0] in ("ref", "guard"):
        return I.load(st, a[1], a[2])
    return a


def list_all(I, st, it):
    """all items of an iterator over known elements, or None"""
    items, n = [], 0
    s = st
    while True:
        r = next_iter(I, s, it)
        if len(r) != 1 or r[0][2] is not s:
            return None
        x, it, _ = r[0]
        if x is None:
            return items
        items.append(x)
        n += 1
        if n > 5000:
            raise Stop("endless iterator")


def to_iter(I, st, a):
    """IntoIterator"""
    if a[0] == "it":
        return a
    if a[0] == "ref":
        v = I.load(st, a[1], a[2])
        if v[0] == "it":
            return ("it", "byref", a)
        r, p = lastplace(I, st, a)
        v = I.load(st, r, p)
        if v[0] == "adt" and v[1] == "std::option::Option":
            return ("it", "once", ("ref", r, p + (("d", "Some", v[1]), "0")) if v[2] == "Some" else None)
        return ("it", "ref", r, p, 0)
    if a[0] == "adt" and a[1] == "std::option::Option":
        return ("it", "once", a[3][0][1] if a[2] == "Some" else None)
    if a[0] == "adt" and a[1] == "std::ops::Range":
        return ("it", "range", proj(a, "start"), proj(a, "end"))
    if a[0] == "adt" and a[1] == "std::ops::RangeInclusive":
        return ("it", "range", proj(a, "start"), I.binop("Add", proj(a, "end"), const(1)))
    if a[0] == "adt" and a[1] == "std::ops::RangeFrom":
        return ("it", "from", proj(a, "start"))
    if a[0] == "coll":
        if len(a[2]) > 1 and "BTree" not in a[1]:
            raise Stop("iteration in the unspecified order of a hash table")
        return ("it", "own", ("seq", a[2]), 0)
    return ("it", "own", a, 0)


def segs(I, st, it):
    """iterator as a list of segments: ('one', value) or ('all', symbolic sequence)
    with pipelines of closures; None if not expressible"""
    k = it[1]
    if k in ("ref", "own"):
        if k == "ref":
            v = I.load(st, it[2], it[3])
            pos = it[4]
        else:
            v, pos = it[2], it[3]
        if pos != 0 and v[0] != "seq":
            return None
        return seq_segs(I, st, v, pos, k == "ref", (it[2], it[3]) if k == "ref" else None)
    if k == "once":
        return [] if it[2] is None else [("one", it[2], ())]
    if k == "chain":
        a = segs(I, st, it[2]) if it[2] is not None else []
        b = segs(I, st, it[3])
        return None if a is None or b is None else a + b
    if k in ("map", "filter", "filter_map"):
        a = segs(I, st, it[2])
        return None if a is None else [(t, v, fs + ((k, it[3]),)) for t, v, fs in a]
    if k == "cloned":
        a = segs(I, st, it[2])
        return None if a is None else [(t, v, fs + (("cloned", None),)) for t, v, fs in a]
    return None


def seq_segs(I, st, v, pos, byref, place):
    if v[0] == "seq":
        out = []
        for i in range(pos, len(v[1])):
            if byref:
                out.append(("one", ("ref", place[0], place[1] + (("i", i),)), ()))
            else:
                out.append(("one", v[1][i], ()))
        return out
    if v[0] in ("push", "insert"):
        b = seq_segs(I, st, v[1], 0, False, None)
        if b is None:
            return None
        if byref:
            b = [(t, (("tmpref", x) if t == "one" else x), f) for t, x, f in b]
        e = ("one", (("tmpref", v[2]) if byref else v[2]), ())
        return b + [e] if v[0] == "push" else [e] + b
    return [("all", ("refelem" if byref else "ownelem", v), ())]


def run_pipe(I, st, x, fs):
    """-> [(value or None, state)]"""
    cur = [(x, st)]
    for k, f in fs:
        nxt = []
        for v, s in cur:
            if v is None:
                nxt.append((None, s))
            elif k == "map":
                nxt += I.call_value(s, f, [v])
            elif k == "cloned":
                nxt.append((load1(I, s, v), s))
            elif k == "filter":
                for r, s2 in I.call_value(s, f, [temp(I, s, v)]):
                    for b, s3 in I.force_bool(s2, r):
                        nxt.append((v if b else None, s3))
            elif k == "filter_map":
                for r, s2 in I.call_value(s, f, [v]):
                    for n, s3 in I.fork_variant(s2, r, "std::option::Option"):
                        nxt.append((proj(proj(r, ("d", "Some", "std::option::Option")), "0") if n == "Some" else None, s3))
        cur = nxt
    return cur


def delta(a, b):
    return frozenset((k, v) for k, v in b.items() if a.get(k) != v)


def quantify(I, st, it, pred, want, byref_arg):
    """first element whose predicate equals `want`:
    -> [(("hit", item, index) or None, state)]"""
    sg = segs(I, st, it)
    if sg is None:
        return quantify_loop(I, st, it, pred, want, byref_arg)
    out = []
    cur = [st]
    idx = 0
    for t, v, fs in sg:
        nxt = []
        for s in cur:
            if t == "one":
                if v[0] == "tmpref":
                    v = temp(I, s, v[1])
                for x, s1 in run_pipe(I, s, v, fs):
                    if x is None:
                        nxt.append(s1)
                        continue
                    arg = temp(I, s1, x) if byref_arg else x
                    for r, s2 in I.call_value(s1, pred, [arg]):
                        for b, s3 in I.force_bool(s2, r):
                            if b == want:
                                out.append((("hit", x, const(idx)), s3))
                            else:
                                nxt.append(s3)
                idx += 1
            else:
                kind, seqv = v
                e = ("elem", seqv)
                probe = s.fork()
                ev0 = probe.ev
                arg = temp(I, probe, e) if kind == "refelem" else e
                rows = []
                for x, s1 in run_pipe(I, probe, arg, fs):
                    if x is None:
                        rows.append((delta(s.pc, s1.pc), not want))
                        continue
                    a2 = temp(I, s1, x) if byref_arg else x
                    for r, s2 in I.call_value(s1, pred, [a2]):
                        for b, s3 in I.force_bool(s2, r):
                            if s3.ev != ev0:
                                raise Stop("effects inside a quantifier closure")
                            rows.append((delta(s.pc, s3.pc), b))
                hit = frozenset(d for d, b in rows if b == want)
                if not hit:
                    nxt.append(s)
                    continue
                if all(b == want for d, b in rows):
                    for b, s1 in I.force_bool(s, I.binop("Gt", I.length(s, seqv), const(0))):
                        if b:
                            out.append((("hit", ("found", seqv, hit), ("pos", seqv, hit)), s1))
                        else:
                            nxt.append(s1)
                    continue
                key = ("any", seqv, canon(hit))
                for b, s1 in I.fork_bool(s, key):
                    if b:
                        f = ("found", seqv, key[2])
                        out.append((("hit", temp(I, s1, f) if kind == "refelem" else f, ("pos", seqv, key[2])), s1))
                    else:
                        nxt.append(s1)
        cur = nxt
    return out + [(None, s) for s in cur]


def canon(hit):
    return frozenset(hit)


def quantify_loop(I, st, it, pred, want, byref_arg):
    out = []
    work = [(it, st, 0)]
    while work:
        i, s, n = work.pop()
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append((None, s1))
                continue
            arg = temp(I, s1, x) if byref_arg else x
            for r, s2 in I.call_value(s1, pred, [arg]):
                for b, s3 in I.force_bool(s2, r):
                    if b == want:
                        out.append((("hit", x, const(n)), s3))
                    else:
                        work.append((m, s3, n + 1))
    return out


def each(I, st, it, f):
    """run f(item) for every item -> states"""
    out, work = [], [(it, st)]
    n = 0
    while work:
        i, s = work.pop()
        n += 1
        if n > 20000:
            raise Stop("endless for_each")
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append(s1)
            else:
                for _, s2 in f(s1, x):
                    work.append((m, s2))
    return out


def collect(I, st, it, ty):
    sg = segs(I, st, it)
    if sg is not None and any(t == "all" for t, _, _ in sg):
        # symbolic: one generic element
        if len(sg) == 1:
            t, v, fs = sg[0]
            kind, seqv = v
            if not fs:
                return [(seqv, st)]
            e = ("elem", seqv)
            probe = st.fork()
            rs = run_pipe(I, probe, temp(I, probe, e) if kind == "refelem" else e, fs)
            if len(rs) == 1 and rs[0][0] is not None and rs[0][1].ev == st.ev:
                return [(("mapseq", seqv, I.deep(rs[0][1], rs[0][0])), st)]
        # a list with elements put before and after it
        al = [n for n, x in enumerate(sg) if x[0] == "all"]
        if len(al) == 1 and not any(fs for _, _, fs in sg) and sg[al[0]][1][0] != "refelem":
            v = sg[al[0]][1][1]
            for _, x, _ in reversed(sg[:al[0]]):
                v = ("insert", v, x)
            for _, x, _ in sg[al[0] + 1:]:
                v = ("push", v, x)
            return [(v, st)]
    out, work = [], [(it, st, ())]
    while work:
        i, s, acc = work.pop()
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append((("seq", acc), s1))
            else:
                work.append((m, s1, acc + (x,)))
    return out


# --------------------------------------------------------------------- tokens
def tokens_of(I, st, x):
    x = D(I, st, x)
    t = x[0]
    if t == "tok":
        return x[1]
    if t == "parsed":
        return x[2][1] if x[2][0] == "tok" else (("v", x),)
    if t == "ident" and x[1][0] == "c":
        return (("i", x[1][1]),)
    if t == "adt":
        if x[1].endswith("RepInterp"):
            return tokens_of(I, st, x[3][0][1])
        if x[1] == "std::option::Option":
            return () if x[2] == "None" else tokens_of(I, st, x[3][0][1])
    if t == "c" and isinstance(x[1], str):
        return (("lit", '"%s"' % x[1]),)
    if t == "dflt":
        return (("v", x),)
    return (("v", deep_value(I, st, x)),)


def deep_value(I, st, x):
    """replace references inside a value by what they point to"""
    t = x[0]
    if t in ("ref", "guard"):
        return deep_value(I, st, D(I, st, x))
    if t == "adt":
        return ("adt", x[1], x[2], tuple((n, deep_value(I, st, v)) for n, v in x[3]))
    if t in ("tup", "seq"):
        return (t, tuple(deep_value(I, st, v) for v in x[1]))
    return x


def append_tok(I, st, tsref, els):
    r, p = lastplace(I, st, tsref)
    cur = I.load(st, r, p)
    if cur[0] == "tok":
        nv = ("tok", cur[1] + tuple(els))
    elif cur[0] == "parsed" and cur[2][0] == "tok":
        nv = ("tok", cur[2][1] + tuple(els))
    else:
        nv = ("tok", (("v", cur),) + tuple(els))
    I.store(st, r, p, nv)


def shown(x):
    return ("true" if x else "false") if isinstance(x, bool) else str(x)


def fmt_parts(I, st, tmpl, args):
    tmpl = D(I, st, tmpl)
    args = D(I, st, args)
    bs = [x[1] for x in tmpl[1]]
    av = list(args[1]) if args[0] == "seq" else []
    parts, i, ai = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            parts.append(("c", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | (bs[i + 1] << 8)
            i += 2
            parts.append(("c", bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif b >= 0xC0:
            idx = ai
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                idx = bs[i] | (bs[i + 1] << 8)
                i += 2
            ai = idx + 1
            parts.append(av[idx] if idx < len(av) else ("s", "fmtarg"))
        else:
            raise Stop("format template byte %#x" % b)
    out = []
    for x in parts:
        if x[0] == "fa":
            x = x[1]
        if x[0] == "c" and not isinstance(x[1], str):
            x = ("c", shown(x[1]))
        if x[0] == "ident" and x[1][0] == "c":
            x = x[1]
        if x[0] in ("fmtstr",):
            for y in x[1]:
                out.append(y)
            continue
        out.append(x)
    # merge constants
    m = []
    for x in out:
        if x[0] == "c" and m and m[-1][0] == "c":
            m[-1] = ("c", m[-1][1] + x[1])
        else:
            m.append(x)
    return m


def fmt_string(parts):
    if not parts:
        return const("")
    if len(parts) == 1 and parts[0][0] == "c":
        return parts[0]
    if len(parts) == 1 and parts[0][0] in ("tostr", "fmtstr", "s", "p"):
        return parts[0]
    return ("fmtstr", tuple(parts))


def str_eq(I, st, a, b):
    a, b = D(I, st, a), D(I, st, b)
    if a[0] == "ident" and a[1][0] in ("c", "fmtstr"):
        a = a[1]
    if b[0] == "ident" and b[1][0] in ("c", "fmtstr"):
        b = b[1]
    if a[0] == "tostr":
        a = a[1] if a[1][0] != "tok" else a
    if b[0] == "tostr":
        b = b[1] if b[1][0] != "tok" else b
    if a[0] == "c" and b[0] == "c":
        return b2(a[1] == b[1] and type(a[1]) == type(b[1]))
    if a == b:
        return TRUE
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c" and isinstance(b[1], str):
        return ("streq", a, b[1])
    if a[0] == "adt" and b[0] == "adt" and not a[3] and not b[3]:
        return b2(a[2] == b[2])
    if a[0] == "seq" and b[0] == "seq" and len(a[1]) != len(b[1]):
        return FALSE
    x, y = sorted((a, b), key=repr)
    return ("eq", x, y)


# ---------------------------------------------------------------------- model
def path_alias(p):
    """std re-exports core and alloc; rustc names an item by any of them"""
    for a in ("std::", "core::", "alloc::"):
        if p.startswith(a):
            for b in ("std::", "core::", "alloc::"):
                f = PATHM.get(b + p[len(a):])
                if f:
                    return f
    return None


def model(I, st, F, args, fid, ln):
    p, n, tr = F["p"], F["n"], F.get("tr")
    if tr:
        f = TRAITM.get((tr, n))
        if f:
            return f(I, st, F, args)
        if tr.startswith("std::iter::Iterator") or tr == "std::iter::DoubleEndedIterator":
            f = ITERM.get(n)
            if f:
                return f(I, st, F, args)
        if tr.startswith("quote::__private"):
            return quote_trait(I, st, F, args)
        return None
    f = PATHM.get(p) or path_alias(p)
    if f:
        return f(I, st, F, args)
    if p.startswith("quote::__private::push_") and n in PUNCT:
        append_tok(I, st, args[0], (("o", PUNCT[n]),))
        return [(UNIT, st)]
    q = p.replace("alloc::", "std::", 1) if p.startswith("alloc::") else p
    for pre, g in PREFIXM:
        if q.startswith(pre):
            r = g(I, st, F, args)
            if r is not None:
                return r
    return None


TRAITM, ITERM, PATHM = {}, {}, {}


def tm(tr, *names):
    def d(f):
        for n in names:
            TRAITM[(tr, n)] = f
        return f
    return d


def im(*names):
    def d(f):
        for n in names:
            ITERM[n] = f
        return f
    return d


def pm(*paths):
    def d(f):
        for x in paths:
            PATHM[x] = f
        return f
    return d


@tm("std::clone::Clone", "clone")
def _clone(I, st, F, a):
    v = load1(I, st, a[0])
    if v[0] == "ref" and I.ts(F["a"][0])[:1] != "&":
        v = D(I, st, v)
    return [(v, st)]


@tm("std::borrow::ToOwned", "to_owned")
@tm("std::string::ToString", "to_string")
def _tostr(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "c" and isinstance(v[1], str):
        return [(v, st)]
    if v[0] == "c" and F["n"] == "to_string":
        return [(const(shown(v[1])), st)]
    if v[0] == "ident" and v[1][0] in ("c", "fmtstr"):
        return [(v[1], st)]
    if F["n"] == "to_owned" or v[0] in ("tostr", "fmtstr"):
        return [(v, st)]
    t = I.ts(F["a"][0])
    if t in ("std::string::String", "str", "&str"):
        return [(v, st)]
    if v[0] == "parsed":
        v = v[2]
    x = spelled(v)
    if x is not None:
        return [(const(" ".join(x)), st)]
    return [(("tostr", v), st)]


def spell_list(items, trailing):
    if not items:
        return []
    out = ["<"]
    for i, x in enumerate(items):
        y = spelled(x)
        if y is None:
            return None
        out += ([","] if i else []) + y
    return out + ([","] if trailing else []) + [">"]


def spelled(v):
    """tokens of a fully known token stream or path, as text"""
    if v[0] == "tok":
        out = []
        for e in v[1]:
            if e[0] in ("i", "o"):
                out.append(e[1])
            elif e[0] == "v" and isinstance(e[1], tuple):
                x = spelled(e[1])
                if x is None:
                    return None
                out += x
            else:
                return None
        return out
    if v[0] == "ident" and v[1][0] == "c":
        return [v[1][1]]
    if v[0] == "adt" and v[1] == "syn::Generics":
        f = dict(v[3])
        if f["params"][0] != "seq":
            return None
        return spell_list(f["params"][1], dict(v[3]).get("trailing") == TRUE)
    if v[0] == "adt" and v[1] == "syn::GenericParam":
        return spelled(dict(v[3])["0"])
    if v[0] == "adt" and v[1] == "syn::TypeParam":
        return spelled(dict(v[3])["ident"])
    if v[0] == "adt" and v[1] == "syn::LifetimeParam":
        return spelled(dict(v[3])["lifetime"])
    if v[0] == "adt" and v[1] == "syn::Lifetime":
        return ["'" + x for x in spelled(dict(v[3])["ident"]) or ()] or None
    if v[0] == "adt" and v[1] == "syn::ConstParam":
        i, ty = spelled(dict(v[3])["ident"]), spelled(dict(v[3])["ty"])
        return None if i is None or ty is None else ["const"] + i + [":"] + ty
    if v[0] == "adt" and v[1] == "syn::Type" and v[2] == "Path":
        return spelled(dict(dict(v[3])["0"][3])["path"])
    if v[0] == "lit*":
        return list(v[1])
    if v[0] == "adt" and v[1] == "syn::Path":
        f = dict(v[3])
        out = ["::"] if f["leading_colon"][2] == "Some" else []
        if f["segments"][0] != "seq":
            return None
        for i, sg in enumerate(f["segments"][1]):
            g = dict(sg[3])
            if g["ident"][0] != "ident" or g["ident"][1][0] != "c" or g["arguments"][2:3] != ("None",):
                return None
            out += (["::"] if i else []) + [g["ident"][1][1]]
        return out
    return None


OPT = "std::option::Option"


def typed_eq(I, st, ty, x, y):
    """equality of options and labels, down to the compared identifiers"""
    t = I.ty(ty)
    while t["k"] == "ref":
        t = I.ty(t["t"])
    x, y = D(I, st, x), D(I, st, y)
    p = t.get("p")
    if p == OPT:
        out = []
        for nx, s in I.fork_variant(st, x, OPT):
            for ny, s2 in I.fork_variant(s, y, OPT):
                if nx != ny or nx == "None":
                    out.append((b2(nx == ny), s2))
                else:
                    some_ = lambda v: proj(proj(v, ("d", "Some", OPT)), "0")
                    out += typed_eq(I, s2, t["a"][0], some_(x), some_(y))
        return out
    if p == "syn::Label":
        return [(str_eq(I, st, proj(proj(x, "name"), "ident"), proj(proj(y, "name"), "ident")), st)]
    if p == "syn::Lifetime":
        return [(str_eq(I, st, proj(x, "ident"), proj(y, "ident")), st)]
    if x[0] == "c" and y[0] == "c":
        return [(b2(x == y), st)]
    if t["k"] == "prim" or x[0] in ("len", "bin") or y[0] in ("len", "bin"):
        return [(I.binop("Eq", x, y), st)]
    return [(str_eq(I, st, x, y), st)]


@tm("std::cmp::PartialEq", "eq", "ne")
def _eq(I, st, F, a):
    r = F.get("r", "")
    x, y = D(I, st, a[0]), D(I, st, a[1])
    t0 = I.ty(F["a"][0])
    while t0["k"] == "ref":
        t0 = I.ty(t0["t"])
    if t0.get("p") in ("syn::Label", "syn::Lifetime") or (t0.get("p") == OPT and any(k in t0["s"] for k in ("syn::Label", "syn::Lifetime", "Ident"))) \
            or (t0.get("p") == OPT and x[0] == "adt" and y[0] == "adt"):
        rs = typed_eq(I, st, F["a"][0], x, y)
        return [(I.not_(v) if F["n"] == "ne" else v, s) for v, s in rs]
    if x[0] == "c" and y[0] == "c":
        v = b2(x == y)
    elif x[0] == "adt" and x[1] == "std::option::Option" and y[0] == "adt" and x[2] != y[2]:
        v = FALSE
    elif "usize" in r or "u64" in r or "i32" in r or (x[0] in ("len", "bin") and y[0] in ("c", "len", "bin")):
        v = I.binop("Eq", x, y)
    else:
        if F["n"] == "ne" and "l" not in F:
            # default `ne` of a local PartialEq
            t = I.ty(F["a"][0])
            eq = local_impl(I, t["s"], "std::cmp::PartialEq", "eq")
            if eq is not None:
                return [(I.not_(v), s) for v, s in I.exec_fn(eq, [a[0], a[1]], st)]
        v = str_eq(I, st, x, y)
    if F["n"] == "ne":
        v = I.not_(v)
    return [(v, st)]


def local_impl(I, self_ty, tr, name):
    for f in I.d["fns"]:
        if f.get("impl_trait") == tr and f.get("impl_self") == self_ty and f["n"] == name and f["local"]:
            return f["id"]
    return None


@tm("std::convert::From", "from")
@tm("std::convert::Into", "into")
def _into(I, st, F, a):
    if F["n"] == "into":
        src, dst = I.ty(F["a"][0]), I.ty(F["a"][1])
    else:
        dst, src = I.ty(F["a"][0]), I.ty(F["a"][1])
    v = a[0]
    if src["s"] == dst["s"]:
        return [(v, st)]
    return [(convert(I, st, v, src, dst), st)]


def convert(I, st, v, src, dst):
    d = dst.get("p", dst["s"])
    s = src.get("p", src["s"])
    if d == "std::string::String":
        return D(I, st, v)
    if d == "std::boxed::Box":
        return v
    if d == "std::vec::Vec" and D(I, st, v)[0] == "seq":
        return D(I, st, v)
    if d.split("::")[-1] == "TokenStream" and s.split("::")[-1] == "TokenStream":
        return v
    if d == "syn::PathSegment":
        return ("adt", d, "PathSegment", (("ident", v), ("arguments", ("adt", "syn::PathArguments", "None", ()))))
    if d == "syn::Path":
        seg = ("adt", "syn::PathSegment", "PathSegment", (("ident", v), ("arguments", ("adt", "syn::PathArguments", "None", ()))))
        return ("adt", d, "Path", (("leading_colon", NONE), ("segments", ("seq", (seg,)))))
    if d == "std::option::Option":
        return some(v)
    if s == "bool" and v in (TRUE, FALSE):
        return ("c", int(v == TRUE))
    a = I.adts.get(d)
    if a and a["kind"] == "enum" and s.startswith("syn::"):
        name = s.split("::")[-1]
        pre = d.split("::")[-1]
        for var in a["vs"]:
            if name in (pre + var["n"], var["n"] + "Param") or name == pre.replace("GenericParam", "") + var["n"]:
                return ("adt", d, var["n"], (("0", v),))
        if d == "syn::GenericParam" and name == "TypeParam":
            return ("adt", d, "Type", (("0", v),))
    return ("into", dst["s"], v)


@tm("std::default::Default", "default")
def _default(I, st, F, a):
    return [(default_of(I, st, F["a"][0]), st)]


@tm("std::ops::Deref", "deref")
@tm("std::ops::DerefMut", "deref_mut")
@tm("std::convert::AsRef", "as_ref")
@tm("std::convert::AsMut", "as_mut")
@tm("std::borrow::Borrow", "borrow")
def _deref(I, st, F, a):
    x = a[0]
    v = load1(I, st, x)
    if v[0] == "guard":
        return [(("ref", v[1], v[2]), st)]
    if v[0] == "ref":
        return [(v, st)]
    if v[0] == "c" and isinstance(v[1], str):
        return [(v, st)]
    return [(x, st)]


@tm("std::ops::Try", "branch")
def _branch(I, st, F, a):
    v = a[0]
    t = I.ty(F["a"][0])["p"]
    out = []
    for n, s in I.fork_variant(st, v, t):
        if n in ("Some", "Ok", "Continue"):
            out.append((("adt", "std::ops::ControlFlow", "Continue", (("0", proj(proj(v, ("d", n, t)), "0")),)), s))
        else:
            w = ("adt", t, n, ()) if n == "None" else ("adt", t, n, (("0", proj(proj(v, ("d", n, t)), "0")),))
            out.append((("adt", "std::ops::ControlFlow", "Break", (("0", w),)), s))
    return out


@tm("std::ops::FromResidual", "from_residual")
def _resid(I, st, F, a):
    return [(a[0], st)]


@tm("std::ops::Try", "from_output")
def _fo(I, st, F, a):
    t = I.ty(F["a"][0])["p"]
    return [(some(a[0]) if t.endswith("Option") else ok(a[0]), st)]


@tm("std::hash::Hasher", "write")
def _hw(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    I.store(st, r, p, ("hasher", v, D(I, st, a[1])))
    return [(UNIT, st)]


@tm("std::hash::Hash", "hash")
def _hh(I, st, F, a):
    r, p = lastplace(I, st, a[1])
    v = I.load(st, r, p)
    I.store(st, r, p, ("hasher", v, D(I, st, a[0])))
    return [(UNIT, st)]


@tm("std::hash::Hasher", "finish")
def _hf(I, st, F, a):
    return [(("hash", D(I, st, a[0])), st)]


@tm("quote::ToTokens", "to_tokens")
def _tt(I, st, F, a):
    append_tok(I, st, a[1], tokens_of(I, st, a[0]))
    return [(UNIT, st)]


@tm("quote::ToTokens", "into_token_stream", "to_token_stream")
def _its(I, st, F, a):
    v = D(I, st, a[0])
    return [(("tok", tokens_of(I, st, v)), st)]


@tm("quote::TokenStreamExt", "append", "append_all")
def _app(I, st, F, a):
    append_tok(I, st, a[0], tokens_of(I, st, a[1]))
    return [(UNIT, st)]


@pm("quote::__private::IdentFragmentAdapter::<T>::span")
def _ifs(I, st, F, a):
    return [(NONE, st)]


@tm("quote::IdentFragment", "fmt", "span")
def _if(I, st, F, a):
    return [(("s", "fragment"), st)]


@tm("std::iter::Extend", "extend")
def _ext(I, st, F, a):
    t = I.ty(F["a"][0])["s"]
    if t == "proc_macro2::TokenStream":
        x = D(I, st, a[1])
        if x[0] == "it":
            return [(UNIT, s) for s in each(I, st, x, lambda s1, i: (append_tok(I, s1, a[0], tokens_of(I, s1, i)), [(None, s1)])[1])]
        append_tok(I, st, a[0], tokens_of(I, st, x))
        return [(UNIT, st)]
    it = to_iter(I, st, a[1])
    import models_std
    if t == "std::string::String":
        def g(s1, x):
            r, p = lastplace(I, s1, a[0])
            I.store(s1, r, p, models_std.joined([I.load(s1, r, p), D(I, s1, x)]))
            return [(None, s1)]
        return [(UNIT, s) for s in each(I, st, it, g)]
    if t.startswith("std::collections::") and not t.startswith("std::collections::VecDeque"):
        def g(s1, x):
            if "Set<" in t:
                args = [a[0], x]
            elif x[0] == "tup":
                args = [a[0], x[1][0], x[1][1]]
            else:
                raise Stop("extend of a map")
            f = models_std.set_method if "Set<" in t else models_std.map_method
            res = f(I, s1, {"n": "insert", "p": I.ty(F["a"][0])["p"] + "::<"}, args)
            if res is None:
                raise Stop("extend of a set by something unknown")
            return res
        return [(UNIT, s) for s in each(I, st, it, g)]

    if t == "syn::Error":
        return [(UNIT, s) for s in each(I, st, it, lambda s1, x: [(None, s2) for _, s2 in _comb(I, s1, F, [a[0], x])])]

    def f(s1, x):
        push(I, s1, a[0], load1(I, s1, x) if "&" in I.ts(F["a"][1])[:1] else x)
        return [(None, s1)]
    if it[1] == "own" and it[2][0] not in ("seq", "push", "insert"):
        r, p = lastplace(I, st, a[0])
        old = I.load(st, r, p)
        I.store(st, r, p, it[2] if old == ("seq", ()) else ("extend", old, it[2]))
        return [(UNIT, st)]
    return [(UNIT, s) for s in each(I, st, it, f)]


@tm("std::iter::IntoIterator", "into_iter")
def _ii(I, st, F, a):
    return [(to_iter(I, st, a[0]), st)]


@tm("std::iter::ExactSizeIterator", "len")
def _el(I, st, F, a):
    it = D(I, st, a[0])
    return [(iter_len(I, st, it), st)]


def iter_len(I, st, it):
    if it[1] == "ref":
        return I.binop("Sub", I.length(st, I.load(st, it[2], it[3])), const(it[4]))
    if it[1] == "own":
        return I.binop("Sub", I.length(st, it[2]), const(it[3]))
    if it[1] in ("map", "enum", "cloned"):
        return iter_len(I, st, it[2])
    if it[1] == "range":
        return I.binop("Sub", it[3], it[2])
    return ("len", it)


@tm("std::ops::Index", "index")
@tm("std::ops::IndexMut", "index_mut")
def _index(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    i = a[1]
    if i[0] == "adt" or i == UNIT:
        if i == UNIT or i[1] == "std::ops::RangeFull":
            return [(a[0], st)]
        import models_std
        try:
            if v[0] == "seq":
                lo, hi = models_std.crange(I, st, i, len(v[1]))
                return [(temp(I, st, ("seq", v[1][lo:hi])), st)]
            if v[0] == "c" and isinstance(v[1], str):
                lo, hi = models_std.crange(I, st, i, len(v[1].encode()))
                return [(const(v[1][models_std.bidx(v[1], lo):models_std.bidx(v[1], hi)]), st)]
        except models_std.Unknown:
            pass
        return [(("ref", r, p + (("slice", i),)), st)]
    if v[0] == "coll":
        raise Stop("indexing a map")
    n = I.length(st, v)
    out = []
    for x, s in I.force_bool(st, I.binop("Lt", i, n)):
        if x:
            out.append((("ref", r, p + (("i", i[1] if i[0] == "c" else i),)), s))
        else:
            I.panics.append({"st": s, "fn": I.fns[I.stack[-1]]["p"] if I.stack else "?", "line": 0, "what": "index",
                             "msg": None, "stack": [I.fns[x]["p"] for x in I.stack]})
    return out


def quote_trait(I, st, F, args):
    n = F["n"]
    if n in ("bitor", "check"):
        return [(UNIT, st)]
    if n == "quote_into_iter":
        v = args[0]
        w = D(I, st, v)
        if w[0] == "it":
            return [(("tup", (w, UNIT)), st)]
        if F.get("tr", "").endswith("RepToTokensExt"):
            return [(("tup", (("it", "const", v), UNIT)), st)]
        return [(("tup", (to_iter(I, st, v), UNIT)), st)]
    if n == "next":
        v = D(I, st, args[0])
        return [(some(args[0]), st)]
    if n == "__quote_push" or n == "get_span":
        return [(args[0], st)]
    return None


@tm("std::ops::BitOr", "bitor")
def _bitor(I, st, F, a):
    if "HasIterator" in I.ts(F["a"][0]):
        return [(UNIT, st)]
    return None


# ------------------------------------------------------------------- iterators
@im("next", "next_back")
def _next(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    it = I.load(st, r, p)
    if it[0] != "it":
        return None
    if it[1] == "byref":
        r, p = lastplace(I, st, it[2])
        it = I.load(st, r, p)
    if F["n"] == "next_back":
        items = list_all(I, st, it)
        if items is None:
            # last element of a symbolic sequence
            if it[1] == "ref" and it[4] == 0:
                v = I.load(st, it[2], it[3])
                out = []
                for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v), const(0))):
                    if x:
                        I.store(s, r, p, ("it", "stale"))
                        out.append((some(last_ref(I, s, it[2], it[3], v)), s))
                    else:
                        out.append((NONE, s))
                return out
            out = []
            for n, s in fix_lengths(I, st, it):
                xs = n[2][1]
                I.store(s, r, p, ("it", "own", ("seq", xs[:-1]), 0))
                out.append((some(xs[-1]) if xs else NONE, s))
            return out
        if not items:
            return [(NONE, st)]
        I.store(st, r, p, ("it", "own", ("seq", tuple(items[:-1])), 0))
        return [(some(items[-1]), st)]
    out = []
    for x, n, s in next_iter(I, st, it):
        I.store(s, r, p, n)
        out.append((NONE if x is None else some(x), s))
    return out


def last_ref(I, st, root, path, v):
    if v[0] == "seq":
        return ("ref", root, path + (("i", len(v[1]) - 1),))
    n = I.length(st, v)
    lo, hi = I.interval(st, n) if n[0] == "len" else (0, INF)
    if lo == hi:
        return ("ref", root, path + (("i", lo - 1),))
    return ("ref", root, path + (("i", -1),))


def adaptor(kind, arity):
    def f(I, st, F, a):
        x = a[0]
        if x[0] == "ref":
            x = ("it", "byref", x)
        x = to_iter(I, st, x)
        if arity == 1:
            return [(("it", kind, x), st)]
        return [(("it", kind, x, a[1]), st)]
    return f


for _k in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
    ITERM[_k] = adaptor(_k, 2)
ITERM["cloned"] = adaptor("cloned", 1)
ITERM["copied"] = adaptor("cloned", 1)
ITERM["rev"] = adaptor("rev", 1)
ITERM["by_ref"] = lambda I, st, F, a: [(a[0], st)]
ITERM["fuse"] = lambda I, st, F, a: [(a[0], st)]
ITERM["enumerate"] = lambda I, st, F, a: [(("it", "enum", to_iter(I, st, a[0]), 0), st)]
ITERM["peekable"] = lambda I, st, F, a: [(("it", "peekable", to_iter(I, st, a[0]), None), st)]
def _skiptake(I, st, F, a):
    x = ("it", "byref", a[0]) if a[0][0] == "ref" else to_iter(I, st, a[0])
    return [(("it", F["n"], x, n), s) for n, s in fix_int(I, st, D(I, st, a[1]))]


ITERM["skip"] = ITERM["take"] = _skiptake
ITERM["chain"] = lambda I, st, F, a: [(("it", "chain", to_iter(I, st, a[0]), to_iter(I, st, a[1])), st)]
ITERM["zip"] = lambda I, st, F, a: [(("it", "zip", to_iter(I, st, a[0]), to_iter(I, st, a[1])), st)]
ITERM["flat_map"] = lambda I, st, F, a: [(("it", "flat_map", to_iter(I, st, a[0]), a[1], None), st)]
ITERM["flatten"] = lambda I, st, F, a: [(("it", "flat_map", to_iter(I, st, a[0]), None, None), st)]


def get_it(I, st, a):
    v = D(I, st, a) if a[0] == "ref" else a
    if v[0] == "it" and v[1] == "byref":
        v = D(I, st, v[2])
    if v[0] != "it":
        v = to_iter(I, st, a)
    return v


@im("any", "all")
def _any(I, st, F, a):
    want = F["n"] == "any"
    rs = quantify(I, st, get_it(I, st, a[0]), a[1], want, False)
    return [(b2((h is not None) == want), s) for h, s in rs]


@im("position")
def _pos(I, st, F, a):
    rs = quantify(I, st, get_it(I, st, a[0]), a[1], True, False)
    return [(NONE if h is None else some(h[2]), s) for h, s in rs]


@im("find")
def _find(I, st, F, a):
    rs = quantify(I, st, get_it(I, st, a[0]), a[1], True, True)
    return [(NONE if h is None else some(h[1]), s) for h, s in rs]


@im("find_map")
def _findmap(I, st, F, a):
    it = ("it", "filter_map", get_it(I, st, a[0]), a[1])
    return [((NONE if x is None else some(x)), s) for x, n, s in next_iter(I, st, it)]


@im("for_each")
def _fe(I, st, F, a):
    return [(UNIT, s) for s in each(I, st, get_it(I, st, a[0]), lambda s, x: I.call_value(s, a[1], [x]))]


@im("fold")
def _fold(I, st, F, a):
    out, work = [], [(get_it(I, st, a[0]), st, a[1])]
    while work:
        i, s, acc = work.pop()
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append((acc, s1))
            else:
                for v, s2 in I.call_value(s1, a[2], [acc, x]):
                    work.append((m, s2, v))
    return out


@im("try_fold", "try_for_each")
def _tf(I, st, F, a):
    return None


@im("collect")
def _collect(I, st, F, a):
    t = I.ty(F["a"][1])
    if t.get("p") in ("std::result::Result", "std::option::Option"):
        return collect_try(I, st, get_it(I, st, a[0]), t["p"])
    if t["s"] == "proc_macro2::TokenStream":
        out = []
        for v, s in collect(I, st, get_it(I, st, a[0]), t):
            els = ()
            if v[0] == "seq":
                for x in v[1]:
                    els += tokens_of(I, s, x)
            else:
                els = (("v", v),)
            out.append((("tok", els), s))
        return out
    if t["s"] == "std::string::String":
        import models_std
        out = []
        for v, s in collect(I, st, get_it(I, st, a[0]), t):
            if v[0] != "seq":
                raise Stop("text collected from an unknown sequence")
            out.append((models_std.joined([D(I, s, x) for x in v[1]]), s))
        return out
    if t.get("p", "").startswith("std::collections::") and "VecDeque" not in t["p"]:
        out = []
        for v, s in collect(I, st, get_it(I, st, a[0]), t):
            if v[0] != "seq":
                raise Stop("set collected from an unknown sequence")
            r = temp(I, s, ("coll", t["p"], ()))
            F2 = dict(F, r="", n="extend", tr="std::iter::Extend", p="std::iter::Extend::extend", a=[F["a"][1], F["a"][0]])
            for _, s2 in _ext(I, s, F2, [r, ("it", "own", v, 0)]):
                out.append((D(I, s2, r), s2))
        return out
    return collect(I, st, get_it(I, st, a[0]), t)


def collect_try(I, st, it, t):
    good = "Ok" if t.endswith("Result") else "Some"
    out, work = [], [(it, st, ())]
    while work:
        i, s, acc = work.pop()
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                v = ("seq", acc)
                out.append((ok(v) if good == "Ok" else some(v), s1))
                continue
            for n, s2 in I.fork_variant(s1, x, t):
                if n == good:
                    work.append((m, s2, acc + (proj(proj(x, ("d", n, t)), "0"),)))
                else:
                    out.append((x if x[0] == "adt" else ("adt", t, n, (("0", proj(proj(x, ("d", n, t)), "0")),) if n == "Err" else ()), s2))
    return out


@im("count")
def _count(I, st, F, a):
    it = get_it(I, st, a[0])
    sg = segs(I, st, it)
    if sg is not None and all(not fs for _, _, fs in sg):
        n = const(sum(1 for t, _, _ in sg if t == "one"))
        for t, v, _ in sg:
            if t == "all":
                n = I.binop("Add", ("len", v[1]), n)
        return [(n, st)]
    out, work = [], [(it, st, 0)]
    while work:
        i, s, k = work.pop()
        for x, m, s1 in next_iter(I, s, i):
            if x is None:
                out.append((const(k), s1))
            else:
                work.append((m, s1, k + 1))
    return out


@im("last")
def _ilast(I, st, F, a):
    it = get_it(I, st, a[0])
    items = list_all(I, st, it)
    if items is not None:
        return [(some(items[-1]) if items else NONE, st)]
    if it[1] == "ref":
        return _last(I, st, F, [("ref", it[2], it[3])])
    raise Stop("Iterator::last")


@im("nth")
def _nth(I, st, F, a):
    return [((NONE if x is None else some(x)), s2) for k, s in fix_int(I, st, D(I, st, a[1]))
            for x, n, s2 in next_iter(I, s, ("it", "skip", get_it(I, s, a[0]), k))]


@im("size_hint")
def _sh(I, st, F, a):
    return [(("s", "size_hint"), st)]


@pm("std::iter::Peekable::<I>::peek")
def _peek(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    it = I.load(st, r, p)
    if it[3] is not None:
        return [((some(temp(I, st, it[3][0])) if it[3][0] is not None else NONE), st)]
    out = []
    for x, n, s in next_iter(I, st, it[2]):
        I.store(s, r, p, ("it", "peekable", n, (x,)))
        out.append((NONE if x is None else some(temp(I, s, x)), s))
    return out


@pm("std::iter::from_fn")
def _fromfn(I, st, F, a):
    return [(("it", "from_fn", a[0]), st)]


@pm("std::iter::successors")
def _succ(I, st, F, a):
    return [(("it", "successors", a[0], a[1]), st)]


@pm("std::array::<impl [T; N]>::map")
def _arrmap(I, st, F, a):
    return collect(I, st, ("it", "map", to_iter(I, st, a[0]), a[1]), None)


@pm("std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity")
def _vdnew(I, st, F, a):
    return [(("seq", ()), st)]


@pm("std::iter::once")
def _once(I, st, F, a):
    return [(("it", "once", a[0]), st)]


@pm("std::iter::empty")
def _empty(I, st, F, a):
    return [(("it", "once", None), st)]


@pm("std::iter::repeat")
def _repeat(I, st, F, a):
    return [(("it", "const", a[0]), st)]


# ------------------------------------------------------------------ containers
@pm("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "syn::punctuated::Punctuated::<T, P>::new")
def _vnew(I, st, F, a):
    return [(("seq", ()), st)]


@pm("std::string::String::new", "std::string::String::with_capacity")
def _snew(I, st, F, a):
    return [(const(""), st)]


def push(I, st, ref, x):
    r, p = lastplace(I, st, ref)
    v = I.load(st, r, p)
    I.store(st, r, p, ("seq", v[1] + (x,)) if v[0] == "seq" else ("push", v, x))


@pm("std::vec::Vec::<T, A>::push", "syn::punctuated::Punctuated::<T, P>::push", "syn::punctuated::Punctuated::<T, P>::push_value")
def _push(I, st, F, a):
    push(I, st, a[0], a[1])
    return [(UNIT, st)]


@pm("std::vec::Vec::<T, A>::insert", "syn::punctuated::Punctuated::<T, P>::insert")
def _insert(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    if a[1][0] == "c" and v[0] == "seq":
        i = a[1][1]
        I.store(st, r, p, ("seq", v[1][:i] + (a[2],) + v[1][i:]))
    elif a[1] == const(0):
        I.store(st, r, p, ("insert", v, a[2]))
    elif a[1] == I.length(st, v):
        I.store(st, r, p, ("push", v, a[2]))
    else:
        I.store(st, r, p, ("insertat", v, a[1], a[2]))
    return [(UNIT, st)]


@pm("std::vec::Vec::<T, A>::pop", "syn::punctuated::Punctuated::<T, P>::pop")
def _pop(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    if v[0] == "seq":
        if not v[1]:
            return [(NONE, st)]
        I.store(st, r, p, ("seq", v[1][:-1]))
        return [(some(v[1][-1]), st)]
    if v[0] == "push":
        I.store(st, r, p, v[1])
        return [(some(v[2]), st)]
    out = []
    for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v), const(0))):
        if x:
            I.store(s, r, p, ("popped", v))
            out.append((some(proj(v, ("i", -1))), s))
        else:
            out.append((NONE, s))
    return out


@pm("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def _remove(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    i = a[1]
    if i[0] == "pos" and i[1] == v:
        I.store(st, r, p, (("rm" if F["n"] == "remove" else "swaprm"), v, i[2]))
        return [(("found", v, i[2]), st)]
    if i[0] == "c" and v[0] == "seq" and 0 <= i[1] < len(v[1]):
        x = v[1][i[1]]
        I.store(st, r, p, ("seq", v[1][:i[1]] + v[1][i[1] + 1:]))
        return [(x, st)]
    out = []
    for x, s in I.force_bool(st, I.binop("Lt", i, I.length(st, v))):
        if x:
            e = proj(v, ("i", i[1] if i[0] == "c" else i))
            I.store(s, r, p, ("rmat", v, i))
            out.append((e, s))
        else:
            I.panics.append({"st": s, "fn": I.fns[I.stack[-1]]["p"], "line": 0, "what": "Vec::remove", "msg": None,
                             "stack": [I.fns[y]["p"] for y in I.stack]})
    return out


@pm("std::vec::Vec::<T, A>::clear", "std::collections::VecDeque::<T, A>::clear", "std::vec::Vec::<T, A>::truncate")
def _clear(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    if F["n"] == "clear":
        I.store(st, r, p, ("coll", v[1], ()) if v[0] == "coll" else ("seq", ()))
    elif v[0] == "seq" and a[1][0] == "c":
        I.store(st, r, p, ("seq", v[1][:a[1][1]]))
    else:
        I.store(st, r, p, ("trunc", I.load(st, r, p), a[1]))
    return [(UNIT, st)]


@pm("std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice")
def _append(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    r2, p2 = lastplace(I, st, a[1])
    w = I.load(st, r2, p2)
    if F["n"] == "append":
        I.store(st, r2, p2, ("seq", ()))
    I.store(st, r, p, ("seq", v[1] + w[1]) if v[0] == "seq" and w[0] == "seq" else (w if v == ("seq", ()) else ("extend", v, w)))
    return [(UNIT, st)]


@pm("std::vec::Vec::<T, A>::drain")
def _drain(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    rg = D(I, st, a[1])
    if not (rg[0] == "adt" and rg[1] == "std::ops::RangeFull" or rg == UNIT):
        import models_std
        res = models_std.vec_method(I, st, F, a)
        if res is None:
            raise Stop("drain of a part of an unknown sequence")
        return res
    I.store(st, r, p, ("seq", ()))
    return [(("it", "own", v, 0), st)]


@pm("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "syn::punctuated::Punctuated::<T, P>::len",
    "core::str::<impl str>::len", "std::string::String::len", "std::collections::VecDeque::<T, A>::len")
def _len(I, st, F, a):
    return [(I.length(st, D(I, st, a[0])), st)]


@pm("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "syn::punctuated::Punctuated::<T, P>::is_empty",
    "core::str::<impl str>::is_empty", "std::string::String::is_empty", "std::collections::VecDeque::<T, A>::is_empty")
def _isempty(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "c":
        return [(b2(v[1] == ""), st)]
    return [(I.binop("Eq", I.length(st, v), const(0)), st)]


@pm("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "syn::punctuated::Punctuated::<T, P>::last",
    "syn::punctuated::Punctuated::<T, P>::last_mut")
def _last(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    out = []
    for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v), const(0))):
        out.append((some(last_ref(I, s, r, p, v)) if x else NONE, s))
    return out


@pm("core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::split_last_mut")
def _splitlast(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    out = []
    for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v), const(0))):
        out.append((some(("tup", (last_ref(I, s, r, p, v), ("ref", r, p + ("@init",))))) if x else NONE, s))
    return out


@pm("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut", "syn::punctuated::Punctuated::<T, P>::first",
    "syn::punctuated::Punctuated::<T, P>::first_mut")
def _first(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    out = []
    for x, s in I.force_bool(st, I.binop("Gt", I.length(st, v), const(0))):
        out.append((some(("ref", r, p + (("i", 0),))) if x else NONE, s))
    return out


@pm("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _get(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    out = []
    for x, s in I.force_bool(st, I.binop("Lt", a[1], I.length(st, v))):
        out.append((some(("ref", r, p + (("i", a[1][1] if a[1][0] == "c" else a[1]),))) if x else NONE, s))
    return out


@pm("core::slice::<impl [T]>::contains")
def _contains(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    x = D(I, st, a[1])
    return contains(I, st, v, x)


def contains(I, st, v, x):
    if v[0] == "seq":
        cur, out = [st], []
        for e in v[1]:
            nxt = []
            for s in cur:
                for b, s2 in I.force_bool(s, str_eq(I, s, e, x)):
                    (out if b else nxt).append((TRUE, s2) if b else s2)
            cur = nxt
        return out + [(FALSE, s) for s in cur]
    if v[0] == "push":
        out = []
        for r, s in contains(I, st, v[1], x):
            for b, s1 in I.force_bool(s, r):
                if b:
                    out.append((TRUE, s1))
                else:
                    out.append((str_eq(I, s1, v[2], x), s1))
        return out
    key = ("contains", v, x)
    return [(b2(b), s) for b, s in I.fork_bool(st, key)]


@pm("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "syn::punctuated::Punctuated::<T, P>::iter",
    "syn::punctuated::Punctuated::<T, P>::iter_mut", "std::collections::VecDeque::<T, A>::iter", "std::collections::VecDeque::<T, A>::iter_mut")
def _iter(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    return [(("it", "ref", r, p, 0), st)]


@pm("syn::punctuated::Punctuated::<T, P>::empty_or_trailing", "syn::punctuated::Punctuated::<T, P>::trailing_punct")
def _eot(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "seq":
        t = getattr(I, "trailing_generics", False)
        return [(b2((not v[1] or t) if F["n"] == "empty_or_trailing" else (bool(v[1]) and t)), st)]
    return [(("call", F["n"], D(I, st, a[0])), st)]


@pm("core::slice::<impl [T]>::to_vec", "core::slice::<impl [T]>::into_vec", "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_str", "std::string::String::into_boxed_str")
def _ident(I, st, F, a):
    if F["n"] in ("to_vec", "into_vec"):
        return [(D(I, st, a[0]), st)]
    return [(a[0], st)]


@pm("std::boxed::Box::<T>::new", "std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new", "std::hint::must_use",
    "std::convert::identity", "std::cell::RefCell::<T>::into_inner", "std::cell::Cell::<T>::into_inner", "std::rc::Rc::<T>::new",
    "std::hint::black_box", "std::iter::IntoIterator::into_iter")
def _same(I, st, F, a):
    return [(a[0], st)]


@pm("std::boxed::Box::<T>::new_uninit")
def _uninit(I, st, F, a):
    return [(("uninit",), st)]


def uninit_root(v):
    while v[0] == "p":
        v = v[1]
    return v == ("uninit",)


@pm("std::boxed::box_assume_init_into_vec_unsafe")
def _biv(I, st, F, a):
    v = a[0]
    while v[0] == "ov" and uninit_root(v[1]):
        v = v[2][0][1]
    return [(v, st)]


@pm("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
def _borrow(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    mut = F["n"] == "borrow_mut"
    for g in st.guards:
        if (g[1], g[2]) == (r, p) and (mut or g[3]):
            I.panics.append({"st": st, "fn": I.fns[I.stack[-1]]["p"], "line": 0, "what": "RefCell already borrowed",
                             "msg": None, "stack": [I.fns[y]["p"] for y in I.stack]})
            return []
    i = st.fresh()
    st.guards = st.guards + ((i, r, p, mut),)
    return [(("guard", r, p, i), st)]


@pm("std::cell::RefCell::<T>::get_mut", "std::cell::Cell::<T>::get_mut")
def _getmut(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    return [(("ref", r, p), st)]


@pm("std::cell::Cell::<T>::get")
def _cget(I, st, F, a):
    return [(D(I, st, a[0]), st)]


@pm("std::cell::Cell::<T>::set")
def _cset(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    I.store(st, r, p, a[1])
    return [(UNIT, st)]


@pm("std::cell::Cell::<T>::replace", "std::cell::RefCell::<T>::replace", "std::mem::replace")
def _mreplace(I, st, F, a):
    r, p = target(I, st, a[0])
    v = I.load(st, r, p)
    I.store(st, r, p, a[1])
    return [(v, st)]


def target(I, st, a):
    """place a `&mut T` points to (T itself may be a reference)"""
    if a[0] == "ref":
        return a[1], a[2]
    return I.deref(st, a)


@pm("std::mem::take", "std::cell::Cell::<T>::take", "std::cell::RefCell::<T>::take")
def _mtake(I, st, F, a):
    r, p = target(I, st, a[0])
    v = I.load(st, r, p)
    t = I.ty(F["a"][0])
    d = local_impl(I, t["s"], "std::default::Default", "default")
    if d is not None:
        out = []
        for x, s in I.exec_fn(d, [], st):
            I.store(s, r, p, x)
            out.append((v, s))
        return out
    I.store(st, r, p, default_of(I, st, F["a"][0]))
    return [(v, st)]


@pm("std::option::Option::<T>::get_or_insert", "std::option::Option::<T>::get_or_insert_with", "std::option::Option::<T>::insert",
    "std::option::Option::<T>::get_or_insert_default")
def _goi(I, st, F, a):
    r, p = target(I, st, a[0])
    n = F["n"]
    out = []
    inner = ("ref", r, p + (("d", "Some", OPT), "0"))
    v = I.load(st, r, p)
    for x, s in ([("None", st)] if n == "insert" else I.fork_variant(st, v, OPT)):
        if x == "Some":
            out.append((inner, s))
            continue
        if n == "get_or_insert_default":
            rs = [(default_of(I, s, F["a"][0]), s)]
        else:
            rs = I.call_value(s, a[1], []) if n.endswith("_with") else [(a[1], s)]
        for y, s2 in rs:
            I.store(s2, r, p, some(y))
            out.append((inner, s2))
    return out


@pm("std::mem::swap")
def _mswap(I, st, F, a):
    r, p = target(I, st, a[0])
    r2, p2 = target(I, st, a[1])
    v, w = I.load(st, r, p), I.load(st, r2, p2)
    I.store(st, r, p, w)
    I.store(st, r2, p2, v)
    return [(UNIT, st)]


@pm("std::mem::drop")
def _mdrop(I, st, F, a):
    if a[0][0] == "guard":
        st.guards = tuple(x for x in st.guards if x[0] != a[0][3])
        return [(UNIT, st)]
    h = I.hooks.get("drop")
    if h:
        root = ("L", "drop", st.fresh())
        st.mem[root] = a[0]
        res = h(I, st, root, (), a[0], F["a"][0], None, I.stack[-1], 0)
        if res is not None:
            return [(UNIT, s) for s in res]
    return [(UNIT, st)]


@pm("std::mem::forget", "std::mem::ManuallyDrop::<T>::new")
def _forget(I, st, F, a):
    return [(UNIT if F["n"] == "forget" else a[0], st)]


@pm("std::intrinsics::discriminant_value", "std::mem::discriminant")
def _dv(I, st, F, a):
    t = I.ty(F["a"][0])
    v = D(I, st, a[0])
    return [(I.disc(v, t["p"]), st)]


@pm("std::thread::panicking")
def _panicking(I, st, F, a):
    return [(FALSE, st)]


@pm("std::hash::DefaultHasher::new", "std::collections::hash_map::DefaultHasher::new")
def _dh(I, st, F, a):
    return [(("hasher0",), st)]


@pm("std::string::String::as_bytes", "core::str::<impl str>::as_bytes")
def _asb(I, st, F, a):
    return [(("bytes", D(I, st, a[0])), st)]


@pm("core::str::<impl str>::replace", "std::str::<impl str>::replace")
def _srep(I, st, F, a):
    import models_std
    res = models_std.str_method(I, st, F, a)
    if res is not None:
        return res
    v = D(I, st, a[0])
    x, y = D(I, st, a[1]), D(I, st, a[2])
    if v[0] == "c" and x[0] == "c" and y[0] == "c":
        return [(const(v[1].replace(x[1], y[1])), st)]
    return [(("replace", v, x, y), st)]


@pm("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains")
def _sw(I, st, F, a):
    import models_std
    res = models_std.str_method(I, st, F, a)
    if res is not None:
        return res
    v, x = D(I, st, a[0]), D(I, st, a[1])
    if v[0] == "c" and x[0] == "c":
        f = {"starts_with": v[1].startswith, "ends_with": v[1].endswith, "contains": v[1].__contains__}[F["n"]]
        return [(b2(f(x[1])), st)]
    return [((F["n"], v, x), st)]


# ------------------------------------------------------------------- formatting
@pm("std::fmt::Arguments::<'a>::new")
def _fan(I, st, F, a):
    return [(("fargs", tuple(fmt_parts(I, st, a[0], a[1]))), st)]


@pm("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new_const")
def _fas(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "seq":
        v = v[1][0] if v[1] else const("")
    return [(("fargs", (v,)), st)]


@pm("std::fmt::format", "std::fmt::format::format_inner", "alloc::fmt::format")
def _ff(I, st, F, a):
    v = D(I, st, a[0])
    return [(fmt_string(list(v[1])) if v[0] == "fargs" else ("tostr", v), st)]


def _fa(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "adt" and v[1].endswith("IdentFragmentAdapter"):
        v = D(I, st, v[3][0][1])
    return [(("fa", v), st)]


def fmt_prefix(I, st, F, a):
    if F["n"].startswith("new_"):
        return _fa(I, st, F, a)
    return None


@pm("quote::__private::mk_ident", "proc_macro2::Ident::new", "proc_macro2::Ident::new_raw", "quote::__private::ident")
def _mkident(I, st, F, a):
    return [(("ident", D(I, st, a[0])), st)]


# ----------------------------------------------------------------------- tokens
@pm("proc_macro2::TokenStream::new", "quote::__private::TokenStream::new")
def _tsnew(I, st, F, a):
    return [(("tok", ()), st)]


@pm("proc_macro2::TokenStream::is_empty")
def _tse(I, st, F, a):
    v = D(I, st, a[0])
    if v[0] == "tok" and not v[1]:
        return [(TRUE, st)]
    if v[0] == "tok" and any(x[0] != "v" for x in v[1]):
        return [(FALSE, st)]
    return [(("tok_empty", v), st)]


@pm("quote::__private::push_ident", "quote::__private::push_lifetime")
def _pi(I, st, F, a):
    s = D(I, st, a[1])
    append_tok(I, st, a[0], (("i", s[1]),))
    return [(UNIT, st)]


@pm("quote::__private::push_ident_spanned", "quote::__private::push_lifetime_spanned")
def _pis(I, st, F, a):
    s = D(I, st, a[2])
    append_tok(I, st, a[0], (("i", s[1]),))
    return [(UNIT, st)]


DELIM = {"Parenthesis": "(", "Brace": "{", "Bracket": "[", "None": ""}


@pm("quote::__private::push_group")
def _pg(I, st, F, a):
    d = D(I, st, a[1])
    inner = D(I, st, a[2])
    els = inner[1] if inner[0] == "tok" else (("v", inner),)
    append_tok(I, st, a[0], (("g", DELIM.get(d[2], "?"), els),))
    return [(UNIT, st)]


@pm("quote::__private::push_group_spanned")
def _pgs(I, st, F, a):
    return _pg(I, st, F, [a[0], a[2], a[3]])


@pm("quote::__private::parse", "quote::__private::parse_spanned")
def _qparse(I, st, F, a):
    s = D(I, st, a[-1])
    append_tok(I, st, a[0], (("lit", s[1]),))
    return [(UNIT, st)]


@pm("syn::__private::parse", "syn::parse_quote::parse", "syn::__private::parse_quote", "syn::__private::parse_spanned")
def _pq(I, st, F, a):
    t = I.ts(F["a"][0])
    v = D(I, st, a[-1])
    if t == "proc_macro2::TokenStream":
        return [(v, st)]
    q = quoted_node(t, v)
    return [(q or ("parsed", t, v), st)]


def quoted_node(t, v):
    """the tree of `parse_quote!(a::b)` and `parse_quote!(a::b(e))` for interpolated identifiers and expressions"""
    if v[0] != "tok" or t not in ("syn::Path", "syn::Expr", "syn::ExprCall", "syn::ExprPath"):
        return None
    els = v[1]
    segs = []
    k = 0
    while k < len(els):
        if els[k][0] != "v" or len(els[k]) < 2 or not (isinstance(els[k][1], tuple)):
            return None
        segs.append(els[k][1])
        k += 1
        if k < len(els) and els[k] == ("o", "::"):
            k += 1
            continue
        break
    if len(segs) < 2 or any(x[0] not in ("ident", "p", "s", "anyident") for x in segs):
        return None
    seg = lambda i: ("adt", "syn::PathSegment", "PathSegment", (("ident", i), ("arguments", ("adt", "syn::PathArguments", "None", ()))))
    path = ("adt", "syn::Path", "Path", (("leading_colon", NONE), ("segments", ("seq", tuple(seg(x) for x in segs)))))
    at = ("attrs", ("seq", ()))
    ep = ("adt", "syn::ExprPath", "ExprPath", (at, ("qself", NONE), ("path", path)))
    rest = els[k:]
    if not rest:
        return {"syn::Path": path, "syn::ExprPath": ep, "syn::Expr": ("adt", "syn::Expr", "Path", (("0", ep),))}.get(t)
    if len(rest) == 1 and rest[0][0] == "g" and rest[0][1] == "(" and len(rest[0][2]) == 1 and rest[0][2][0][0] == "v":
        call = ("adt", "syn::ExprCall", "ExprCall", (at, ("func", ("adt", "syn::Expr", "Path", (("0", ep),))), ("paren_token", ("dflt", "syn::token::Paren")),
                                                      ("args", ("seq", (rest[0][2][0][1],)))))
        return {"syn::ExprCall": call, "syn::Expr": ("adt", "syn::Expr", "Call", (("0", call),))}.get(t)
    return None


@pm("syn::parse2", "syn::parse_str", "syn::parse")
def _parse2(I, st, F, a):
    t = I.ts(F["a"][0])
    v = D(I, st, a[0])
    if t == "proc_macro2::TokenStream":
        return [(ok(v), st)]
    src = getattr(I, "streams", {}).get(v)
    if src is not None:
        li = parse_impl(I, F["a"][0])
        if li is not None:
            root = ("PB", st.fresh())
            st.mem[root] = ("pb", v)
            st.mem[("CUR", root)] = 0
            out = []
            for rv, s in I.exec_fn(li, [("ref", root, ())], st):
                if rv[0] == "adt" and rv[2] == "Ok":
                    for e, s2 in pb_empty(I, s, root):
                        out.append((rv if e else err(("perr", "trailing", v)), s2))
                else:
                    out.append((rv, s))
            return out
    pv = getattr(I, "parsed_values", {}).get((t, v))
    if pv is not None:
        return [(ok(pv), st)]
    key = ("parse", t, v)
    out = []
    for lab, s in I.fork_dom(st, key, ("ok", "err"), [("ok", frozenset(["ok"])), ("err", frozenset(["err"]))]):
        out.append((ok(("parsed", t, v)) if lab == "ok" else err(("perr", t, v)), s))
    return out


def parse_impl(I, ti):
    for f in I.by_path.get("<%s as syn::parse::Parse>::parse" % I.ts(ti), []):
        if f["local"]:
            return f["id"]
    return None


@pm("proc_macro2::Span::call_site", "proc_macro2::Span::mixed_site", "proc_macro2::Ident::span")
def _span(I, st, F, a):
    return [(("s", "span"), st)]


@pm("syn::Path::is_ident")
def _isid(I, st, F, a):
    p = D(I, st, a[0])
    s = D(I, st, a[1])
    if s[0] == "ident" and s[1][0] == "c":
        s = s[1]
    if p[0] == "adt":
        segs = deep_value(I, st, proj(p, "segments"))
        if segs[0] == "seq":
            if len(segs[1]) != 1 or proj(p, "leading_colon") != NONE:
                return [(FALSE, st)]
            ar = proj(segs[1][0], "arguments")
            if ar[0] == "adt" and ar[2] == "None":
                return [(str_eq(I, st, proj(segs[1][0], "ident"), s), st)]
    t = ("identof", p)
    if s[0] == "c":
        return [(("streq", t, s[1]), st)]
    x, y = sorted((t, s), key=repr)
    return [(("eq", x, y), st)]


@pm("syn::Attribute::path")
def _apath(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    m = meta_path(proj(v, "meta")) if v[0] == "adt" else None
    return [(("ref", ("K", m or ("attrpath", v)), ()), st)]


def meta_path(m):
    """the path of a given `Meta`"""
    if m[0] != "adt":
        return None
    x = m[3][0][1]
    return x if m[2] == "Path" else proj(x, "path")


@pm("syn::Meta::path")
def _mpath(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    m = meta_path(v) or (("attrpath", v[1]) if v[0] == "p" and v[2] == "meta" else None)
    return None if m is None else [(("ref", ("K", m), ()), st)]


@pm("syn::Meta::require_path_only", "syn::Meta::require_list", "syn::Meta::require_name_value")
def _req(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    want = {"require_path_only": "Path", "require_list": "List", "require_name_value": "NameValue"}[F["n"]]
    out = []
    for n, s in I.fork_variant(st, v, "syn::Meta"):
        if n == want:
            out.append((ok(("ref", r, p + (("d", n, "syn::Meta"), "0"))), s))
        else:
            out.append((err(("err", F["n"], v)), s))
    return merge_rows(out)


def merge_rows(rows):
    return rows


@pm("syn::Error::new_spanned")
def _nsp(I, st, F, a):
    m = D(I, st, a[1])
    if m[0] == "fargs":
        m = fmt_string(list(m[1]))
    return [(("err", m, deep_value(I, st, a[0])), st)]


@pm("syn::Error::new")
def _enew(I, st, F, a):
    m = D(I, st, a[1])
    return [(("err", m, a[0]), st)]


@pm("syn::Error::combine")
def _comb(I, st, F, a):
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    I.store(st, r, p, ("combine", v, a[1]))
    return [(UNIT, st)]


@pm("syn::Error::to_compile_error", "syn::Error::into_compile_error")
def _tce(I, st, F, a):
    return [(("tok", (("v", ("compile_error", D(I, st, a[0]))),)), st)]


# ParseBuffer: a cursor into a token sequence.  I.streams maps a token stream
# term to a list of tokens, a token being the set of (syn type -> value) it can
# be parsed as; streams not listed are symbolic.
def pb(I, st, a):
    r, p = lastplace(I, st, a)
    return r if not p else (r, p)


def pbtoks(I, st, k):
    v = st.mem.get(k)
    return getattr(I, "streams", {}).get(v[1]) if v and v[0] == "pb" else None


def pb_empty(I, st, k):
    toks, n = pbtoks(I, st, k), st.mem.get(("CUR", k), 0)
    if toks is not None:
        return [(n >= len(toks), st)]
    return I.fork_bool(st, ("pb_empty", n))


def pb_peek(I, st, k, t, off):
    toks, n = pbtoks(I, st, k), st.mem.get(("CUR", k), 0)
    if toks is not None:
        return [(n + off < len(toks) and tokas(toks[n + off], t) is not None, st)]
    if off == 0 and st.pc.get(("pb_empty", n)) == frozenset([True]):
        return [(False, st)]
    return I.fork_bool(st, ("pb_peek", n + off, t))


def tokas(tok, t):
    t = t.split("<")[0].split("::")[-1]
    return tok.get(t)


def pb_parse(I, st, k, t):
    toks, n = pbtoks(I, st, k), st.mem.get(("CUR", k), 0)
    if toks is not None:
        v = tokas(toks[n], t) if n < len(toks) else None
        if v is None:
            return [(err(("perr", t, n)), st)]
        st.mem[("CUR", k)] = n + 1
        return [(ok(v), st)]
    out = []
    for lab, s in I.fork_dom(st, ("pb_parse", n, t), ("ok", "err"), [("ok", frozenset(["ok"])), ("err", frozenset(["err"]))]):
        if lab == "ok":
            s.mem[("CUR", k)] = n + 1
            s.event("PARSE", t, n)
            out.append((ok(("ptok", t, n)), s))
        else:
            out.append((err(("perr", t, n)), s))
    return out


@pm("syn::parse::ParseBuffer::<'a>::is_empty")
def _pbe(I, st, F, a):
    return [(b2(b), s) for b, s in pb_empty(I, st, pb(I, st, a[0]))]


def token_type(t):
    if "->" in t:
        t = t.split("->")[1].split("{")[0].strip()
    return t.rstrip("}> ")


@pm("syn::parse::ParseBuffer::<'a>::peek", "syn::parse::ParseBuffer::<'a>::peek2", "syn::parse::ParseBuffer::<'a>::peek3")
def _pbp(I, st, F, a):
    off = {"peek": 0, "peek2": 1, "peek3": 2}[F["n"]]
    return [(b2(b), s) for b, s in pb_peek(I, st, pb(I, st, a[0]), token_type(I.ts(F["a"][0])), off)]


@pm("syn::parse::ParseBuffer::<'a>::lookahead1")
def _pbl(I, st, F, a):
    return [(("lookahead", pb(I, st, a[0])), st)]


@pm("syn::parse::Lookahead1::<'a>::peek", "syn::lookahead::Lookahead1::<'a>::peek")
def _lap(I, st, F, a):
    v = D(I, st, a[0])
    return [(b2(b), s) for b, s in pb_peek(I, st, v[1], token_type(I.ts(F["a"][0])), 0)]


@pm("syn::parse::Lookahead1::<'a>::error", "syn::lookahead::Lookahead1::<'a>::error")
def _lae(I, st, F, a):
    return [(("perr", "lookahead", 0), st)]


@pm("syn::parse::ParseBuffer::<'a>::error")
def _pberr(I, st, F, a):
    m = D(I, st, a[1])
    return [(("err", m, a[0]), st)]


@pm("syn::parse::ParseBuffer::<'a>::parse")
def _pbparse(I, st, F, a):
    k = pb(I, st, a[0])
    li = parse_impl(I, F["a"][0]) if not I.ts(F["a"][0]).endswith("kw::marker") else None
    if li is not None:
        return I.exec_fn(li, [a[0]], st)
    t = I.ts(F["a"][0])
    if t.startswith("std::option::Option<"):
        inner = t[len("std::option::Option<"):-1]
        out = []
        for b, s in pb_peek(I, st, k, inner, 0):
            if not b:
                out.append((ok(NONE), s))
                continue
            for rv, s2 in pb_parse(I, s, k, inner):
                out.append((ok(some(rv[3][0][1])) if rv[2] == "Ok" else rv, s2))
        return out
    return pb_parse(I, st, k, t)


@pm("<syn::Path as syn::parse::Parse>::parse", "syn::Path::parse_mod_style", "<syn::Ident as syn::parse::Parse>::parse")
def _pathparse(I, st, F, a):
    return pb_parse(I, st, pb(I, st, a[0]), "syn::Path")


@tm("syn::parse::Parse", "parse")
def _trparse(I, st, F, a):
    return _pbparse(I, st, F, a)


@pm("syn::parse::ParseBuffer::<'a>::call")
def _pbcall(I, st, F, a):
    return I.call_value(st, a[1], [a[0]])


def terminated(I, st, k, one, sep):
    """Punctuated::parse_terminated"""
    out = []
    work = [((), st, 0)]
    while work:
        acc, s, n = work.pop()
        if n > 3 and pbtoks(I, s, k) is None:
            s.cut = True
            continue
        for e, s1 in pb_empty(I, s, k):
            if e:
                out.append((ok(("seq", acc)), s1))
                continue
            for rv, s2 in one(s1):
                if rv[2] != "Ok":
                    out.append((rv, s2))
                    continue
                acc2 = acc + (rv[3][0][1],)
                for e2, s3 in pb_empty(I, s2, k):
                    if e2:
                        out.append((ok(("seq", acc2)), s3))
                        continue
                    for pv, s4 in pb_parse(I, s3, k, sep):
                        if pv[2] != "Ok":
                            out.append((pv, s4))
                        else:
                            work.append((acc2, s4, n + 1))
    return out


@pm("syn::punctuated::Punctuated::<T, P>::parse_terminated")
def _punct(I, st, F, a):
    k = pb(I, st, a[0])
    G = {"a": [F["a"][0]]}
    return terminated(I, st, k, lambda s: _pbparse(I, s, G, [a[0]]), I.ts(F["a"][1]))


@pm("syn::punctuated::Punctuated::<T, P>::parse_terminated_with", "syn::parse::ParseBuffer::<'a>::parse_terminated")
def _punctw(I, st, F, a):
    k = pb(I, st, a[0])
    sep = "syn::token::Comma"
    if F["n"] == "parse_terminated_with":
        sep = I.ts(F["a"][1])
    return terminated(I, st, k, lambda s: I.call_value(s, a[1], [a[0]]), sep)


def kind_params(I, st, F, a):
    """the parameters of one kind, of a known parameter list"""
    kind = {"type": "Type", "lifetimes": "Lifetime", "const": "Const", "lifetime": "Lifetime"}[F["n"].split("_")[0]]
    ps = dict(g[3])["params"] if (g := D(I, st, a[0]))[0] == "adt" else ("?",)
    if ps[0] != "seq" or any(x[0] != "adt" for x in ps[1]):
        return None
    return [(("it", "own", ("seq", tuple(dict(x[3])["0"] for x in ps[1] if x[2] == kind)), 0), st)]


pm("syn::Generics::type_params", "syn::Generics::lifetimes", "syn::Generics::const_params")(kind_params)


@pm("syn::Generics::split_for_impl")
def _split(I, st, F, a):
    g = D(I, st, a[0])
    return [(("tup", (("gen", "impl", g), ("gen", "ty", g), ("gen", "where", g))), st)]


# ------------------------------------------------------------------ derive_utils
def dv(I, st, x):
    return deep_value(I, st, x)


@pm("derive_utils::EnumData::variant_idents")
def _vi(I, st, F, a):
    d = D(I, st, a[0])
    return [(("it", "own", ("seq", getattr(I, "data_variants", None) or ()), 0), st)]


@pm("derive_utils::EnumData::field_types")
def _ft(I, st, F, a):
    return [(("it", "own", ("seq", getattr(I, "data_types", None) or ()), 0), st)]


@pm("derive_utils::derive_trait")
def _dt(I, st, F, a):
    return [(("tok", (("v", ("derive_trait", dv(I, st, a[0]), dv(I, st, a[1]), dv(I, st, a[2]), dv(I, st, a[3]))),)), st)]


@pm("derive_utils::EnumImpl::<'a>::from_trait")
def _frt(I, st, F, a):
    return [(("enumimpl", (("from_trait", dv(I, st, a[0]), dv(I, st, a[1]), dv(I, st, a[2]), dv(I, st, a[3])),)), st)]


@pm("derive_utils::EnumImpl::<'a>::new")
def _ein(I, st, F, a):
    return [(("enumimpl", (("new", dv(I, st, a[0])),)), st)]


@pm("derive_utils::EnumImpl::<'a>::build")
def _eib(I, st, F, a):
    v = D(I, st, a[0])
    return [(("tok", (("v", ("built", v)),)), st)]


@pm("derive_utils::EnumImpl::<'a>::build_impl")
def _eibi(I, st, F, a):
    v = D(I, st, a[0])
    return [(("implof", v), st)]


def enumimpl(I, st, F, a):
    n = F["n"]
    r, p = lastplace(I, st, a[0])
    v = I.load(st, r, p)
    if v[0] != "enumimpl":
        return None
    I.store(st, r, p, ("enumimpl", v[1] + ((n,) + tuple(dv(I, st, x) for x in a[1:]),)))
    return [(UNIT, st)]


PREFIXM = [
    ("core::fmt::rt::Argument", fmt_prefix),
    ("derive_utils::EnumImpl::<'a>::", enumimpl),
]

import models_std  # noqa: E402

models_std.install()
