"""Transfer functions for the string, character, number, slice and set
vocabulary of the standard library.  They are exact on fully known arguments;
with anything unknown they answer None, and the call is then treated as
unmodelled (the path stays undecided)."""
import re

from interp import (Stop, UNIT, TRUE, FALSE, NONE, some, ok, err, const, b2, proj)

EMPTY_IT = ("it", "own", ("seq", ()), 0)
ORDER = "std::cmp::Ordering"
UNWHITE = " \t\n\r\x0b\x0c\x85\xa0"


class Unknown(Exception):
    pass


def lst(xs):
    return ("it", "own", ("seq", tuple(xs)), 0)


def ordering(x, y):
    return ("adt", ORDER, "Less" if x < y else "Greater" if x > y else "Equal", ())


def S(I, st, v):
    """the text of a fully known string or character"""
    v = M.D(I, st, v)
    if v[0] == "ident" and v[1][0] == "c":
        v = v[1]
    if v[0] == "tostr" and v[1][0] == "ident" and v[1][1][0] == "c":
        v = v[1][1]
    if v[0] == "c" and isinstance(v[1], str):
        return v[1]
    raise Unknown


def N(v):
    if v[0] == "c" and type(v[1]) is int:
        return v[1]
    raise Unknown


def pure(I, st, f, args):
    """the only result of a closure on known arguments"""
    rs = I.call_value(st, f, args)
    if len(rs) != 1 or rs[0][1] is not st:
        raise Unknown
    return rs[0][0]


def truth(I, st, f, args):
    v = pure(I, st, f, args)
    if v[0] == "not" and v[1][0] == "c":
        return not v[1][1]
    if v[0] != "c":
        raise Unknown
    return bool(v[1])


def char_pred(I, st, p):
    """predicate on single characters, or None when the pattern is a string"""
    v = M.D(I, st, p)
    if v[0] == "c" and isinstance(v[1], str):
        return None
    if v[0] == "seq":
        cs = {S(I, st, x) for x in v[1]}
        return lambda c: c in cs
    if v[0] in ("fn", "clo"):
        return lambda c: truth(I, st, p, [const(c)])
    raise Unknown


def spans(I, st, s, p):
    """non-overlapping matches of a pattern in a string: [(start, end)]"""
    f = char_pred(I, st, p)
    if f is not None:
        return [(i, i + 1) for i, c in enumerate(s) if f(c)]
    x = S(I, st, p)
    if x == "":
        return [(i, i) for i in range(len(s) + 1)]
    out, i = [], s.find(x)
    while i >= 0:
        out.append((i, i + len(x)))
        i = s.find(x, i + len(x))
    return out


def cut(s, sp):
    out, i = [], 0
    for a, b in sp:
        out.append(s[i:a])
        i = b
    return out + [s[i:]]


def rspans(I, st, s, p):
    f = char_pred(I, st, p)
    if f is not None:
        return spans(I, st, s, p)
    x = S(I, st, p)
    if x == "":
        raise Unknown
    out, i = [], s.rfind(x)
    while i >= 0:
        out.append((i, i + len(x)))
        i = s.rfind(x, 0, i)
    return out[::-1]


def boff(s, i):
    return len(s[:i].encode())


def bidx(s, b):
    """character index of a byte offset"""
    n = 0
    for i, c in enumerate(s):
        if n == b:
            return i
        n += len(c.encode())
    if n == b:
        return len(s)
    raise Unknown


def crange(I, st, v, n):
    """(lo, hi) of a range value over n elements"""
    v = M.D(I, st, v)
    if v[0] != "adt" or "::Range" not in v[1]:
        raise Unknown
    d = dict(v[3])
    lo, hi = (N(d["start"]) if "start" in d else 0), (N(d["end"]) if "end" in d else n)
    if v[1].endswith("Inclusive") and "end" in d:
        hi += 1
    if v[1].endswith("RangeToInclusive"):
        hi = N(d["end"]) + 1
    if not 0 <= lo <= hi <= n:
        raise Unknown
    return lo, hi


def esc_default(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def is_white(c):
    return c.isspace() and c not in "\x1c\x1d\x1e\x1f"


def trimmed(s, f, left, right):
    i, j = 0, len(s)
    while left and i < j and f(s[i]):
        i += 1
    while right and j > i and f(s[j - 1]):
        j -= 1
    return s[i:j]


def trim_pat(I, st, s, p, left, right):
    f = char_pred(I, st, p)
    if f is not None:
        return trimmed(s, f, left, right)
    x = S(I, st, p)
    if not x:
        return s
    while left and s.startswith(x):
        s = s[len(x):]
    while right and s.endswith(x):
        s = s[:-len(x)]
    return s


def at_start(I, st, s, p):
    f = char_pred(I, st, p)
    if f is not None:
        return 1 if s and f(s[0]) else None
    x = S(I, st, p)
    return len(x) if s.startswith(x) else None


def at_end(I, st, s, p):
    f = char_pred(I, st, p)
    if f is not None:
        return 1 if s and f(s[-1]) else None
    x = S(I, st, p)
    return len(x) if s.endswith(x) else None


def str_method(I, st, F, a):
    n = F["n"]
    s = S(I, st, a[0])
    C = const
    if n in ("trim", "trim_ascii"):
        return C(trimmed(s, is_white, True, True))
    if n in ("trim_start", "trim_left", "trim_ascii_start"):
        return C(trimmed(s, is_white, True, False))
    if n in ("trim_end", "trim_right", "trim_ascii_end"):
        return C(trimmed(s, is_white, False, True))
    if n in ("trim_start_matches", "trim_left_matches"):
        return C(trim_pat(I, st, s, a[1], True, False))
    if n in ("trim_end_matches", "trim_right_matches"):
        return C(trim_pat(I, st, s, a[1], False, True))
    if n == "trim_matches":
        return C(trim_pat(I, st, s, a[1], True, True))
    if n in ("to_lowercase", "to_uppercase"):
        return C(s.lower() if n == "to_lowercase" else s.upper())
    if n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        f = str.lower if n.endswith("lowercase") else str.upper
        return C("".join(f(c) if c.isascii() else c for c in s))
    if n in ("into_string", "to_owned", "as_str", "into_boxed_str", "to_string", "as_ref"):
        return C(s)
    if n == "starts_with":
        return b2(at_start(I, st, s, a[1]) is not None)
    if n == "ends_with":
        return b2(at_end(I, st, s, a[1]) is not None)
    if n == "strip_prefix":
        k = at_start(I, st, s, a[1])
        return NONE if k is None else some(C(s[k:]))
    if n == "strip_suffix":
        k = at_end(I, st, s, a[1])
        return NONE if k is None else some(C(s[:len(s) - k]))
    if n == "contains":
        return b2(bool(spans(I, st, s, a[1])))
    if n == "find":
        x = spans(I, st, s, a[1])
        return some(C(boff(s, x[0][0]))) if x else NONE
    if n == "rfind":
        x = rspans(I, st, s, a[1])
        return some(C(boff(s, x[-1][0]))) if x else NONE
    if n == "split":
        return lst(map(C, cut(s, spans(I, st, s, a[1]))))
    if n == "rsplit":
        return lst(map(C, reversed(cut(s, rspans(I, st, s, a[1])))))
    if n == "split_terminator":
        x = cut(s, spans(I, st, s, a[1]))
        return lst(map(C, x[:-1] if x and not x[-1] else x))
    if n == "split_inclusive":
        out, i = [], 0
        for _, e in spans(I, st, s, a[1]):
            out.append(s[i:e])
            i = e
        return lst(map(C, out + ([s[i:]] if i < len(s) else [])))
    if n == "splitn":
        k = N(a[1])
        return lst(map(C, cut(s, spans(I, st, s, a[2])[:k - 1]) if k else []))
    if n == "rsplitn":
        k = N(a[1])
        sp = rspans(I, st, s, a[2])
        return lst(map(C, reversed(cut(s, sp[max(0, len(sp) - (k - 1)):])) if k else []))
    if n == "split_once":
        sp = spans(I, st, s, a[1])
        return some(("tup", (C(s[:sp[0][0]]), C(s[sp[0][1]:])))) if sp else NONE
    if n == "rsplit_once":
        sp = rspans(I, st, s, a[1])
        return some(("tup", (C(s[:sp[-1][0]]), C(s[sp[-1][1]:])))) if sp else NONE
    if n == "split_at":
        k = bidx(s, N(a[1]))
        return ("tup", (C(s[:k]), C(s[k:])))
    if n in ("split_whitespace", "split_ascii_whitespace"):
        return lst(map(C, "".join(c if not is_white(c) else " " for c in s).split()))
    if n == "lines":
        x = s.split("\n")
        if x and x[-1] == "":
            x = x[:-1]
        return lst(C(y[:-1] if y.endswith("\r") else y) for y in x)
    if n == "matches":
        return lst(C(s[i:j]) for i, j in spans(I, st, s, a[1]))
    if n == "match_indices":
        return lst(("tup", (C(boff(s, i)), C(s[i:j]))) for i, j in spans(I, st, s, a[1]))
    if n == "chars":
        return lst(C(c) for c in s)
    if n == "char_indices":
        return lst(("tup", (C(boff(s, i)), C(c))) for i, c in enumerate(s))
    if n == "bytes":
        return lst(C(b) for b in s.encode())
    if n == "len":
        return C(len(s.encode()))
    if n == "is_empty":
        return b2(s == "")
    if n == "eq_ignore_ascii_case":
        return b2(s.lower() == S(I, st, a[1]).lower())
    if n == "repeat":
        return C(s * N(a[1]))
    if n == "replace":
        y = S(I, st, a[2])
        return C(y.join(cut(s, spans(I, st, s, a[1]))))
    if n == "replacen":
        y = S(I, st, a[2])
        return C(y.join(cut(s, spans(I, st, s, a[1])[:N(a[3])])))
    if n == "is_char_boundary":
        try:
            bidx(s, N(a[1]))
            return TRUE
        except Unknown:
            N(a[1])
            return FALSE
    if n == "is_ascii":
        return b2(s.isascii())
    if n == "get":
        b = s.encode()
        lo, hi = crange(I, st, a[1], len(b))
        try:
            return some(C(s[bidx(s, lo):bidx(s, hi)]))
        except Unknown:
            return NONE
    if n == "parse":
        t = I.ty(F["a"][-1])["s"]
        if t in ("usize", "u8", "u16", "u32", "u64", "u128"):
            return ok(C(int(s))) if re.fullmatch(r"\+?[0-9]{1,9}", s) else err(("s", "parse_error"))
        if t == "bool":
            return ok(b2(s == "true")) if s in ("true", "false") else err(("s", "parse_error"))
        if t == "std::string::String":
            return ok(C(s))
        raise Unknown
    if n in ("escape_debug", "escape_default"):
        raise Unknown
    return None


CHAR = {
    "is_alphabetic": lambda c: c.isalpha(), "is_alphanumeric": lambda c: c.isalnum(),
    "is_lowercase": lambda c: c.islower(), "is_uppercase": lambda c: c.isupper(), "is_numeric": lambda c: c.isnumeric(),
    "is_whitespace": is_white, "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
    "is_ascii": lambda c: c.isascii(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
    "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_lowercase": lambda c: c.isascii() and c.islower(), "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(),
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
}


def char_method(I, st, F, a):
    n = F["n"]
    c = S(I, st, a[0])
    if len(c) != 1:
        raise Unknown
    if n in CHAR:
        return b2(CHAR[n](c))
    if n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        return const((c.lower() if n.endswith("lowercase") else c.upper()) if c.isascii() else c)
    if n in ("to_lowercase", "to_uppercase"):
        return lst(const(x) for x in (c.lower() if n == "to_lowercase" else c.upper()))
    if n == "len_utf8":
        return const(len(c.encode()))
    if n == "eq_ignore_ascii_case":
        return b2(c.lower() == S(I, st, a[1]).lower())
    if n in ("is_digit", "to_digit"):
        r = N(a[1])
        try:
            d = int(c, 36) if c.isascii() and c.isalnum() else 99
        except ValueError:
            d = 99
        return b2(d < r) if n == "is_digit" else (some(const(d)) if d < r else NONE)
    return None


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def num_method(I, st, F, a):
    """-> value, or list of (value, state)"""
    n = F["n"]
    t = re.match(r"core::num::<impl (\w+)>::", F["p"]).group(1)
    a = [M.D(I, st, x) for x in a]
    if n in ("saturating_sub", "checked_sub") and t in BITS and len(a) == 2 and not (a[0][0] == "c" and a[1][0] == "c"):
        out = []
        for b, s in I.force_bool(st, I.binop("Ge", a[0], a[1])):
            d = I.binop("Sub", a[0], a[1])
            out.append(((d if n[0] == "s" else some(d)) if b else (const(0) if n[0] == "s" else NONE), s))
        return out
    if n in ("saturating_add", "wrapping_add", "checked_add") and t in BITS and a[1][0] == "c" and a[0][0] != "c" and N(a[1]) < 1000:
        r = I.binop("Add", a[0], a[1])       # lengths are far from the maximum
        return some(r) if n[0] == "c" else r
    xs = [N(x) for x in a]
    top = (1 << BITS.get(t, 63)) - 1
    lo = 0 if t in BITS else -top - 1
    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "pow": lambda x, y: x ** y if y < 200 else 1 << 200}
    m = re.fullmatch(r"(saturating|checked|wrapping|overflowing)_(add|sub|mul|pow)", n)
    if m:
        r = f[m.group(2)](*xs)
        good = lo <= r <= top
        k = m.group(1)
        if k == "checked":
            return some(const(r)) if good else NONE
        if good:
            return ("tup", (const(r), FALSE)) if k == "overflowing" else const(r)
        if k == "saturating":
            return const(top if r > top else lo)
        if t in BITS:
            r &= top
            return ("tup", (const(r), TRUE)) if k == "overflowing" else const(r)
        raise Unknown
    if n == "pow":
        r = f["pow"](*xs)
        if not lo <= r <= top:
            raise Unknown
        return const(r)
    if n == "is_power_of_two":
        return b2(xs[0] > 0 and xs[0] & (xs[0] - 1) == 0)
    if n == "abs_diff":
        return const(abs(xs[0] - xs[1]))
    if n in ("checked_rem", "checked_div"):
        return NONE if xs[1] == 0 else some(const(xs[0] % xs[1] if n == "checked_rem" else xs[0] // xs[1]))
    if n == "div_ceil" and xs[1]:
        return const(-(-xs[0] // xs[1]))
    if n in ("count_ones", "leading_zeros", "trailing_zeros") and t in BITS:
        x, w = xs[0], BITS[t]
        return const(bin(x).count("1") if n == "count_ones" else (w - x.bit_length()) if n == "leading_zeros" else ((x & -x).bit_length() - 1 if x else w))
    if n in ("eq_ignore_ascii_case",) or n in CHAR:
        c = chr(xs[0])
        return b2(CHAR[n](c)) if n in CHAR else b2(c.lower() == chr(xs[1]).lower())
    if n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        c = chr(xs[0])
        return const(ord(c.lower() if n.endswith("lowercase") else c.upper()) if xs[0] < 128 else xs[0])
    return None


# ---------------------------------------------------------------- String
def string_method(I, st, F, a):
    n = F["n"]
    if not a:
        return None
    r, p = M.lastplace(I, st, a[0])
    if n in ("into_bytes", "as_mut_str", "into_boxed_str", "as_str"):
        return None if n == "into_bytes" else a[0]
    if n in ("reserve", "shrink_to_fit"):
        return UNIT
    cur = I.load(st, r, p)
    if n in ("push_str", "push", "write_str", "write_char"):
        x = M.D(I, st, a[1])
        ok_c = lambda v: v[0] == "c" and isinstance(v[1], str)
        if not (ok_c(cur) or cur[0] in ("fmtstr", "tostr")) or not (ok_c(x) or x[0] in ("fmtstr", "tostr", "ident")):
            raise Unknown
        I.store(st, r, p, joined([cur, x]))
        return UNIT if n[0] == "p" else ok(UNIT)
    s = S(I, st, cur)
    new, ret = None, UNIT
    if n == "insert" or n == "insert_str":
        k = bidx(s, N(a[1]))
        new = s[:k] + S(I, st, a[2]) + s[k:]
    elif n == "pop":
        new, ret = s[:-1], (some(const(s[-1])) if s else NONE)
    elif n == "truncate":
        k = N(a[1])
        new = s if k >= len(s.encode()) else s[:bidx(s, k)]
    elif n == "clear":
        new = ""
    elif n == "remove":
        k = bidx(s, N(a[1]))
        if k >= len(s):
            raise Unknown
        new, ret = s[:k] + s[k + 1:], const(s[k])
    elif n == "retain":
        new = "".join(c for c in s if truth(I, st, a[1], [const(c)]))
    elif n == "split_off":
        k = bidx(s, N(a[1]))
        new, ret = s[:k], const(s[k:])
    elif n == "drain":
        lo, hi = crange(I, st, a[1], len(s.encode()))
        i, j = bidx(s, lo), bidx(s, hi)
        new, ret = s[:i] + s[j:], lst(const(c) for c in s[i:j])
    elif n == "replace_range":
        lo, hi = crange(I, st, a[1], len(s.encode()))
        new = s[:bidx(s, lo)] + S(I, st, a[2]) + s[bidx(s, hi):]
    elif n in ("len", "is_empty"):
        return str_method(I, st, F, a)
    else:
        return None
    I.store(st, r, p, const(new))
    return ret


def joined(parts):
    """concatenation of strings, known parts merged"""
    out = []
    for x in parts:
        for y in (x[1] if x[0] == "fmtstr" else (x,)):
            if y[0] == "ident" and y[1][0] == "c":
                y = y[1]
            if y == const(""):
                continue
            if out and out[-1][0] == "c" and y[0] == "c":
                out[-1] = const(out[-1][1] + y[1])
            else:
                out.append(y)
    return M.fmt_string(out)


# ----------------------------------------------------------------- slices
def known_seq(I, st, a):
    r, p = M.lastplace(I, st, a)
    v = I.load(st, r, p)
    if v[0] != "seq":
        raise Unknown
    return r, p, v[1]


def skey(I, st, x):
    x = M.D(I, st, x)
    if x[0] == "ident" and x[1][0] == "c":
        x = x[1]
    if x[0] == "c":
        return x[1]
    if x[0] in ("tup", "seq"):
        return tuple(skey(I, st, y) for y in x[1])
    raise Unknown


def same(I, st, x, y):
    r = M.str_eq(I, st, x, y)
    if r[0] != "c":
        raise Unknown
    return r[1]


def less(I, st, f, x, y):
    v = pure(I, st, f, [M.temp(I, st, x), M.temp(I, st, y)])
    if v[0] == "adt" and v[1] == ORDER:
        return {"Less": -1, "Equal": 0, "Greater": 1}[v[2]]
    raise Unknown


def slice_method(I, st, F, a):
    import functools
    n = F["n"]
    if n in ("join", "concat"):
        r, p, xs = known_seq(I, st, a[0])
        xs = [M.D(I, st, x) for x in xs]
        if all(x[0] in ("c", "fmtstr", "tostr", "ident") and (x[0] != "c" or isinstance(x[1], str)) for x in xs):
            if n == "concat":
                return joined(xs)
            sep = M.D(I, st, a[1])
            if sep[0] != "c" or not isinstance(sep[1], str):
                raise Unknown
            out = []
            for i, x in enumerate(xs):
                out += ([sep] if i else []) + [x]
            return joined(out)
        if n == "concat" and all(x[0] == "seq" for x in xs):
            return ("seq", tuple(y for x in xs for y in x[1]))
        raise Unknown
    if n in ("reverse", "sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "swap", "fill",
             "rotate_left", "rotate_right"):
        r, p, xs = known_seq(I, st, a[0])
        xs = list(xs)
        if n == "reverse":
            xs.reverse()
        elif n in ("sort", "sort_unstable"):
            xs.sort(key=lambda x: skey(I, st, x))
        elif n in ("sort_by", "sort_unstable_by"):
            xs.sort(key=functools.cmp_to_key(lambda x, y: less(I, st, a[1], x, y)))
        elif n == "swap":
            i, j = N(a[1]), N(a[2])
            if max(i, j) >= len(xs):
                raise Unknown
            xs[i], xs[j] = xs[j], xs[i]
        elif n == "fill":
            xs = [a[1]] * len(xs)
        elif n in ("rotate_left", "rotate_right"):
            k = N(a[1])
            if k > len(xs):
                raise Unknown
            k = k if n == "rotate_left" else len(xs) - k
            xs = xs[k:] + xs[:k]
        else:
            xs.sort(key=lambda x: skey(I, st, pure(I, st, a[1], [M.temp(I, st, x)])))
        I.store(st, r, p, ("seq", tuple(xs)))
        return UNIT
    if n in ("split_first", "split_first_mut"):
        r, p, xs = known_seq(I, st, a[0])
        if not xs:
            return NONE
        return some(("tup", (("ref", r, p + (("i", 0),)), M.temp(I, st, ("seq", xs[1:])))))
    if n == "split_last":
        r, p, xs = known_seq(I, st, a[0])
        if not xs:
            return NONE
        return some(("tup", (("ref", r, p + (("i", len(xs) - 1),)), M.temp(I, st, ("seq", xs[:-1])))))
    if n in ("windows", "chunks"):
        r, p, xs = known_seq(I, st, a[0])
        k = N(a[1])
        if not k:
            raise Unknown
        if n == "windows":
            return lst(M.temp(I, st, ("seq", xs[i:i + k])) for i in range(len(xs) - k + 1))
        return lst(M.temp(I, st, ("seq", xs[i:i + k])) for i in range(0, len(xs), k))
    if n in ("split_at",):
        r, p, xs = known_seq(I, st, a[0])
        k = N(a[1])
        if k > len(xs):
            raise Unknown
        return ("tup", (M.temp(I, st, ("seq", xs[:k])), M.temp(I, st, ("seq", xs[k:]))))
    if n in ("starts_with", "ends_with"):
        r, p, xs = known_seq(I, st, a[0])
        _, _, ys = known_seq(I, st, a[1])
        if len(ys) > len(xs):
            return FALSE
        zs = xs[:len(ys)] if n == "starts_with" else xs[len(xs) - len(ys):]
        return b2(all(same(I, st, x, y) for x, y in zip(zs, ys)))
    if n in ("binary_search",):
        r, p, xs = known_seq(I, st, a[0])
        ks = [skey(I, st, x) for x in xs]
        x = skey(I, st, a[1])
        if ks != sorted(ks) or len(set(ks)) != len(ks):
            raise Unknown
        import bisect
        i = bisect.bisect_left(ks, x)
        return ok(const(i)) if i < len(ks) and ks[i] == x else err(const(i))
    if n == "is_sorted":
        r, p, xs = known_seq(I, st, a[0])
        ks = [skey(I, st, x) for x in xs]
        return b2(ks == sorted(ks))
    if n == "get" or n == "get_mut":
        v = M.D(I, st, a[1])
        if v[0] == "adt":
            r, p, xs = known_seq(I, st, a[0])
            try:
                lo, hi = crange(I, st, v, len(xs))
            except Unknown:
                raise
            return some(M.temp(I, st, ("seq", xs[lo:hi])))
        return None
    if n == "repeat":
        r, p, xs = known_seq(I, st, a[0])
        return ("seq", xs * N(a[1]))
    return None


def vec_method(I, st, F, a):
    n = F["n"]
    if n in ("reserve", "shrink_to_fit", "reserve_exact"):
        return UNIT
    if n in ("dedup", "dedup_by_key", "retain", "retain_mut", "truncate", "split_off", "drain", "push_back", "push_front", "pop_front", "pop_back", "resize",
             "front", "back", "contains", "extend_from_slice_copy", "into_boxed_slice", "first", "last"):
        if n == "into_boxed_slice":
            return a[0]
        if n == "truncate" and M.D(I, st, a[0])[0] != "seq":
            return None
        if n == "contains":
            r, p = M.lastplace(I, st, a[0])
            return M.contains(I, st, I.load(st, r, p), M.D(I, st, a[1]))
        if n == "retain":
            r, p = M.lastplace(I, st, a[0])
            v = I.load(st, r, p)
            if v[0] == "seq":
                return retain(I, st, r, p, v[1], a[1])
            if not any("Attribute" in I.ts(x) for x in F["a"][:1]):
                return retain_any(I, st, r, p, v, a[1])
            return [z for k, s in M.fix_int(I, st, I.length(st, v))
                    for z in retain(I, s, r, p, tuple(I.load(s, r, p + (("i", i),)) for i in range(k)), a[1], v)]
        r, p, xs = known_seq(I, st, a[0])
        ret = UNIT
        if n == "dedup":
            out = []
            for x in xs:
                if not out or not same(I, st, out[-1], x):
                    out.append(x)
            xs = tuple(out)
        elif n == "dedup_by_key":
            out, last = [], None
            for x in xs:
                k = skey(I, st, pure(I, st, a[1], [M.temp(I, st, x)]))
                if not out or k != last:
                    out.append(x)
                    last = k
            xs = tuple(out)
        elif n == "truncate":
            xs = xs[:N(a[1])]
        elif n == "split_off":
            k = N(a[1])
            if k > len(xs):
                raise Unknown
            xs, ret = xs[:k], ("seq", xs[k:])
        elif n == "drain":
            lo, hi = crange(I, st, a[1], len(xs)) if M.D(I, st, a[1])[0] == "adt" and M.D(I, st, a[1])[3] else (0, len(xs))
            xs, ret = xs[:lo] + xs[hi:], lst(xs[lo:hi])
        elif n == "resize":
            k = N(a[1])
            xs = xs[:k] + (a[2],) * (k - len(xs))
        elif n == "push_back":
            xs = xs + (a[1],)
        elif n == "push_front":
            xs = (a[1],) + xs
        elif n == "pop_front":
            xs, ret = xs[1:], (some(xs[0]) if xs else NONE)
        elif n == "pop_back":
            xs, ret = xs[:-1], (some(xs[-1]) if xs else NONE)
        elif n in ("front", "first"):
            return some(("ref", r, p + (("i", 0),))) if xs else NONE
        elif n in ("back", "last"):
            return some(("ref", r, p + (("i", len(xs) - 1),))) if xs else NONE
        else:
            return None
        I.store(st, r, p, ("seq", tuple(xs)))
        return ret
    return None


def retain(I, st, r, p, xs, f, whole=None):
    work = [(st, (), 0)]
    out = []
    while work:
        s, acc, i = work.pop()
        if i == len(xs):
            if whole is None or len(acc) < len(xs):
                I.store(s, r, p, ("seq", acc))
            out.append((UNIT, s))
            continue
        for v, s1 in I.call_value(s, f, [M.temp(I, s, xs[i])]):
            for b, s2 in I.force_bool(s1, v):
                work.append((s2, acc + (xs[i],) if b else acc, i + 1))
    return out


def retain_any(I, st, r, p, v, f):
    """retain on a list of unknown elements: what an arbitrary element decides"""
    res = set()
    s0 = st.fork()
    for x, s1 in I.call_value(s0, f, [M.temp(I, s0, ("s", "ANYELEM"))]):
        for b, s2 in I.force_bool(s1, x):
            res.add(b)
    if res == {False}:
        I.store(st, r, p, ("seq", ()))
    elif res != {True}:
        I.store(st, r, p, ("retain", v, ("s", "?")))
    return UNIT


# --------------------------------------------------------------- sets, maps
def coll_of(I, st, a):
    r, p = M.lastplace(I, st, a)
    v = I.load(st, r, p)
    if v[0] == "dflt" or v[0] == "seq" and not v[1]:
        raise Unknown
    if v[0] != "coll":
        raise Unknown
    return r, p, v


def find_key(I, st, v, x, key=lambda e: e):
    for i, e in enumerate(v[2]):
        if skey(I, st, key(e)) == x:
            return i
    return None


def set_method(I, st, F, a):
    n = F["n"]
    kind = F["p"].split("::<")[0]
    if n in ("new", "with_capacity"):
        return ("coll", kind, ())
    r, p, v = coll_of(I, st, a[0])
    tree = "BTree" in v[1]
    put = lambda xs: I.store(st, r, p, ("coll", v[1], tuple(sorted(xs, key=lambda e: skey(I, st, e)) if tree else xs)))
    if n in ("insert", "replace"):
        k = find_key(I, st, v, skey(I, st, a[1]))
        if k is None:
            put(v[2] + (a[1],))
        return b2(k is None)
    if n in ("contains", "get"):
        k = find_key(I, st, v, skey(I, st, a[1]))
        if n == "get":
            return NONE if k is None else some(M.temp(I, st, v[2][k]))
        return b2(k is not None)
    if n in ("remove", "take"):
        k = find_key(I, st, v, skey(I, st, a[1]))
        if k is not None:
            put(v[2][:k] + v[2][k + 1:])
        return b2(k is not None) if n == "remove" else (NONE if k is None else some(v[2][k]))
    if n == "len":
        return const(len(v[2]))
    if n == "is_empty":
        return b2(not v[2])
    if n == "clear":
        put(())
        return UNIT
    if n == "retain":
        put(tuple(x for x in v[2] if truth(I, st, a[1], [M.temp(I, st, x)])))
        return UNIT
    if n == "iter":
        if tree or len(v[2]) <= 1:
            return lst(M.temp(I, st, x) for x in v[2])
        raise Unknown                       # unspecified order
    if n in ("is_subset", "is_superset", "is_disjoint"):
        _, _, w = coll_of(I, st, a[1])
        x, y = {skey(I, st, e) for e in v[2]}, {skey(I, st, e) for e in w[2]}
        return b2(x <= y if n == "is_subset" else x >= y if n == "is_superset" else not x & y)
    if n in ("reserve", "shrink_to_fit"):
        return UNIT
    if n in ("first", "last") and tree:
        return some(M.temp(I, st, v[2][0 if n == "first" else -1])) if v[2] else NONE
    return None


def map_method(I, st, F, a):
    n = F["n"]
    kind = F["p"].split("::<")[0]
    if n in ("new", "with_capacity"):
        return ("coll", kind, ())
    r, p, v = coll_of(I, st, a[0])
    tree = "BTree" in v[1]
    key = lambda e: e[1][0]
    put = lambda xs: I.store(st, r, p, ("coll", v[1], tuple(sorted(xs, key=lambda e: skey(I, st, key(e))) if tree else xs)))
    if n == "insert":
        k = find_key(I, st, v, skey(I, st, a[1]), key)
        e = ("tup", (a[1], a[2]))
        if k is None:
            put(v[2] + (e,))
            return NONE
        put(v[2][:k] + (e,) + v[2][k + 1:])
        return some(v[2][k][1][1])
    if n in ("contains_key", "get", "remove", "get_mut"):
        k = find_key(I, st, v, skey(I, st, a[1]), key)
        if n == "contains_key":
            return b2(k is not None)
        if n == "get":
            return NONE if k is None else some(M.temp(I, st, v[2][k][1][1]))
        if n == "remove":
            if k is None:
                return NONE
            put(v[2][:k] + v[2][k + 1:])
            return some(v[2][k][1][1])
        raise Unknown
    if n == "len":
        return const(len(v[2]))
    if n == "is_empty":
        return b2(not v[2])
    if n in ("iter", "keys", "values"):
        if not tree and len(v[2]) > 1:
            raise Unknown
        f = {"iter": lambda e: ("tup", (M.temp(I, st, e[1][0]), M.temp(I, st, e[1][1]))), "keys": lambda e: M.temp(I, st, e[1][0]),
             "values": lambda e: M.temp(I, st, e[1][1])}[n]
        return lst(f(e) for e in v[2])
    if n == "clear":
        put(())
        return UNIT
    return None


# -------------------------------------------------------------- comparisons
def cmp_op(I, st, F, a):
    n, tr = F["n"], F.get("tr")
    t = I.ty(F["a"][0])
    local = t.get("k") == "adt" and M.local_impl(I, t["s"], tr, n) is not None
    if local:
        return None
    x, y = M.D(I, st, a[0]), M.D(I, st, a[1])
    if x[0] == "c" and y[0] == "c" and type(x[1]) == type(y[1]):
        u, w = x[1], y[1]
        if isinstance(u, str):
            u, w = u.encode(), w.encode()
        if n == "cmp":
            return ordering(u, w)
        if n == "partial_cmp":
            return some(ordering(u, w))
        if n in ("lt", "le", "gt", "ge"):
            return b2({"lt": u < w, "le": u <= w, "gt": u > w, "ge": u >= w}[n])
        if n == "max":
            return a[0] if u > w else a[1]
        if n == "min":
            return a[1] if w < u else a[0]
    inty = t.get("k") == "prim" and t.get("p") in BITS
    if inty and n in ("lt", "le", "gt", "ge"):
        return I.binop(n.capitalize(), x, y)
    if inty and n in ("max", "min"):
        return [((x if b == (n == "max") else y), s) for b, s in I.force_bool(st, I.binop("Gt", x, y))]
    if inty and n == "clamp":
        lo, hi = a[1], M.D(I, st, a[2])
        return const(max(N(lo), min(N(hi), N(x))))
    if inty and n in ("cmp", "partial_cmp"):
        out = []
        for b, s in I.force_bool(st, I.binop("Lt", x, y)):
            if b:
                out.append((("adt", ORDER, "Less", ()), s))
                continue
            for e, s2 in I.force_bool(s, I.binop("Eq", x, y)):
                out.append((("adt", ORDER, "Equal" if e else "Greater", ()), s2))
        return [((some(v) if n == "partial_cmp" else v), s) for v, s in out]
    return None


def order_method(I, st, F, a):
    n = F["n"]
    v = M.D(I, st, a[0])
    out = []
    for x, s in I.fork_variant(st, v, ORDER):
        if n.startswith("is_") and n[3:] in ("lt", "le", "gt", "ge", "eq", "ne"):
            good = {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal"), "eq": ("Equal",), "ne": ("Less", "Greater")}
            out.append((b2(x in good[n[3:]]), s))
        elif n == "reverse":
            out.append((("adt", ORDER, {"Less": "Greater", "Greater": "Less"}.get(x, x), ()), s))
        elif n == "then":
            out.append((a[1] if x == "Equal" else ("adt", ORDER, x, ()), s))
        elif n == "then_with":
            if x == "Equal":
                out += I.call_value(s, a[1], [])
            else:
                out.append((("adt", ORDER, x, ()), s))
        else:
            return None
    return out


def ord_free(I, st, F, a):
    return cmp_op(I, st, dict(F, tr="std::cmp::Ord"), a)


def range_method(I, st, F, a):
    n = F["n"]
    if n == "contains":
        v = M.D(I, st, a[0])
        if v[0] != "adt":
            return None
        d = dict(v[3])
        x = M.D(I, st, a[1])
        incl = v[1].endswith("Inclusive")
        out, cur = [], [st]
        tests = ([("Ge", d["start"])] if "start" in d else []) + ([("Le" if incl else "Lt", d["end"])] if "end" in d else [])
        for op, b in tests:
            nxt = []
            for s in cur:
                for r, s2 in I.force_bool(s, I.binop(op, x, M.D(I, s, b))):
                    (nxt if r else out).append(s2 if r else (FALSE, s2))
            cur = nxt
        return out + [(TRUE, s) for s in cur]
    if n == "is_empty":
        v = M.D(I, st, a[0])
        d = dict(v[3])
        return I.binop("Gt" if v[1].endswith("Inclusive") else "Ge", d["start"], d["end"])
    return None


def range_incl(I, st, F, a):
    return ("adt", "std::ops::RangeInclusive", "RangeInclusive", (("start", a[0]), ("end", a[1]), ("exhausted", FALSE)))


def add_op(I, st, F, a):
    """String + &str, String += &str"""
    if "std::string::String" not in F.get("r", "") and I.ts(F["a"][0]) != "std::string::String":
        return None
    if F["n"] == "add":
        r = M.temp(I, st, M.D(I, st, a[0]))
        string_method(I, st, dict(F, n="push_str"), [r, a[1]])
        return M.D(I, st, r)
    string_method(I, st, dict(F, n="push_str"), a)
    return UNIT


def write_fmt(I, st, F, a):
    t = I.ts(F["a"][0])
    if t not in ("std::string::String", "&mut std::string::String"):
        return None
    v = M.D(I, st, a[1])
    if v[0] != "fargs":
        return None
    r, p = M.lastplace(I, st, a[0])
    I.store(st, r, p, joined([I.load(st, r, p)] + list(v[1])))
    return ok(UNIT)


def write_str(I, st, F, a):
    if I.ts(F["a"][0]) not in ("std::string::String", "&mut std::string::String"):
        return None
    return string_method(I, st, F, a)


def cow(I, st, F, a):
    if F["n"] in ("into_owned", "to_mut"):
        v = a[0]
        if v[0] == "adt":
            v = v[3][0][1]
        return M.D(I, st, v)
    return None


# --------------------------------------------------------------- iterators
def items(I, st, a):
    x = M.list_all(I, st, M.get_it(I, st, a))
    if x is None:
        raise Unknown
    return x


def it_more(I, st, F, a):
    n = F["n"]
    if n in ("sum", "product"):
        xs = [N(M.D(I, st, x)) for x in items(I, st, a[0])]
        r = sum(xs)
        if n == "product":
            r = 1
            for x in xs:
                r *= x
        return const(r)
    if n in ("max", "min"):
        xs = items(I, st, a[0])
        if not xs:
            return NONE
        ks = [skey(I, st, x) for x in xs]
        m = max(ks) if n == "max" else min(ks)
        i = len(ks) - 1 - ks[::-1].index(m) if n == "max" else ks.index(m)
        return some(xs[i])
    if n in ("max_by_key", "min_by_key"):
        xs = items(I, st, a[0])
        if not xs:
            return NONE
        ks = [skey(I, st, pure(I, st, a[1], [M.temp(I, st, x)])) for x in xs]
        m = max(ks) if n[:3] == "max" else min(ks)
        i = len(ks) - 1 - ks[::-1].index(m) if n[:3] == "max" else ks.index(m)
        return some(xs[i])
    if n in ("step_by",):
        xs = items(I, st, a[0])
        return lst(xs[::N(a[1])])
    if n == "partition":
        work, out = [(M.get_it(I, st, a[0]), st, (), ())], []
        while work:
            i, s, x, y = work.pop()
            for e, m, s1 in M.next_iter(I, s, i):
                if e is None:
                    out.append((("tup", (("seq", x), ("seq", y))), s1))
                    continue
                for v, s2 in I.call_value(s1, a[1], [M.temp(I, s1, e)]):
                    for b, s3 in I.force_bool(s2, v):
                        work.append((m, s3, x + (e,), y) if b else (m, s3, x, y + (e,)))
        return out
    if n == "unzip":
        xs = items(I, st, a[0])
        if any(x[0] != "tup" for x in xs):
            raise Unknown
        return ("tup", (("seq", tuple(x[1][0] for x in xs)), ("seq", tuple(x[1][1] for x in xs))))
    if n in ("eq", "ne"):
        xs, ys = items(I, st, a[0]), items(I, st, a[1])
        r = len(xs) == len(ys) and all(same(I, st, x, y) for x, y in zip(xs, ys))
        return b2(r == (n == "eq"))
    if n == "reduce":
        out, work = [], []
        for x, m, s in M.next_iter(I, st, M.get_it(I, st, a[0])):
            if x is None:
                out.append((NONE, s))
            else:
                work.append((m, s, x))
        while work:
            i, s, acc = work.pop()
            for x, m, s1 in M.next_iter(I, s, i):
                if x is None:
                    out.append((some(acc), s1))
                else:
                    for v, s2 in I.call_value(s1, a[1], [acc, x]):
                        work.append((m, s2, v))
        return out
    if n in ("rposition", "rfind"):
        xs = items(I, st, a[0])
        for i in range(len(xs) - 1, -1, -1):
            if truth(I, st, a[1], [M.temp(I, st, xs[i]) if n == "rfind" else xs[i]]):
                return some(xs[i]) if n == "rfind" else some(const(i))
        return NONE
    if n in ("try_for_each", "try_fold"):
        fold = n == "try_fold"
        f = a[2] if fold else a[1]
        out, work = [], [(M.get_it(I, st, a[0]), st, a[1] if fold else UNIT)]
        rt = None
        while work:
            i, s, acc = work.pop()
            for x, m, s1 in M.next_iter(I, s, i):
                if x is None:
                    out.append((acc, s1, True))
                    continue
                for v, s2 in I.call_value(s1, f, [acc, x] if fold else [x]):
                    if v[0] != "adt" or v[1] not in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
                        raise Unknown
                    rt = v[1]
                    if v[2] in ("Ok", "Some", "Continue"):
                        work.append((m, s2, v[3][0][1]))
                    else:
                        out.append((v, s2, False))
        if rt is None:
            t = I.ty(F["a"][-1])
            rt = t.get("p")
            if rt not in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
                raise Unknown
        good = {"std::option::Option": "Some", "std::result::Result": "Ok", "std::ops::ControlFlow": "Continue"}[rt]
        return [((("adt", rt, good, (("0", v),)) if g else v), s) for v, s, g in out]
    if n in ("is_sorted",):
        ks = [skey(I, st, x) for x in items(I, st, a[0])]
        return b2(ks == sorted(ks))
    if n == "intersperse":
        raise Unknown
    if n == "nth_back":
        xs = items(I, st, a[0])
        k = N(a[1])
        return some(xs[-1 - k]) if k < len(xs) else NONE
    return None


def guarded(f):
    def g(I, st, F, a):
        try:
            r = f(I, st, F, a)
        except Unknown:
            return None
        if r is None:
            return None
        if isinstance(r, list):
            return r
        return [(r, st)]
    return g


str_method, char_method, num_method, string_method, slice_method, vec_method = map(
    guarded, (str_method, char_method, num_method, string_method, slice_method, vec_method))
set_method, map_method, cmp_op, range_method, cow, it_more = map(guarded, (set_method, map_method, cmp_op, range_method, cow, it_more))

import models as M  # noqa: E402  (after the helpers it is given)

_add, _wf, _ws, _of, _ri = add_op, write_fmt, write_str, ord_free, range_incl


def last_hit(I, st, F, a):
    """rposition and rfind: the last of the elements that match"""
    find = F["n"] == "rfind"
    sg = M.segs(I, st, M.get_it(I, st, a[0]))
    out = []
    if sg is not None and len(sg) == 1 and sg[0][0] == "all":
        for h, s in M.quantify(I, st, M.get_it(I, st, a[0]), a[1], True, find):
            if h is None:
                out.append((NONE, s))
                continue
            f = ("found", h[2][1], ("last", h[2][2]))
            out.append((some((M.temp(I, s, f) if h[1][0] == "ref" else f) if find else ("pos", h[2][1], f[2])), s))
        return out
    work, full = [(M.get_it(I, st, a[0]), st, ())], []
    while work:
        i, s, xs = work.pop()
        for x, m, s1 in M.next_iter(I, s, i):
            if x is None:
                full.append((s1, xs))
            else:
                work.append((m, s1, xs + (x,)))
    for s, xs in full:
        cur = [s]
        for k in range(len(xs) - 1, -1, -1):
            nxt = []
            for s1 in cur:
                for r, s2 in I.call_value(s1, a[1], [M.temp(I, s1, xs[k]) if find else xs[k]]):
                    for b, s3 in I.force_bool(s2, r):
                        if b:
                            out.append((some(xs[k] if find else const(k)), s3))
                        else:
                            nxt.append(s3)
            cur = nxt
        out += [(NONE, s1) for s1 in cur]
    return out


def str_facts(I, st, F, a):
    """questions about texts that are not known are facts of their own"""
    r = str_method(I, st, F, a)
    if r is not None or F["n"] not in ("eq_ignore_ascii_case", "starts_with", "ends_with", "contains"):
        return r
    x, y = M.D(I, st, a[0]), M.D(I, st, a[1])
    if x == y:
        return [(TRUE, st)]
    if y[0] in ("closure", "fn", "unk") or x[0] == "unk":
        return None
    return [((F["n"], x, y), st)]


def install():
    P = [
        ("core::str::<impl str>::", str_facts), ("std::str::<impl str>::", str_facts),
        ("std::char::methods::<impl char>::", char_method), ("core::num::<impl ", num_method),
        ("std::string::String::", string_method), ("core::slice::<impl [T]>::", slice_method), ("std::slice::<impl [T]>::", slice_method),
        ("std::vec::Vec::<T, A>::", vec_method), ("std::collections::VecDeque::<T", vec_method),
        ("std::collections::HashSet::<", set_method), ("std::collections::BTreeSet::<", set_method),
        ("std::collections::HashMap::<", map_method), ("std::collections::BTreeMap::<", map_method),
        ("std::ops::RangeInclusive::<Idx>::contains", range_method), ("std::ops::Range::<Idx>::", range_method),
        ("std::borrow::Cow::<", cow), ("std::cmp::Ordering::", order_method),
    ]
    M.PREFIXM.extend(P)
    M.PATHM["std::ops::RangeInclusive::<Idx>::new"] = guarded(_ri)
    for x in ("std::slice::from_ref", "core::slice::from_ref", "core::slice::raw::from_ref", "std::array::from_ref"):
        M.PATHM[x] = lambda I, st, F, a: [(M.temp(I, st, ("seq", (M.D(I, st, a[0]),))), st)]
    M.PATHM["std::cmp::max"] = M.PATHM["std::cmp::min"] = _of
    for tr in ("std::cmp::Ord", "std::cmp::PartialOrd"):
        for n in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "clamp"):
            M.TRAITM.setdefault((tr, n), cmp_op)
    M.TRAITM[("std::ops::Add", "add")] = guarded(_add)
    M.TRAITM[("std::ops::AddAssign", "add_assign")] = guarded(_add)
    M.TRAITM[("std::fmt::Write", "write_fmt")] = guarded(_wf)
    M.TRAITM[("std::fmt::Write", "write_str")] = M.TRAITM[("std::fmt::Write", "write_char")] = guarded(_ws)
    for n in ("sum", "product", "max", "min", "max_by_key", "min_by_key", "step_by", "partition", "unzip", "eq", "ne", "reduce", "rposition",
              "rfind", "try_for_each", "try_fold", "is_sorted", "nth_back"):
        M.ITERM[n] = it_more
    M.ITERM["rposition"] = M.ITERM["rfind"] = last_hit
