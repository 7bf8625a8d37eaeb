"""Disjunctive abstract interpretation of the dumped MIR.

The abstract domain is a set of (path condition, abstract store, event log)
triples.  Values are terms over unknown inputs; path conditions are *sets of
allowed values* of finite-domain predicates (variant of a syntax node, presence
of an attribute, truth of a predicate, the name an identifier has, an interval
for a length), so feasibility is decided by set intersection, never by a
solver, and nothing is executed.  Calls to library functions go through
abstract transfer functions (models.py); unknown ones yield an opaque term and
havoc what they could write.
"""
import sys
import time
sys.setrecursionlimit(20000)

INF = float("inf")


class Stop(Exception):
    """The analysis cannot handle this program (reported, never ignored)."""


class Limit(Stop):
    """a resource bound of the analysis was reached"""


class St:
    __slots__ = ("mem", "pc", "ev", "n", "cut", "guards", "cnt")

    def __init__(self):
        self.mem, self.pc, self.ev, self.n, self.cut, self.guards, self.cnt = {}, {}, (), 0, False, (), ()

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.pc = dict(self.pc)
        s.ev, s.n, s.cut, s.guards, s.cnt = self.ev, self.n, self.cut, self.guards, self.cnt
        return s

    def event(self, *e):
        self.ev = self.ev + (e,)

    def fresh(self):
        self.n += 1
        return self.n


UNIT = ("tup", ())
TRUE, FALSE = ("c", True), ("c", False)
NONE = ("adt", "std::option::Option", "None", ())
MOVED = ("moved",)


def some(v):
    return ("adt", "std::option::Option", "Some", (("0", v),))


def ok(v):
    return ("adt", "std::result::Result", "Ok", (("0", v),))


def err(v):
    return ("adt", "std::result::Result", "Err", (("0", v),))


def const(x):
    return ("c", x)


def b2(x):
    return TRUE if x else FALSE


EXPR = "syn::Expr"
STMT = "syn::Stmt"
PRESERVED = {"attrs", "mac", "label", "tokens", "semi_token", "meta"}


def replaced(t, a, b):
    """t with b for a; fields of known values are read"""
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    r = tuple(replaced(x, a, b) for x in t)
    if len(r) == 3 and r[0] == "p" and r != t and r[1][0] in ("adt", "seq", "tup", "ov"):
        return proj(r[1], r[2])
    return r


def offset(v):
    """a number as (what, a constant added to it)"""
    k = 0
    while v[0] == "bin" and v[1] in ("Add", "Sub") and v[3][0] == "c" and isinstance(v[3][1], int):
        k += v[3][1] if v[1] == "Add" else -v[3][1]
        v = v[2]
    return v, k


def proj(v, k):
    """Read one projection step of a value."""
    t = v[0]
    if t == "adt":
        if isinstance(k, tuple) and k[0] == "d":
            return v
        if k == "@attrs":
            if len(v[3]) == 1:
                return proj(v[3][0][1], "attrs")
            return ("seq", ())
        for n, x in v[3]:
            if n == k:
                return x
        if v[1].startswith("std::mem::") or v[1].startswith("core::mem::"):
            return v
        raise Stop("no field %r in %s::%s" % (k, v[1], v[2]))
    if t == "ov":
        for n, x in v[2]:
            if n == k:
                return x
        if k == "attrs" and v[1][0] != "adt":
            pass
        r = proj(v[1], k)
        # canonical location of the attributes of an expression
        return r
    if t == "tup" or t == "clo":
        items = v[1] if t == "tup" else v[2]
        return items[int(k)]
    if t == "seq" and isinstance(k, tuple) and k[0] == "i" and isinstance(k[1], int):
        i = k[1]
        n = len(v[1])
        if i < 0:
            i += n
        if 0 <= i < n:
            return v[1][i]
        raise Stop("index out of range of known sequence")
    if t == "seq" and (k == "@init" or isinstance(k, tuple) and k[0] == "ss"):
        lo, hi = (0, len(v[1]) - 1) if k == "@init" else (k[1], len(v[1]) - k[2] if k[3] else k[2])
        if not 0 <= lo <= hi <= len(v[1]):
            raise Stop("part of a known sequence")
        return ("seq", v[1][lo:hi])
    if t == "p" and isinstance(k, tuple) and k[0] == "i" and isinstance(k[1], int):
        # an element of a part of a list is an element of the list
        if v[2] == "@init":
            return proj(v[1], ("i", k[1] if k[1] >= 0 else k[1] - 1))
        if isinstance(v[2], tuple) and v[2][0] == "ss" and (k[1] >= 0 or v[2][3]):
            return proj(v[1], ("i", k[1] + v[2][1] if k[1] >= 0 else k[1] - v[2][2]))
    if t == "mapseq" and isinstance(k, tuple) and k[0] == "i":
        return replaced(v[2], ("elem", v[1]), proj(v[1], k))
    if t == "mapseq" and (k == "@init" or isinstance(k, tuple) and k[0] == "ss"):
        part = proj(v[1], k)
        return ("mapseq", part, replaced(v[2], ("elem", v[1]), ("elem", part)))
    if t == "push" and k == "@init":
        return v[1]
    if t == "push" and isinstance(k, tuple) and k[0] == "i" and k[1] in (-1, ("len", v[1])):
        return v[2]
    if t == "insert" and isinstance(k, tuple) and k[0] == "i":
        if k[1] == 0:
            return v[2]
        if isinstance(k[1], int) and k[1] > 0:
            return proj(v[1], ("i", k[1] - 1))
        return proj(v[1], k)
    if t == "rec" and not keeps_shape(v[1]):
        return ("p", v, k)
    if t == "rec":
        # content after a traversal: own shape and attributes are unchanged
        if isinstance(k, tuple) and k[0] == "d":
            if k[2] == STMT and k[1] in ("Expr", "Local"):
                return ("recs", v[1], proj(v[2], k), k[1])
            return ("rec", v[1], proj(v[2], k))
        if k == "0":
            return ("rec", v[1], proj(v[2], k))
        if k == "@attrs" or k in PRESERVED:
            return proj(v[2], k)
        return ("h", v[1], proj(v[2], k))
    if t == "recs":
        if k == "0":
            return ("h", v[1], proj(v[2], k))
        if v[3] == "Expr":
            return proj(v[2], k)
        return ("h", v[1], proj(v[2], k))
    if k == "attrs" and t == "p" and v[2] == "0" and v[1][0] == "p" and isinstance(v[1][2], tuple) and v[1][2][0] == "d" and v[1][2][2] == EXPR:
        return proj(v[1][1], "@attrs")
    if t == "c" and v[1] == ():
        return v
    if t == "str":
        return v
    return ("p", v, k)


def keeps_shape(tag):
    """does this effect leave a node's own variant and attributes alone: the
    default walks do, and the search for branches (checked for child_expr)"""
    return tag[0] == "child_expr" or (len(tag) > 1 and tag[1][0] == "walk")


def norm_ov(base, ch):
    ch = tuple((k, x) for k, x in ch if not same_as(base, k, x))
    if not ch:
        return base
    return ("ov", base, ch)


def same_as(base, k, x):
    try:
        return proj(base, k) == x
    except Stop:
        return False


def is_expr_payload_path(path):
    return (len(path) >= 3 and isinstance(path[0], tuple) and path[0][0] == "d" and path[0][2] == EXPR
            and path[1] == "0" and path[2] == "attrs")


def concrete(v):
    return v[0] in ("adt", "tup", "clo")


def write(v, path, new):
    if not path:
        return new
    k = path[0]
    t = v[0]
    if t == "adt":
        if isinstance(k, tuple) and k[0] == "d":
            return write(v, path[1:], new)
        if k == "@attrs":
            n, x = v[3][0]
            return ("adt", v[1], v[2], ((n, write(x, ("attrs",) + tuple(path[1:]), new)),))
        out = []
        hit = False
        for n, x in v[3]:
            if n == k:
                out.append((n, write(x, path[1:], new)))
                hit = True
            else:
                out.append((n, x))
        if not hit:
            if v[1].startswith("std::mem::") or v[1].startswith("core::mem::"):
                return write(v, path[1:], new)
            raise Stop("no field %r to write in %s" % (k, v[1]))
        return ("adt", v[1], v[2], tuple(out))
    if t == "tup":
        i = int(k)
        return ("tup", v[1][:i] + (write(v[1][i], path[1:], new),) + v[1][i + 1:])
    if t == "clo":
        i = int(k)
        return ("clo", v[1], v[2][:i] + (write(v[2][i], path[1:], new),) + v[2][i + 1:])
    if t == "seq" and isinstance(k, tuple) and k[0] == "i" and isinstance(k[1], int):
        i = k[1] if k[1] >= 0 else k[1] + len(v[1])
        return ("seq", v[1][:i] + (write(v[1][i], path[1:], new),) + v[1][i + 1:])
    if t == "push" and isinstance(k, tuple) and k[0] == "i" and k[1] in (-1, ("len", v[1])):
        return ("push", v[1], write(v[2], path[1:], new))
    if t == "insert" and isinstance(k, tuple) and k[0] == "i" and k[1] == 0:
        return ("insert", v[1], write(v[2], path[1:], new))
    if is_expr_payload_path(path) and not concrete(v):
        # keep the canonical location
        d = None
        if t == "ov":
            d = [x for n, x in v[2] if n == path[0]]
        if not d or not concrete(d[0]):
            path = ("@attrs",) + tuple(path[3:])
            k = "@attrs"
    if t == "ov":
        cur = proj(v, k)
        nv = write(cur, path[1:], new)
        ch = tuple((n, x) for n, x in v[2] if n != k) + ((k, nv),)
        return norm_ov(v[1], tuple(sorted(ch, key=repr)))
    cur = proj(v, k)
    nv = write(cur, path[1:], new)
    return norm_ov(v, ((k, nv),))


def read(v, path):
    for i, k in enumerate(path):
        if is_expr_payload_path(path[i:]) and not (v[0] == "adt") and not (v[0] == "ov" and any(n == k and concrete(x) for n, x in v[2])):
            v = proj(v, "@attrs")
            return read(v, path[i + 3:])
        if len(path) == i + 2 and isinstance(k, tuple) and k[0] == "d" and k[2] == EXPR and path[i + 1] == "0" and not concrete(v):
            # a whole payload takes its attributes along
            r = proj(proj(v, k), "0")
            if concrete(r):
                return r
            A = proj(v, "@attrs")
            return r if proj(r, "attrs") == A else norm_ov(r, (("attrs", A),))
        v = proj(v, k)
    return v


def unsliced(path):
    """elements of a part of a sequence are elements of the sequence"""
    if not any(k == "@init" or (isinstance(k, tuple) and k[0] == "ss") for k in path):
        return path
    out = []
    for k in path:
        if out and isinstance(k, tuple) and k[0] == "i" and isinstance(k[1], int):
            b = out[-1]
            if b == "@init":
                out[-1] = ("i", k[1] if k[1] >= 0 else k[1] - 1)
                continue
            if isinstance(b, tuple) and b[0] == "ss" and (b[3] or k[1] >= 0):
                out[-1] = ("i", b[1] + k[1] if k[1] >= 0 else k[1] - b[2])
                continue
        out.append(k)
    return tuple(out)


class Interp:
    def __init__(self, dump, models=None, hooks=None):
        self.d = dump
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.fns = {f["id"]: f for f in dump["fns"]}
        self.by_path = {}
        for f in dump["fns"]:
            self.by_path.setdefault(f["p"], []).append(f)
        self.frame = 0
        self.stack = []
        self.panics = []
        self.deadline, self.expired = None, False
        self.unknown = {}
        self.concrete_generics = False
        self.visited_fns = set()
        self.calls = 0
        self.steps = 0
        self.hooks = hooks or {}
        self.bound = 2
        self.unroll = 0
        self.bb_cov = set()
        self.step_limit = 4_000_000
        self.tolerant = False
        self.strict_calls = False
        self.stops = {}
        self.root_fn = None
        self.record_drops = False
        self.cutnotes = {}
        self.variants_cache = {}
        import models as M
        self.models = M

    # ------------------------------------------------------------ lookups
    def fn(self, path, sub=None):
        """Find a local function by its path (optionally by type-arg text)."""
        c = [f for f in self.by_path.get(path, []) if f["local"] or True]
        if sub is not None:
            c = [f for f in c if any(sub in self.types[a]["s"] for a in f.get("a", []))]
        if len(c) < 1:
            raise Stop("anchor function `%s` not found" % path)
        return c[0]["id"]

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    def variants(self, adt):
        if adt not in self.variants_cache:
            self.variants_cache[adt] = {v["n"]: v["d"] for v in self.adts[adt]["vs"]}
        return self.variants_cache[adt]

    # ------------------------------------------------------ path condition
    def fork_dom(self, st, key, dom, parts):
        """Split `key` (whose full domain is dom) into the given parts (list of
        (label, subset)); yields feasible (label, state)."""
        cur = st.pc.get(key)
        if cur is None:
            cur = frozenset(dom)
        out = []
        for lab, sub in parts:
            x = cur & sub
            if x:
                out.append((lab, x))
        res = []
        for i, (lab, x) in enumerate(out):
            s = st if i == len(out) - 1 else st.fork()
            if x != frozenset(dom):
                s.pc[key] = x
            elif key in s.pc:
                s.pc[key] = x
            res.append((lab, s))
        return res

    def fork_bool(self, st, key):
        return self.fork_dom(st, key, (True, False), [(True, frozenset([True])), (False, frozenset([False]))])

    def fork_str(self, st, t, c):
        """Is string term t equal to constant c?  ('in', consts) | ('not', consts)"""
        key = ("str", t)
        cur = st.pc.get(key)
        if cur is None:
            cur = ("not", frozenset())
        if cur[0] == "is":
            return [(cur[1] == c, st)]
        if c in cur[1]:
            return [(False, st)]
        a = st.fork()
        a.pc[key] = ("is", c)
        st.pc[key] = ("not", cur[1] | {c})
        return [(True, a), (False, st)]

    def interval(self, st, t):
        return st.pc.get(("int", t), (0, INF))

    def fork_int(self, st, t, c):
        """Three-way comparison of the non-negative int term t with c."""
        lo, hi = self.interval(st, t)
        out = []
        if lo < c:
            out.append(("<", (lo, min(hi, c - 1))))
        if lo <= c <= hi:
            out.append(("=", (c, c)))
        if hi > c:
            out.append((">", (max(lo, c + 1), hi)))
        res = []
        for i, (lab, iv) in enumerate(out):
            s = st if i == len(out) - 1 else st.fork()
            if iv != (0, INF):
                s.pc[("int", t)] = iv
            res.append((lab, s))
        return res

    # --------------------------------------------------------- memory
    def load(self, st, root, path):
        if root in st.mem:
            v = st.mem[root]
        elif root[0] == "M":
            v = ("p", root[1], "*")
        elif root[0] == "K":
            v = root[1]
        else:
            raise Stop("read of undefined location %r" % (root,))
        return read(v, unsliced(path))

    def store(self, st, root, path, new):
        if path:
            path = unsliced(path)
            if root in st.mem:
                v = st.mem[root]
            elif root[0] == "M":
                v = ("p", root[1], "*")
            elif root[0] == "K":
                v = root[1]
            else:
                v = ("uninit",)
            if v == MOVED:
                v = ("uninit",)
            new = write(v, path, new)
        st.mem[root] = new

    def deref(self, st, v):
        """place a pointer value points to"""
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] == "c" or v[0] == "str":
            return ("K", v), ()
        return ("M", v), ()

    def deep(self, st, v):
        """follow references to a value"""
        n = 0
        while v[0] == "ref":
            v = self.load(st, v[1], v[2])
            n += 1
            if n > 20:
                raise Stop("reference cycle")
        return v

    def place(self, st, fr, p):
        root, path = ("L", fr, p[0]), ()
        for e in p[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, root, path)
                root, path = self.deref(st, v)
            elif k == "b":
                pass
            elif k == "f":
                path = path + (e[1],)
            elif k == "d":
                path = path + (("d", e[1], e[2]),)
            elif k == "i":
                v = st.mem.get(("L", fr, e[1]))
                path = path + (("i", v[1] if v[0] == "c" else v),)
            elif k == "ci":
                off = e[1] if not e[2] else -e[1]
                path = path + (("i", off),)
            elif k == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
            else:
                raise Stop("unsupported place projection %r" % (e,))
        return root, path

    # --------------------------------------------------------- operands
    def constant(self, v, t):
        if "b" in v:
            return const(v["b"])
        if "i" in v:
            return const(v["i"])
        if "ch" in v:
            return const(v["ch"])
        if "s" in v:
            return const(v["s"])
        if "a" in v:
            return ("seq", tuple(self.constant(x, None) for x in v["a"]))
        if "r" in v:
            x = self.constant(v["r"], None)
            if x[0] == "c" and isinstance(x[1], str):
                return x
            return ("ref", ("K", x), ())
        if "z" in v:
            ty = self.ty(t) if t is not None else None
            if ty and ty["k"] == "closure":
                return ("clo", ty["fn"], ())
            if ty and ty["k"] == "adt":
                a = self.adts.get(ty["p"])
                if a and a["kind"] == "struct":
                    return ("adt", ty["p"], a["vs"][0]["n"], tuple((f[0], UNIT) for f in a["vs"][0]["f"]))
            if ty and ty["k"] == "fndef":
                return ("fn", FnVal(ty["f"]))
            return UNIT
        if "var" in v:
            return ("adt", self.ty(t)["p"] if t is not None else "?", v["var"], ())
        return ("s", "const:%s" % (self.ts(t) if t is not None else "?"))

    def operand(self, st, fr, fid, o):
        if "c" in o:
            r, p = self.place(st, fr, o["c"])
            return self.load(st, r, p)
        if "m" in o:
            r, p = self.place(st, fr, o["m"])
            v = self.load(st, r, p)
            if r[0] == "L":
                # moving out of a local: remembered so that drops are exact
                try:
                    if not p:
                        st.mem[r] = MOVED
                    else:
                        self.store(st, r, p, MOVED)
                except Stop:
                    pass
            return v
        k = o["k"]
        if k == "fn":
            return ("fn", FnVal(o["f"]))
        if k == "const":
            if o["v"].get("o") and o.get("n"):
                return ("s", "const:" + o["n"])
            return self.constant(o["v"], o["t"])
        if k == "promoted":
            body = self.fns[fid]["promoted"][o["i"]]
            rs = self.exec_body(fid, body, [], st, promoted=True)
            if len(rs) != 1:
                raise Stop("promoted constant forks")
            return rs[0][0]
        return ("s", "rt")

    def as_str(self, st, v):
        return self.deep(st, v)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, fid, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, fid, r[1])
        if k == "ref":
            root, p = self.place(st, fr, r[1])
            if root[0] == "K" and not p and root[1][0] == "c" and isinstance(root[1][1], str):
                return root[1]
            if root[0] == "M" and not p and root not in st.mem:
                return root[1]
            return ("ref", root, p)
        if k == "agg":
            kk = r[1]
            vs = tuple(self.operand(st, fr, fid, x) for x in r[2])
            if kk[0] == "tuple":
                return ("tup", vs)
            if kk[0] == "array":
                return ("seq", vs)
            if kk[0] == "adt":
                return ("adt", kk[1], kk[2], tuple(zip(kk[3], vs)))
            if kk[0] == "closure":
                t = self.ty(kk[1])
                return ("clo", t["fn"], vs)
            return ("s", "agg")
        if k == "disc":
            root, p = self.place(st, fr, r[1])
            v = self.load(st, root, p)
            ty = self.ty(r[2])
            if ty["k"] != "adt":
                return ("s", "disc?")
            return self.disc(v, ty["p"])
        if k == "cast":
            v = self.operand(st, fr, fid, r[2])
            t = self.ty(r[3])
            if v[0] == "c" and t["k"] == "prim":
                if isinstance(v[1], bool) and t["p"] not in ("bool", "char"):
                    return const(int(v[1]))
                return v
            if t["k"] == "prim" and v[0] not in ("c",):
                return ("cast", t["p"], v)
            return v
        if k == "bin":
            a = self.operand(st, fr, fid, r[2])
            b = self.operand(st, fr, fid, r[3])
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.operand(st, fr, fid, r[2])
            if r[1] == "Not":
                return self.not_(a)
            if r[1] == "PtrMetadata" or r[1] == "Len":
                return self.length(st, self.deep(st, a))
            if r[1] == "Neg" and a[0] == "c":
                return const(-a[1])
            return ("un", r[1], a)
        if k == "rep":
            a = self.operand(st, fr, fid, r[1])
            return ("seq", (a,) * r[2])
        raise Stop("unsupported rvalue %r" % (r,))

    def not_(self, a):
        if a[0] == "c":
            return const(not a[1]) if isinstance(a[1], bool) else const(~a[1])
        if a[0] == "not":
            return a[1]
        return ("not", a)

    def binop(self, op, a, b):
        wo = False
        if op.endswith("WithOverflow"):
            op = op[:-len("WithOverflow")]
            wo = True
        op = op.replace("Unchecked", "")
        r = None
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y,
                 "Gt": lambda: x > y, "Ge": lambda: x >= y, "Add": lambda: x + y, "Sub": lambda: x - y,
                 "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
            if f is None and type(x) is int and type(y) is int:
                f = {"Rem": lambda: x % y, "Div": lambda: x // y}.get(op) if x >= 0 and y > 0 else None
                if y >= 0 and op in ("Shl", "Shr") and y < 64:
                    f = (lambda: x << y) if op == "Shl" else (lambda: x >> y)
            if f:
                r = const(f())
        if r is None and op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and isinstance(x[1], bool):
                    if op == "BitAnd":
                        r = y if x[1] else FALSE
                    else:
                        r = TRUE if x[1] else y
        if r is None and op in ("Add", "Sub"):
            if b == const(0):
                r = a
            elif b[0] == "c" and a[0] == "bin" and a[1] == "Add" and a[3][0] == "c":
                n = a[3][1] + (b[1] if op == "Add" else -b[1])
                r = a[2] if n == 0 else ("bin", "Add", a[2], const(n))
            elif b[0] == "c" and op == "Sub":
                r = ("bin", "Add", a, const(-b[1]))
            elif a[0] == "c" and op == "Add":
                r = ("bin", "Add", b, a)
        if r is None:
            if op in ("Eq", "Ne") and a == b and a[0] not in ("s",):
                r = const(op == "Eq")
            else:
                r = ("bin", op, a, b)
        if wo:
            return ("tup", (r, FALSE))
        return r

    def disc(self, v, adt):
        v = self.vkey(v)
        if v[0] == "adt":
            ds = self.variants(v[1])
            if v[2] in ds:
                return const(ds[v[2]])
        return ("disc", v, adt)

    def vkey(self, v):
        """term whose variant decides the variant of v"""
        while True:
            if v[0] == "ov":
                v = v[1]
            elif v[0] == "rec" and keeps_shape(v[1]):
                v = v[2]
            else:
                return v

    def length(self, st, v):
        t = v[0]
        if t == "seq":
            return const(len(v[1]))
        if t in ("push",):
            return self.binop("Add", self.length(st, v[1]), const(1))
        if t == "insert":
            return self.binop("Add", self.length(st, v[1]), const(1))
        if t in ("ov", "mapseq"):
            return self.length(st, v[1])
        if t == "rec":
            return self.length(st, v[2])
        if t == "c" and isinstance(v[1], str):
            return const(len(v[1].encode()))
        if t == "p" and v[2] == "@init":
            return self.binop("Sub", self.length(st, v[1]), const(1))
        if t == "p" and isinstance(v[2], tuple) and v[2][0] == "ss" and v[2][3]:
            return self.binop("Sub", self.length(st, v[1]), const(v[2][1] + v[2][2]))
        return ("len", v)

    # ---------------------------------------------------------- branching
    def force_bool(self, st, v):
        """-> list of (bool, state)"""
        if v[0] == "c":
            return [(bool(v[1]), st)]
        if v[0] == "not":
            return [(not x, s) for x, s in self.force_bool(st, v[1])]
        if v[0] == "bin" and v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            op, a, b = v[1], v[2], v[3]
            (ab, ak), (bb, bk) = offset(a), offset(b)
            if ab[0] != "c" and ab == bb and ab[0] == "len":
                return self.force_bool(st, self.binop(op, const(ak), const(bk)))
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if b[0] == "c" and isinstance(b[1], int) and not isinstance(b[1], bool):
                if a[0] == "disc":
                    names = [n for n, d in self.variants(a[2]).items() if d == b[1]]
                    full = frozenset(self.variants(a[2]))
                    pos = frozenset(names)
                    r = self.fork_dom(st, ("var", a[1]), full, [(True, pos), (False, full - pos)])
                    return [((x if op == "Eq" else not x), s) for x, s in r]
                c = b[1]
                while a[0] == "bin" and a[1] == "Add" and a[3][0] == "c":
                    c -= a[3][1]
                    a = a[2]
                if a[0] == "cast":
                    a = a[2]
                if a[0] == "c":
                    return self.force_bool(st, self.binop(op, a, const(c)))
                if a[0] != "bin":
                    f = {"Eq": "=", "Ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op]
                    return [(x in f, s) for x, s in self.fork_int(st, a, c)]
            if a[0] == "disc" and b[0] == "disc" and a[2] == b[2]:
                out = []
                full = frozenset(self.variants(a[2]))
                for n, s in self.fork_dom(st, ("var", a[1]), full, [(n, frozenset([n])) for n in sorted(full)]):
                    for m, s2 in self.fork_dom(s, ("var", b[1]), full, [(True, frozenset([n])), (False, full - {n})]):
                        out.append(((m if op == "Eq" else not m), s2))
                return out
            if b[0] == "c" and isinstance(b[1], bool):
                r = self.force_bool(st, a)
                return [((x == b[1]) if op == "Eq" else (x != b[1]), s) for x, s in r]
        if v[0] == "bin" and v[1] in ("BitOr", "BitAnd", "BitXor"):
            out = []
            for x, s in self.force_bool(st, v[2]):
                if v[1] == ("BitOr" if x else "BitAnd"):
                    out.append((x, s))
                else:
                    out += [(y != x if v[1] == "BitXor" else y, s2) for y, s2 in self.force_bool(s, v[3])]
            return out
        if v[0] == "streq":
            return self.fork_str(st, v[1], v[2])
        if v[0] == "dom":
            # ("dom", key, full, positive)
            return self.fork_dom(st, v[1], v[2], [(True, frozenset(v[3])), (False, frozenset(v[2]) - frozenset(v[3]))])
        return self.fork_bool(st, ("b", v))

    def fork_variant(self, st, v, adt):
        """-> list of (variant name, state)"""
        v = self.vkey(v)
        if v[0] == "adt":
            return [(v[2], st)]
        full = frozenset(self.variants(adt))
        k = ("var", v)
        return self.fork_dom(st, k, full, [(n, frozenset([n])) for n in sorted(full)])

    def switch(self, st, v, targets, other):
        """-> list of (bb, state)"""
        if v[0] == "c":
            x = v[1]
            x = int(x) if isinstance(x, bool) else x
            if isinstance(x, str):
                x = ord(x)
            for val, bb in targets:
                if val == x:
                    return [(bb, st)]
            return [(other, st)]
        if v[0] == "disc":
            ds = self.variants(v[2])
            inv = {d: n for n, d in ds.items()}
            full = frozenset(ds)
            parts, used = [], set()
            for val, bb in targets:
                n = inv.get(val)
                if n is None:
                    continue
                used.add(n)
                parts.append((bb, frozenset([n])))
            rest = full - used
            if rest:
                parts.append((other, rest))
            return self.fork_dom(st, ("var", v[1]), full, self.merge_parts(parts))
        if len(targets) == 1 and targets[0][0] == 0 and self.boolish(v):
            return [((other if x else targets[0][1]), s) for x, s in self.force_bool(st, v)]
        # integers
        out = []
        cur = [st]
        for val, bb in targets:
            nxt = []
            for s in cur:
                for x, s2 in self.force_bool(s, self.binop("Eq", v, const(val))):
                    if x:
                        out.append((bb, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(other, s) for s in cur]

    def merge_parts(self, parts):
        d = {}
        for bb, s in parts:
            d[bb] = d.get(bb, frozenset()) | s
        return list(d.items())

    def boolish(self, v):
        if v[0] in ("not", "streq", "dom", "b"):
            return True
        if v[0] == "bin":
            return v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr")
        return True

    # ---------------------------------------------------------- execution
    def exec_fn(self, fid, args, st):
        f = self.fns[fid]
        if "body" not in f or f["body"] is None:
            raise Stop("no body for %s" % f["p"])
        if not self.stack:
            self.steps = 0
        if f["local"]:
            self.visited_fns.add(f["p"])
        if len(self.stack) > 120:
            raise Limit("call stack too deep in %s" % f["p"])
        self.stack.append(fid)
        try:
            return self.exec_body(fid, f["body"], args, st)
        finally:
            self.stack.pop()

    def exec_body(self, fid, body, args, st, promoted=False):
        self.frame += 1
        fr = self.frame
        n = body["args"]
        if len(args) != n:
            if not promoted:
                raise Stop("argument count of %s: %d vs %d" % (self.fns[fid]["p"], len(args), n))
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        nl = len(body["locals"])
        bbs = body["bb"]
        work = [(0, st, ())]
        out = []
        while work:
            bb, s, seen = work.pop()
            # loop control
            cnt = 0
            last = -1
            for (b, c, l) in seen:
                if b == bb:
                    cnt, last = c, l
            if cnt:
                sym = len(s.pc) > last
                if sym:
                    cnt += 1
                    if cnt > 4:
                        s.cut = True
                        self.cutnotes[(self.fns[fid]["p"], bb)] = True
                        s.event("CUT", self.fns[fid]["p"])
                        continue
                elif len(seen) > 3000:
                    raise Stop("unbounded loop in %s" % self.fns[fid]["p"])
            if bbs[bb].get("lh") or self.is_join(body, bb):
                seen = tuple(x for x in seen if x[0] != bb) + ((bb, max(cnt, 1), len(s.pc)),)
            self.steps += 1
            if self.deadline and (self.expired or self.steps % 256 == 0 and time.time() > self.deadline):
                # the remaining paths stay undecided
                self.expired = True
                self.stops[(self.fns[fid]["p"], "time budget used up")] = self.stops.get((self.fns[fid]["p"], "time budget used up"), 0) + 1
                break
            if self.steps > self.step_limit:
                raise Limit("step limit in %s" % self.fns[fid]["p"])
            self.bb_cov.add((fid, bb))
            if not self.tolerant:
                self.block(fid, body, fr, nl, bb, s, seen, work, out, promoted)
                continue
            w0, o0 = len(work), len(out)
            try:
                self.block(fid, body, fr, nl, bb, s, seen, work, out, promoted)
            except Limit:
                raise
            except (Stop, KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError, RecursionError, NotImplementedError) as e:
                # this path is undecided; the others are still explored
                del work[w0:], out[o0:]
                why = str(e) if isinstance(e, Stop) else "%s: %s" % (type(e).__name__, str(e)[:100])
                self.stops[(self.fns[fid]["p"], why)] = self.stops.get((self.fns[fid]["p"], why), 0) + 1
        return out

    def block(self, fid, body, fr, nl, bb, s, seen, work, out, promoted):
        blk = body["bb"][bb]
        for x in blk["s"]:
            if x[0] == "=":
                v = self.rvalue(s, fr, fid, x[2])
                r, p = self.place(s, fr, x[1])
                self.store(s, r, p, v)
            elif x[0] == "sd":
                raise Stop("set_discriminant in %s" % self.fns[fid]["p"])
        t = blk["t"]
        k = t[0]
        if k == "goto":
            work.append((t[1], s, seen))
        elif k == "sw":
            v = self.operand(s, fr, fid, t[1])
            for nb, s2 in self.switch(s, v, t[2], t[3]):
                work.append((nb, s2, seen))
        elif k == "ret":
            v = s.mem.get(("L", fr, 0), UNIT)
            if not promoted:
                for i in range(nl):
                    s.mem.pop(("L", fr, i), None)
            out.append((v, s))
        elif k == "call":
            muts = [self.is_mut_operand(body, a) for a in t[2]]
            fv = self.operand(s, fr, fid, t[1])
            av = [self.operand(s, fr, fid, a) for a in t[2]]
            self.cur_mut = muts
            if t[4] is None:
                self.panic(s, fid, blk["ln"], fv, av)
                return
            for rv, s2 in self.call(s, fv, av, fid, blk["ln"]):
                r, p = self.place(s2, fr, t[3])
                self.store(s2, r, p, rv)
                work.append((t[4], s2, seen))
        elif k == "drop":
            r, p = self.place_quiet(s, fr, t[1])
            if r is None:
                work.append((t[2], s, seen))
            else:
                for s2 in self.drop(s, r, p, t[3], t[4] if len(t) > 4 else None, fid, blk["ln"]):
                    work.append((t[2], s2, seen))
        elif k == "assert":
            v = self.operand(s, fr, fid, t[1])
            for x, s2 in self.force_bool(s, v):
                if x == t[2]:
                    work.append((t[4], s2, seen))
                else:
                    self.panic(s2, fid, blk["ln"], ("assert", t[3]), [])
        elif k == "unreach":
            pass
        else:
            raise Stop("terminator %s" % k)

    def is_join(self, body, bb):
        j = body.get("_joins")
        if j is None:
            # targets of back edges, by DFS
            succ = {}
            for i, b in enumerate(body["bb"]):
                t = b["t"]
                if t[0] == "goto":
                    succ[i] = [t[1]]
                elif t[0] == "sw":
                    succ[i] = [x[1] for x in t[2]] + [t[3]]
                elif t[0] == "call":
                    succ[i] = [t[4]] if t[4] is not None else []
                elif t[0] == "drop":
                    succ[i] = [t[2]]
                elif t[0] == "assert":
                    succ[i] = [t[4]]
                else:
                    succ[i] = []
            j, state = set(), {}
            st = [(0, iter(succ[0]))]
            state[0] = 1
            while st:
                n, it = st[-1]
                for m in it:
                    if state.get(m) == 1:
                        j.add(m)
                    elif m not in state:
                        state[m] = 1
                        st.append((m, iter(succ[m])))
                        break
                else:
                    state[n] = 2
                    st.pop()
            body["_joins"] = j
        return bb in j

    def is_mut_operand(self, body, a):
        p = a.get("m") or a.get("c")
        if p and len(p) == 1:
            t = self.types[body["locals"][p[0]]]
            return t["k"] in ("ref", "ptr") and t["m"]
        return False

    def place_quiet(self, st, fr, p):
        try:
            r, q = self.place(st, fr, p)
            if r not in st.mem and r[0] == "L":
                return None, None
            return r, q
        except (Stop, KeyError, TypeError, IndexError):
            return None, None

    def panic(self, st, fid, ln, fv, av):
        what = fv
        msg = None
        if fv[0] == "fn":
            what = fv[1].f["p"]
            for a in av:
                a = self.deep(st, a) if a[0] == "ref" else a
                msg = a
                break
        self.panics.append({"st": st, "fn": self.fns[fid]["p"], "line": ln, "what": what, "msg": msg,
                            "stack": [self.fns[x]["p"] for x in self.stack]})

    def drop(self, st, r, p, ty, glue, fid, ln):
        try:
            v = self.load(st, r, p)
        except Stop:
            return [st]
        if v == MOVED:
            return [st]
        h = self.hooks.get("drop")
        if h:
            res = h(self, st, r, p, v, ty, glue, fid, ln)
            if res is not None:
                return res
        g = [x for x in st.guards if x[2] == v]
        if v[0] == "guard":
            st.guards = tuple(x for x in st.guards if x[0] != v[3])
        if r[0] == "L":
            pass
        return [st]

    # --------------------------------------------------------------- calls
    def call_value(self, st, fv, args, fid=None, ln=0):
        """call a closure / fn item value"""
        if fv[0] == "ref":
            fv2 = self.load(st, fv[1], fv[2])
            if fv2[0] in ("clo", "fn", "ref"):
                if fv2[0] == "clo":
                    return self.call_closure(st, fv2, args, place=(fv[1], fv[2]))
                return self.call_value(st, fv2, args, fid, ln)
        if fv[0] == "clo":
            return self.call_closure(st, fv, args)
        if fv[0] == "fn":
            return self.call(st, fv, list(args), fid, ln)
        st.event("OPAQUECALL", fv, tuple(args))
        return [(("call", "?", (fv,) + tuple(args)), st)]

    def call_closure(self, st, clo, args, place=None):
        f = self.fns[clo[1]]
        selfty = self.ty(f["body"]["locals"][1])
        if selfty["k"] == "ref":
            if place is None:
                self.frame += 1
                root = ("L", self.frame, "clo")
                st.mem[root] = clo
                place = (root, ())
            s = ("ref", place[0], place[1])
        else:
            s = clo
        n = f["body"]["args"]
        return self.exec_fn(clo[1], [s] + list(args), st)

    def call(self, st, fv, args, fid, ln):
        if fv[0] != "fn":
            return self.call_value(st, fv, args, fid, ln)
        F = fv[1].f
        self.calls += 1
        if "ctor" in F:
            adt, var = F["ctor"]
            return [(("adt", adt, var, tuple((str(i), a) for i, a in enumerate(args))), st)]
        tr = F.get("tr")
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and F["n"] in ("call_once", "call_mut", "call"):
            tup = args[1]
            al = list(tup[1]) if tup[0] == "tup" else None
            if al is None:
                raise Stop("closure call with unknown tuple")
            return self.call_value(st, args[0], al, fid, ln)
        # hooks (roles verified on their own)
        for h in self.hooks.get("call", ()):
            r = h(self, st, F, args, fid, ln)
            if r is not None:
                return r
        if "l" in F:
            return self.call_local(st, F, F["l"], args, fid, ln)
        r = self.models.model(self, st, F, args, fid, ln)
        if r is not None:
            return r
        if "x" in F:
            return self.exec_fn(F["x"], args, st)
        return self.opaque(st, F, args)

    def call_local(self, st, F, target, args, fid, ln):
        if target in self.stack and self.stack.count(target) <= self.unroll:
            return self.exec_fn(target, args, st)
        if target in self.stack and self.unroll:
            st.cut = True
            self.cutnotes[(self.fns[target]["p"], "recursion")] = True
            return []
        if target in self.stack:
            st.event("REC", self.fns[target]["p"], tuple(self.snap(st, a) for a in args))
            for a in args:
                self.havoc(st, a)
            return [(("recres", self.fns[target]["p"], tuple(self.snap(st, a) for a in args)), st)]
        return self.exec_fn(target, args, st)

    def snap(self, st, a):
        return self.deep(st, a) if a[0] == "ref" else a

    def havoc(self, st, a):
        if a[0] == "ref" and a[1][0] != "K":
            v = self.load(st, a[1], a[2])
            self.store(st, a[1], a[2], ("h", st.fresh(), v))

    def opaque(self, st, F, args):
        muts = self.cur_mut
        key = (F.get("tr", ""), F["p"], F.get("r", ""))
        self.unknown[key] = self.unknown.get(key, 0) + 1
        if self.strict_calls:                    # the whole run is undecided anyway
            raise Limit("unmodelled call: %s" % F["p"])
        av = tuple(self.snap(st, a) for a in args)
        st.event("EXT", F["p"], av)
        # a `&mut` argument may be written through
        for i, a in enumerate(args):
            if a[0] == "ref" and i < len(muts) and muts[i]:
                self.havoc(st, a)
        return [(("call", F["p"], av), st)]


class FnVal:
    """callee description, compared by what it names"""
    __slots__ = ("f", "key")

    def __init__(self, f):
        self.f = f
        self.key = (f["p"], f.get("l", -1), tuple(f.get("a", ())))

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "fn " + self.f["p"]
