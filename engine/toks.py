"""Token sequences: normal form, and a small parser for the Rust items that
derive templates expand to.  Elements: ('i',name) ('o',punct) ('g',delim,els)
('lit',text) ('v',symbol)."""


class BadTokens(Exception):
    pass


SPLIT = {">>": (">", ">"), "<<": ("<", "<"), "&&": ("&", "&"), ">>=": (">", ">", "="), "&=": ("&", "="), ">=": (">", "=")}


def norm(els):
    out = []
    for e in els:
        if e[0] == "o" and e[1] in SPLIT:
            out += [("o", x) for x in SPLIT[e[1]]]
        elif e[0] == "g":
            if e[1] == "":
                out += norm(e[2])
            else:
                out.append(("g", e[1], norm(e[2])))
        else:
            out.append(e)
    return tuple(out)


def show(els):
    o = []
    for e in els:
        if e[0] == "g":
            c = {"(": ")", "{": "}", "[": "]", "": ""}[e[1]]
            o.append(e[1] + show(e[2]) + c)
        elif e[0] == "v":
            o.append("$%s" % (e[1] if isinstance(e[1], str) else e[1][0]))
        else:
            o.append(e[1])
    return " ".join(o)


def lex(text):
    """tokens of a piece of Rust text ($x is a symbol)"""
    import re
    pat = re.compile(r"\s*(\$\w+|'\w+|\"[^\"]*\"|[A-Za-z_]\w*|\d+|->|=>|::|\.\.|[-+*/%^!&|=<>@.,;:#?~(){}\[\]])")
    pos, stack, cur = 0, [], []
    text = text.strip()
    while pos < len(text):
        m = pat.match(text, pos)
        if not m:
            if not text[pos:].strip():
                break
            raise BadTokens(text[pos:pos + 20])
        t = m.group(1)
        pos = m.end()
        if t in "({[":
            stack.append((t, cur))
            cur = []
        elif t in ")}]":
            d, prev = stack.pop()
            prev.append(("g", d, tuple(cur)))
            cur = prev
        elif t[0] == "$":
            cur.append(("v", t[1:]))
        elif t[0] == '"' or t[0].isdigit():
            cur.append(("lit", t))
        elif t[0] == "'" or t[0].isalpha() or t[0] == "_":
            cur.append(("i", t))
        else:
            cur.append(("o", t))
    return norm(cur)


class P:
    def __init__(self, els):
        self.t = list(els)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        e = self.peek()
        if e is None:
            raise BadTokens("unexpected end")
        self.i += 1
        return e

    def eof(self):
        return self.i >= len(self.t)

    def isid(self, *names):
        e = self.peek()
        return e is not None and e[0] == "i" and e[1] in names

    def iso(self, *p):
        e = self.peek()
        return e is not None and e[0] == "o" and e[1] in p

    def eat(self, kind, val):
        e = self.peek()
        if e is not None and e[0] == kind and e[1] == val:
            self.i += 1
            return True
        return False

    def expect(self, kind, val):
        if not self.eat(kind, val):
            raise BadTokens("expected %s, found %s" % (val, show([self.peek()]) if self.peek() else "end"))

    def until(self, stop):
        """tokens up to a top-level (angle depth 0) element satisfying stop"""
        out, depth = [], 0
        while not self.eof():
            e = self.peek()
            if depth == 0 and stop(e):
                break
            if e == ("o", "<"):
                depth += 1
            elif e == ("o", ">"):
                depth -= 1
            out.append(e)
            self.i += 1
        return tuple(out)

    def attrs(self):
        out = []
        while self.iso("#"):
            self.next()
            self.eat("o", "!")
            g = self.next()
            out.append(g[2])
        return out


def split(els, sep=","):
    p = P(els)
    out = []
    while not p.eof():
        out.append(p.until(lambda e: e == ("o", sep)))
        p.eat("o", sep)
    return out


def generics(p):
    """optional `<...>` -> list of parameters (token tuples)"""
    if not p.iso("<"):
        return []
    p.next()
    inner = p.until(lambda e: e == ("o", ">"))
    p.expect("o", ">")
    return split(inner)


def where(p, stops):
    if not p.isid("where"):
        return []
    p.next()
    return split(p.until(stops))


def group(e, d):
    return e is not None and e[0] == "g" and e[1] == d


def parse_fn(p):
    """after attributes and visibility"""
    f = {"quals": [], "kind": "fn"}
    while not p.isid("fn"):
        e = p.next()
        if e[0] not in ("i", "lit"):
            raise BadTokens("function qualifier %s" % show([e]))
        f["quals"].append(e[1])
    p.next()
    f["name"] = p.next()[1]
    f["generics"] = generics(p)
    g = p.next()
    if not group(g, "("):
        raise BadTokens("parameters of %s" % f["name"])
    f["params"] = split(g[2])
    f["ret"] = ()
    if p.eat("o", "->"):
        f["ret"] = p.until(lambda e: e == ("o", ";") or e == ("i", "where") or group(e, "{"))
    f["where"] = where(p, lambda e: e == ("o", ";") or group(e, "{"))
    e = p.next()
    if e == ("o", ";"):
        f["body"] = None
    elif group(e, "{"):
        f["body"] = e[2]
    else:
        raise BadTokens("body of %s" % f["name"])
    return f


def parse_members(els):
    p = P(els)
    out = []
    while not p.eof():
        at = p.attrs()
        while p.isid("pub", "default"):
            p.next()
        if p.isid("type"):
            p.next()
            m = {"kind": "type", "name": p.next()[1], "attrs": at, "generics": generics(p), "ty": None, "bounds": ()}
            if p.eat("o", ":"):
                m["bounds"] = p.until(lambda e: e in (("o", ";"), ("o", "=")))
            if p.eat("o", "="):
                m["ty"] = p.until(lambda e: e == ("o", ";"))
            p.expect("o", ";")
        elif p.isid("const") and p.peek(1) and p.peek(1)[0] == "i" and p.peek(1)[1] not in ("fn", "unsafe", "extern"):
            m = {"kind": "const", "attrs": at, "name": p.peek(1)[1], "toks": p.until(lambda e: e == ("o", ";"))}
            p.expect("o", ";")
        elif p.isid("fn", "unsafe", "extern", "async", "const"):
            m = parse_fn(p)
            m["attrs"] = at
        else:
            raise BadTokens("member starting with %s" % (show([p.peek()]) if p.peek() else "end"))
        out.append(m)
    return out


def parse_trait(els):
    p = P(norm(els))
    t = {"attrs": p.attrs(), "unsafe": False}
    while p.isid("pub", "unsafe", "auto"):
        if p.next()[1] == "unsafe":
            t["unsafe"] = True
    p.expect("i", "trait")
    t["name"] = p.next()[1]
    t["generics"] = generics(p)
    t["supers"] = []
    if p.eat("o", ":"):
        t["supers"] = split(p.until(lambda e: e == ("i", "where") or group(e, "{")), "+")
    t["where"] = where(p, lambda e: group(e, "{"))
    g = p.next()
    t["items"] = parse_members(g[2])
    return t


def parse_items(els):
    """top-level items"""
    p = P(norm(els))
    out = []
    while not p.eof():
        start = p.i
        at = p.attrs()
        while p.isid("pub"):
            p.next()
        un = False
        while p.isid("unsafe", "default") and p.peek(1) in (("i", "impl"), ("i", "trait")):
            un |= p.next()[1] == "unsafe"
        if p.eat("i", "impl"):
            it = {"kind": "impl", "unsafe": un, "attrs": at}
            it["generics"] = impl_generics(p)
            first = p.until(lambda e: e in (("i", "for"), ("i", "where")) or group(e, "{") or e == ("v", "WHERE"))
            if p.eat("i", "for"):
                it["trait"] = first
                it["self"] = p.until(lambda e: e == ("i", "where") or group(e, "{") or e == ("v", "WHERE"))
            else:
                it["trait"] = None
                it["self"] = first
            it["where"] = []
            if p.eat("v", "WHERE"):
                it["where"] = [(("v", "EW"),)]
            it["where"] += where(p, lambda e: group(e, "{"))
            g = p.next()
            if not group(g, "{"):
                raise BadTokens("impl body")
            it["items"] = parse_members(g[2])
            out.append(it)
        elif p.isid("trait"):
            p.i = start
            at2 = p.attrs()
            body = p.until(lambda e: group(e, "{"))
            body += (p.next(),)
            t = parse_trait(body)
            t["kind"] = "trait"
            t["attrs"] = at2
            out.append(t)
        elif p.isid("const", "static") and not (p.peek(1) == ("i", "fn")):
            k = p.next()[1]
            name = p.next()[1]
            p.expect("o", ":")
            ty = p.until(lambda e: e == ("o", "="))
            p.expect("o", "=")
            val = p.until(lambda e: e == ("o", ";"))
            p.expect("o", ";")
            out.append({"kind": k, "name": name, "ty": ty, "value": val, "attrs": at})
        elif p.isid("enum", "struct"):
            k = p.next()[1]
            name = p.next()
            g = generics(p)
            p.until(lambda e: group(e, "{") or group(e, "(") or e == ("o", ";"))
            out.append({"kind": k, "name": name[1], "generics": g, "body": p.next(), "attrs": at})
        elif p.peek() and p.peek()[0] == "v":
            e = p.next()
            out.append({"kind": "value", "value": e[1], "attrs": at})
        elif p.isid("fn", "unsafe", "use", "mod", "type", "macro_rules", "extern"):
            k = p.peek()[1]
            toks = p.until(lambda e: e == ("o", ";") or group(e, "{"))
            toks += (p.next(),)
            out.append({"kind": k, "toks": toks, "attrs": at})
        else:
            raise BadTokens("item starting with %s" % (show([p.peek()]) if p.peek() else "end"))
    return out


def impl_generics(p):
    if p.eat("v", "IMPLG"):
        return [(("v", "EG"),)]
    return generics(p)


def flat_idents(els):
    for e in els:
        if e[0] == "g":
            yield from flat_idents(e[2])
        else:
            yield e


def subst(els, m):
    out = []
    for e in els:
        if e[0] == "g":
            out.append(("g", e[1], subst(e[2], m)))
        else:
            out.append(m.get(e, e))
    return tuple(out)


def drop_empty_trailing(els):
    while els and els[-1] == ("o", ","):
        els = els[:-1]
    return els
