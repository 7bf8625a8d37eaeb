"""Keeps the analyses independent of private names.

shape.json records, for the tree the analyses were written against, what the
crate's private types, traits, functions and fields look like (signature and
what the body uses).  When a name is gone from the dumped program and an
unknown one looks the same, the dump is rewritten to the recorded name; what
stays missing is listed in d["missing"] and the analyses that need it report
UNDECIDED."""
import collections
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "shape.json")


def last(p):
    return re.sub(r"<.*?>$", "", p).split("::")[-1]


def tail(s):
    """type text without module paths and lifetimes"""
    s = re.sub(r"'\w+ ?", "", s)
    s = re.sub(r"(?:\w+::)+(\w)", r"\1", s)
    return s


def local_types(d):
    return {k: v for k, v in d["adts"].items() if v.get("local")}


def body_features(f, c):
    b = f.get("body")
    if not b:
        return

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "f" and isinstance(x[1], str):
                c["f:" + x[1]] += 1
            elif len(x) == 3 and x[0] == "d" and isinstance(x[1], str):
                c["d:" + x[1]] += 1
            elif x and x[0] == "adt" and len(x) > 2:
                c["a:%s" % x[2]] += 1
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("k") == "fn" and isinstance(x.get("f"), dict):
                c["c:" + str(x["f"].get("n"))] += 1
            if x.get("k") == "const" and isinstance(x.get("v"), dict) and "s" in x["v"]:
                c["s:" + str(x["v"]["s"])[:40]] += 1
            for y in x.values():
                walk(y)
    walk(b)


def fns_of(d):
    """path -> description of a local function (not a closure)"""
    T = d["types"]
    out = {}
    for f in d["fns"]:
        if not f["local"] or "{closure" in f["p"] or f.get("impl_trait") or f["p"].startswith("derive::") or not f.get("n"):
            continue
        if f["p"] in out:
            continue
        b = f.get("body") or {}
        loc = b.get("locals", [])
        n = b.get("args", 0)
        sig = [tail(T[t]["s"]) if isinstance(t, int) and 0 <= t < len(T) else "?" for t in loc[:n + 1]]
        if f.get("a"):                                # generic: the instance's types say nothing
            sig = [re.sub(r"\b(Expr|Stmt|Arm|Local|Block|ItemFn)\b", "_", s) for s in sig]
        c = collections.Counter()
        body_features(f, c)
        out[f["p"]] = {"n": f["n"], "self": last(f.get("impl_self") or f.get("trait_default") or ""), "sig": sig, "feat": c}
    for f in d["fns"]:
        if f["local"] and "{closure" in f["p"]:
            o = out.get(f["p"].split("::{closure")[0])
            if o is not None and not o.get("done%s" % f["p"]):
                o["done%s" % f["p"]] = 1
                body_features(f, o["feat"])
    return {k: {x: y for x, y in v.items() if not x.startswith("done")} for k, v in out.items()}


def adts_of(d):
    T = d["types"]
    ts = lambda t: tail(T[t]["s"]) if isinstance(t, int) and 0 <= t < len(T) else "?"
    use = field_use(d)
    return {k: {"kind": v["kind"], "vs": [[x["n"], [[f[0], ts(f[1])] for f in x["f"]]] for x in v["vs"]],
                "use": {n: dict(c) for (a, n), c in use.items() if a == k}} for k, v in local_types(d).items()}


def field_use(d):
    """which functions use a field"""
    out = collections.defaultdict(collections.Counter)
    for f in d["fns"]:
        if not f["local"]:
            continue
        who = last(f["p"].split("::{closure")[0])

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "f":
                    out[(x[2], x[1])][who] += 1
                if len(x) == 4 and x[0] == "adt" and isinstance(x[3], list):
                    for n in x[3]:
                        out[(x[1], n)]["=" + who] += 1
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        walk(f.get("body"))
    return out


def traits_of(d):
    out = {}
    for i in d["impls"]:
        t = i["trait"]
        if t.split("::")[0] in ("auto_enum", "utils", "enum_derive", "derive"):
            out.setdefault(t, set()).update(i["items"])
    return {k: sorted(v) for k, v in out.items()}


def describe(d):
    return {"fns": {k: dict(v, feat=dict(v["feat"])) for k, v in fns_of(d).items()}, "adts": adts_of(d), "traits": traits_of(d)}


# ------------------------------------------------------------------- similarity
def jac(a, b):
    if not a and not b:
        return 1.0
    ks = set(a) | set(b)
    return sum(min(a.get(k, 0), b.get(k, 0)) for k in ks) / max(1, sum(max(a.get(k, 0), b.get(k, 0)) for k in ks))


def sim_fn(b, c):
    sig = 1.0 if b["sig"] == c["sig"] else 0.5 * (len(b["sig"]) == len(c["sig"])) * (
        sum(x == y for x, y in zip(b["sig"], c["sig"])) / max(1, len(b["sig"])))
    own = 1.0 if b["self"] == c["self"] else 0.0
    return 0.25 * sig + 0.15 * own + 0.6 * jac(b["feat"], c["feat"])


def sim_adt(b, c):
    if b["kind"] != c["kind"] or len(b["vs"]) != len(c["vs"]):
        return 0.0
    f = lambda x: collections.Counter("t:" + y[1] for v in x["vs"] for y in v[1])
    g = lambda x: collections.Counter(y[0] for v in x["vs"] for y in v[1]) + collections.Counter("v:" + v[0] for v in x["vs"] if x["kind"] == "enum")
    u = lambda x: collections.Counter(k for n in x["use"].values() for k in n)
    return 0.3 * jac(f(b), f(c)) + 0.4 * jac(g(b), g(c)) + 0.3 * jac(u(b), u(c))


def pairs(miss, extra, sim, least):
    """mutually best pairs above a threshold"""
    s = {(m, x): sim(miss[m], extra[x]) for m in miss for x in extra}
    out = []
    for (m, x), v in s.items():
        if v >= least and all(v > w for (m2, x2), w in s.items() if (m2 == m) != (x2 == x)):
            out.append((v, m, x))
    return sorted(out, reverse=True)


# ------------------------------------------------------------------------ renames
def replace_path(d, old, new):
    """rewrite a path (and everything below it) in the dump"""
    rx = re.compile(r"(?<![\w:])" + re.escape(old) + r"(?!\w)")
    short_old, short_new = last(old), last(new)
    short_rx = re.compile(r"(?<![\w:])" + re.escape(short_old) + r"(?!\w)") if short_old != short_new else None

    def walk(x):
        if isinstance(x, str):
            return rx.sub(new, x) if old in x else x
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            hit = x.get("p") == old or x.get("r") == old
            y = {walk(k) if isinstance(k, str) and old in k else k: walk(v) for k, v in x.items()}
            if hit and y.get("n") == short_old:
                y["n"] = short_new
            return y
        return x
    return walk(d)


def rename_trait_method(d, trait, old, new):
    """an impl's `<T as Trait>::old`"""
    rx = re.compile(re.escape("%s>::%s" % (trait, old)) + r"(?!\w)")
    rep = "%s>::%s" % (trait, new)

    def walk(x):
        if isinstance(x, str):
            return rx.sub(rep, x)
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            y = {k: walk(v) for k, v in x.items()}
            if (x.get("impl_trait") == trait or x.get("tr") == trait) and x.get("n") == old:
                y["n"] = new
            return y
        return x
    return walk(d)


def rename_members(d, adt, fields, variants):
    """fields and variants of a local type"""
    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "f" and x[2] == adt:
                return [x[0], fields.get(x[1], x[1]), x[2]]
            if len(x) == 3 and x[0] == "d" and x[2] == adt:
                return [x[0], variants.get(x[1], x[1]), x[2]]
            if len(x) == 4 and x[0] == "adt" and x[1] == adt and isinstance(x[3], list):
                return [x[0], x[1], variants.get(x[2], x[2]), [fields.get(n, n) for n in x[3]]]
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        return x
    d["fns"] = walk(d["fns"])
    for v in d["adts"][adt]["vs"]:
        v["n"] = variants.get(v["n"], v["n"])
        for f in v["f"]:
            f[0] = fields.get(f[0], f[0])


def align_members(d, base, done):
    for p, b in base["adts"].items():
        cur = d["adts"].get(p)
        if cur is None or len(cur["vs"]) != len(b["vs"]):
            continue
        now = adts_of(d)[p]
        fields, variants = {}, {}
        if b["kind"] == "enum":
            bn, cn = [v[0] for v in b["vs"]], [v[0] for v in now["vs"]]
            miss, extra = [x for x in bn if x not in cn], [x for x in cn if x not in bn]
            for m in miss:
                i = bn.index(m)
                c = [x for x in extra if [f[1] for f in now["vs"][cn.index(x)][1]] == [f[1] for f in b["vs"][i][1]]]
                if len(c) > 1 and cn[i] in c:
                    c = [cn[i]]
                if len(c) == 1:
                    variants[c[0]] = m
                    extra.remove(c[0])
        else:
            bf, cf = b["vs"][0][1], now["vs"][0][1]
            miss = [f for f in bf if f[0] not in [x[0] for x in cf]]
            extra = [f for f in cf if f[0] not in [x[0] for x in bf]]
            s = {}
            for m in miss:
                for x in extra:
                    if m[1] == x[1] or "?" in (m[1], x[1]):
                        s[(m[0], x[0])] = jac(b["use"].get(m[0], {}), now["use"].get(x[0], {})) + \
                            (0.2 if [f[0] for f in bf].index(m[0]) == [f[0] for f in cf].index(x[0]) else 0)
            for (m, x), v in sorted(s.items(), key=lambda y: -y[1]):
                if v >= 0.3 and m not in fields.values() and x not in fields:
                    fields[x] = m
        if b["kind"] == "struct" and now["vs"][0][0] != b["vs"][0][0]:
            variants[now["vs"][0][0]] = b["vs"][0][0]
        if fields or variants:
            rename_members(d, p, fields, variants)
            done += ["%s.%s=%s" % (p, x, m) for x, m in list(fields.items()) + list(variants.items())]


def align(d, base=None):
    """rewrite renamed private names to the recorded ones -> (dump, renames)"""
    base = base or json.load(open(FILE))
    done = []
    for _ in range(40):
        n = len(done)
        cur_a, cur_t = adts_of(d), traits_of(d)
        miss = {k: v for k, v in base["adts"].items() if k not in cur_a}
        extra = {k: v for k, v in cur_a.items() if k not in base["adts"]}
        # moved, or nested in a renamed function: same last segment
        for m in miss:
            c = [x for x in extra if last(x) == last(m)]
            if len(c) == 1:
                d = replace_path(d, c[0], m)
                done.append("%s=%s" % (c[0], m))
                break
        if len(done) > n:
            continue
        ps = pairs(miss, extra, sim_adt, 0.45)
        if ps:
            _, m, x = ps[0]
            d = replace_path(d, x, m)
            done.append("%s=%s" % (x, m))
            continue
        mt = [t for t in base["traits"] if t not in cur_t]
        xt = [t for t in cur_t if t not in base["traits"]]
        for m in mt:
            c = [x for x in xt if cur_t[x] == base["traits"][m]]
            if len(c) == 1:
                d = replace_path(d, c[0], m)
                done.append("%s=%s" % (c[0], m))
                break
        if len(done) > n:
            continue
        for t in base["traits"]:
            if t in cur_t and len(cur_t[t]) == len(base["traits"][t]):
                m, x = set(base["traits"][t]) - set(cur_t[t]), set(cur_t[t]) - set(base["traits"][t])
                if len(m) == len(x) == 1:
                    m, x = m.pop(), x.pop()
                    d = rename_trait_method(d, t, x, m)
                    d = replace_path(d, t + "::" + x, t + "::" + m)
                    for i in d["impls"]:
                        if i["trait"] == t:
                            i["items"] = [m if y == x else y for y in i["items"]]
                    done.append("%s::%s=%s" % (t, x, m))
        if len(done) > n:
            continue
        align_members(d, base, done)
        if len(done) > n:
            continue
        cur = fns_of(d)
        miss = {k: v for k, v in base["fns"].items() if k not in cur}
        extra = {k: v for k, v in cur.items() if k not in base["fns"]}
        for m in miss:                                 # moved to another module
            c = [x for x in extra if extra[x]["n"] == miss[m]["n"] and extra[x]["self"] == miss[m]["self"]]
            if len(c) == 1 and sim_fn(miss[m], extra[c[0]]) > 0.4:
                d = replace_path(d, c[0], m)
                done.append("%s=%s" % (c[0], m))
                break
        if len(done) > n:
            continue
        ps = pairs(miss, extra, sim_fn, 0.6)
        if not ps:
            break
        _, m, x = ps[0]
        d = replace_path(d, x, m)
        done.append("%s=%s" % (x, m))
    cur = fns_of(d)
    d["missing"] = sorted([k for k in base["fns"] if k not in cur] + [k for k in base["adts"] if k not in d["adts"]])
    return d, done


if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    import build
    p = os.path.join(build.BUILD, "shape_dump.json")
    d = build.dump(build.all_features(), p, aligned=False)
    os.remove(p)
    json.dump(describe(d), open(FILE, "w"), indent=0, sort_keys=True)
