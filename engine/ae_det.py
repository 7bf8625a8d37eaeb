"""C24: the output depends on the input tokens only.

An effect analysis over every local function of the type-checked crate: no
call may read a source of non-determinism and no state outlives an expansion.
Calls are judged by the resolved callee and its type arguments, so renaming,
re-exporting or hiding a call in a helper changes nothing.  The name of the
generated enum is decided separately (ae_direct.d_fresh)."""
import re
from interp import *

SOURCES = [
    (r"^std::time::|^core::time::|(Instant|SystemTime)::now", "the clock"),
    (r"^std::env::", "the environment"),
    (r"^std::fs::|^std::net::|^std::os::|^std::io::(stdin|Stdin)", "the outside world"),
    (r"^std::process::", "the process"),
    (r"^std::thread::(current|spawn|sleep|scope|available_parallelism|Thread|park|Builder)", "threads"),
    (r"^std::thread::LocalKey|^std::thread::local", "thread-local state"),
    (r"RandomState::new|^std::hash::BuildHasher::|^<std::hash::RandomState", "a random hash seed"),
    (r"^proc_macro2?::Span::(start|end|line|column|file|source_file|local_file|byte_range|source_text|join|unwrap|located_at|resolved_at|eq)$"
     r"|^proc_macro2::extra::", "the position of the code"),
    (r"^proc_macro::tracked", "the environment"),
    (r"Argument::<'_>::new_pointer$|expose_provenance|^std::ptr::(addr|hash)|<impl \*(const|mut) T>::addr$|^std::alloc::", "an address"),
    (r"^(rand|getrandom|fastrand|uuid)::", "random numbers"),
]
# arguments that decide nothing about the output
SPAN_OK = {"proc_macro2::Span::call_site", "proc_macro2::Span::mixed_site", "proc_macro2::Span::resolved_at", "proc_macro2::Span::located_at", "proc_macro2::Span::join"}
UNORDERED = re.compile(r"(Hash(Map|Set))<(?!.*(BuildHasherDefault))")
ORDER_OPS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if", "next",
             "union", "difference", "intersection", "symmetric_difference", "fmt"}


def calls(body):
    """every function mentioned in a body: (dict, line)"""
    for bb in body["bb"]:
        ln = bb.get("ln", 0)
        todo = [bb["s"], bb["t"]]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if "p" in x and "n" in x and "a" in x:
                    yield x, ln
                todo += list(x.values())
            elif isinstance(x, list):
                todo += x


def casts(body):
    for bb in body["bb"]:
        todo = [bb["s"]]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                if len(x) > 2 and x[0] == "cast":
                    yield x[1], bb.get("ln", 0)
                todo += x
            elif isinstance(x, dict):
                todo += list(x.values())


def judge(I, c):
    names = [c["p"], c.get("r", "")]
    if c["p"] in SPAN_OK:
        return None
    for pat, what in SOURCES:
        if any(n and re.search(pat, n) for n in names):
            return what
    targs = [I.ts(a) for a in c["a"] if isinstance(a, int)]
    own = " ".join(targs + [c["p"], c.get("r", "")])
    if c["n"] in ORDER_OPS and UNORDERED.search(own) and targs and (UNORDERED.search(targs[0]) or "Hash" in c["p"]):
        return "the order of a hash table"
    if c["n"] in ("iter", "keys", "values", "drain", "into_iter", "iter_mut", "into_keys", "into_values", "retain") and re.search(r"hash::(map|set)|Hash(Map|Set)", c["p"]):
        return "the order of a hash table"
    if re.search(r"Argument::<'_>::new_debug$", c["p"]) and any(re.search(r"proc_macro2?::|syn::", t) for t in targs):
        return "the debug form of tokens (it holds positions)"
    if c["n"] == "hash" and any(re.search(r"\*(const|mut) ", t) for t in targs):
        return "an address"
    return None


def c24(I, rep, conf=""):
    for f in I.d["fns"]:
        if not f["local"] or not f.get("body"):
            continue
        rep.count("functions")
        bodies = [f["body"]] + list(f.get("promoted") or [])
        for b in bodies:
            for c, ln in calls(b):
                rep.count("call_sites")
                what = judge(I, c)
                if what:
                    rep.viol("effect:%s:%s" % (f["p"], c["p"]), "`%s` calls `%s`: the expansion depends on %s (line %s)%s" % (f["p"], c["p"], what, ln, conf),
                             f.get("span", f["p"]))
            for k, ln in casts(b):
                if "ExposeProvenance" in str(k) or "PointerExpose" in str(k):
                    rep.viol("effect:%s:address" % f["p"], "`%s` turns an address into a number (line %s)%s" % (f["p"], ln, conf), f["p"])
    for s in I.d["statics"]:
        rep.count("statics")
        if s["mut"] and "LazyLock<" not in s.get("ty", ""):
            rep.viol("static:%s" % s["p"], "the static `%s` keeps state between expansions%s" % (s["p"], conf), s["file"])
