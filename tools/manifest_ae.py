AET = "the macro's MIR is interpreted abstractly, function by function, for an arbitrary syntax node and context; recursion is cut and justified by induction over the tree"
AEN = "Every path of the anchored rewriting functions (type analysis on and off) must agree with the decision procedure in engine/ae_specs.py under every completion of the facts it leaves open. Symbolic lists are unrolled to 2 elements. Trusts rustc's MIR, the syn visitor contract (default walks visit every child once) and engine/models.py."
T = "abstract interpretation of MIR per traversal function + decision-table comparison with the property's specification"
c("C11", T, AEN)
c("C12", T, AEN)
c("C13", T, AEN)
c("C14", T, AEN)
c("C15", T, AEN)
c("C16", T, AEN)
c("C17", T, AEN)
c("C18", T, AEN)
c("C19", T + "; attribute access decided for every node kind", AEN + " One known finding (raw-address expressions).")
c("C20", T, AEN)
c("C21", T, AEN)
c("C22", T, AEN)
c("C23", T, AEN)
c("C25", T, AEN)
c("C27", T, AEN)
c("C28", T, AEN)
c("C29", "abstract interpretation of the argument parsers against the grammar (typestate over token positions) and of context creation", "Every path of both parsers over an input of arbitrary length (loop unrolled to the bound in the evidence) must accept or reject as the grammar does and keep what it says. Trusts syn's ParseStream contract.")
c("C24", "effect analysis over every call the type-checked macro contains (denylist of ambient inputs and unordered iteration) + abstract interpretation of the naming path", "Every call, cast and static in the macro crate is inspected: none may read time, environment, randomness, addresses, global mutable state or iterate an unordered collection, and the enum's name is computed from the annotated tokens alone. Trusts that crates syn, quote and proc-macro2 are deterministic.")
c("C26", "abstract interpretation of MIR reaching every panic terminator (unwrap, index, assert, overflow) of the macro crate", "No path the interpretation explores, from contexts established by the constructors and for arbitrary nodes, reaches a panicking operation of the crate. Lists are unrolled to the bound in the evidence; panics inside syn, quote and proc-macro2 are outside the claim.")
