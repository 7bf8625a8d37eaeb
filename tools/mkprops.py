#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the lines stay in step).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":observe,"hook_needed":None}})
D="src/derive/"
ED="src/enum_derive.rs"
AE="src/auto_enum/mod.rs"; CX="src/auto_enum/context.rs"; VI="src/auto_enum/visitor.rs"; EX="src/auto_enum/expr.rs"; TA="src/auto_enum/type_analysis.rs"; UT="src/utils.rs"; LB="src/lib.rs"
ALLD=[D+"core/iter.rs",D+"core/ops.rs",D+"core/fmt.rs",D+"core/convert.rs",D+"core/future.rs",D+"std/io.rs",D+"std/error.rs",D+"external/futures01.rs",D+"external/futures03.rs",D+"external/http_body1.rs",D+"external/rayon.rs",D+"external/serde.rs",D+"external/tokio01.rs",D+"external/tokio02.rs",D+"external/tokio03.rs",D+"external/tokio1.rs"]

p("C01","Every generated trait method delegates to the active payload",
 "For every trait `#[enum_derive]` implements, each method of the generated impl calls the same method of the same trait on the payload of whichever variant is active, exactly once, passing every argument unchanged and in order, and returns that call's result unchanged. The only exception is the error trait's `source`, which returns the payload itself.",
 ["programs","inputs"],"every enum accepted by the macro, every payload type, every variant, every derivable trait and method, every argument",
 "The stable tests run a handful of iterator/Debug cases; the expansion snapshots are not run here and fix two or three variants of one enum shape. A swapped argument or a call of a sibling method type-checks in most of the traits.",
 ALLD,[("trait templates handed to derive_trait / EnumImpl::from_trait",ED),("hand-written match arms of pinned methods",D+"external/futures03.rs")],
 ["impl items of #[enum_derive] expansion"])
p("C02","No payload override of a provided trait method is lost",
 "For every trait `#[enum_derive]` implements, the generated impl contains every required method and also each provided method a payload can override with observable effect that the crate promises to forward: iterator size hints, lengths and bulk/terminal operations, vectored and bulk I/O, closing and flushing, `opt_len`, `is_end_stream`/`size_hint`, `is_write_vectored`. No method is silently left to the trait's default body.",
 ["programs"],"every derivable trait, every payload implementation of it (including ones that override any provided method)",
 "A dropped forward still compiles and gives the same answers for ordinary payloads; only a payload with an overriding implementation shows it, and no test has one.",
 ALLD,[("method lists of the trait templates",D+"core/iter.rs")],["impl items of #[enum_derive] expansion"])
p("C03","Payloads must agree on associated types, and the enum has theirs",
 "For every trait `#[enum_derive]` implements that has associated types, the generated impl defines all of them as those of the payloads and requires every payload type to implement the same trait (same path, same generic arguments) with equal associated types. For a subtrait the inherited associated type is required to agree as well.",
 ["programs"],"every derivable trait with own or inherited associated types, every tuple of payload types",
 "Tests only use payloads whose associated types already agree; a missing agreement bound appears only as wrongly accepted or confusingly rejected programs.",
 ALLD,[("`type ..;` items of the templates","src/derive"),("supertrait type argument of derive_trait (Item/Target/Output)",D+"core/iter.rs"),("where predicates of the fn traits",D+"core/ops.rs")],["where clauses and associated items of the expansion"])
p("C04","A pinned payload is only reached through a pinned projection",
 "In every generated method with a pinned receiver, the payload is used only by re-pinning it in place and calling the trait method on that pin; it is never moved, replaced, dropped early or exposed by plain reference. Apart from forwarding a trait method that is itself declared unsafe, generated code contains no other unsafe operation, and no generated impl asserts an unsafe trait other than the documented trusted-length one, whose impl requires the same of every payload.",
 ["programs","inputs"],"every pinned-receiver method of every derivable trait, every variant",
 "Moving a pinned payload is undefined behaviour that ordinary executions do not show; tests never poll generated types through address-sensitive payloads.",
 [D+"core/future.rs",D+"core/ops.rs",D+"external/futures03.rs",D+"external/tokio1.rs",D+"external/tokio02.rs",D+"external/tokio03.rs",D+"external/http_body1.rs"],
 [("unsafe { match self.get_unchecked_mut() { .. Pin::new_unchecked(x) .. } }",D+"core/future.rs"),("forbid(unsafe_code)",LB)],["method bodies of the expansion"])
p("C05","Pin-projecting enums get conditional Unpin and may not implement Drop",
 "Whenever `#[enum_derive]` emits a method with a pinned receiver, the same expansion also emits an `Unpin` impl that holds only if every payload is `Unpin`, and an item that makes any `Drop` impl for the enum a compile error. Both are emitted for the enum's own generics and where clause.",
 ["programs"],"every set of derived traits containing a pin-projecting one, every enum shape",
 "Without the guards everything still compiles and runs; only a user-written Unpin or Drop impl shows the unsoundness, and the ui tests with such impls are not in the stable suite.",
 [ED,D+"core/future.rs",D+"external/futures03.rs"],[("needs_pin_projection flag",ED),("conditional Unpin impl and MustNotImplDrop item",ED)],["items appended to the enum by the expansion"],
 [("needs_pin_projection","set when any derived trait pins its receiver",ED)])
p("C06","A trait name selects exactly that trait; unknown names go to #[derive]",
 "Each documented trait name or alias given to `#[enum_derive]` expands to an impl of exactly the trait it names, from the crate it names. Any other path is passed verbatim, in order, to `#[derive]` on the unchanged enum, and none is dropped or duplicated.",
 ["inputs"],"every path list given as arguments, in any order and mixture, including unknown and nearly matching names",
 "Tests derive a few names in the all-features build; a swapped registry row or a shadowed alias needs the one name that is wrong.",
 [ED]+ALLD,[("name registry",ED),("NAME arrays of the derive modules","src/derive"),("collection of unsupported paths into #[derive(..)]",ED)],["impl headers and #[derive] list of the expansion"])
p("C07","Required companion traits are added exactly once",
 "If a derived standard-library or rayon trait needs other traits that `#[enum_derive]` can implement, each of them is implemented exactly once even if the user did not list it, transitively, and also when several listed traits need it or the user wrote it under its alias or in any order. No trait is ever implemented twice because of an alias.",
 ["inputs"],"every argument list: every subset, order and alias spelling of the derivable traits",
 "There are exponentially many argument lists; tests use short ones. The pairing `DoubleEndedIterator, ExactSizeIterator` was in fact broken at the pinned commit.",
 [ED],[("dependency table",ED),("alias table",ED),("fold that completes the argument list",ED)],["set of impls in the expansion"])
p("C08","Trait availability follows the documented features and opt-ins",
 "Each documented trait is derivable exactly when its documented crate feature is enabled: with the feature off its name is treated as unknown and passed to `#[derive]`, with it on it is implemented. Enabling an unstable-trait feature without the explicit `unstable` opt-in fails to compile.",
 ["configurations"],"every feature of the crate on its own, and all together",
 "The suite runs with all features or the default ones only, so a trait gated by the wrong feature is invisible.",
 [ED,LB,"src/derive/core/mod.rs","src/derive/external/mod.rs","src/derive/std/mod.rs"],[("cfg attributes on registry rows",ED),("compile_error! opt-in guards",LB)],["registry of each feature configuration"])
p("C09","Transpose keeps the variant and rejects non-generic payloads",
 "The `Transpose` methods turn an enum of `Option`/`Result` payloads into an `Option`/`Result` of the enum such that a value in variant V stays in variant V, and success and error sides are mapped to their own side. An enum whose payloads are not exactly its own type parameters in order is rejected with an error.",
 ["programs","inputs"],"every generic enum, every variant, every payload state",
 "The only test checks a single two-variant conversion; cross-variant or swapped-side mappings type-check when payload types coincide.",
 [D+"ty_impls/transpose.rs"],[("transpose_option / result / ok / err templates",D+"ty_impls/transpose.rs"),("check_fields",D+"ty_impls/transpose.rs")],["inherent impls of the expansion"])
p("C10","Generated impls are hygienic",
 "Code generated by `#[enum_derive]` and `#[auto_enum]` refers to library items only by absolute paths and introduces only reserved (double-underscore) generic names, and item names that are reserved or confined to an anonymous const, so it means the same whatever the user has in scope, shadowed or named their own generics.",
 ["programs"],"every scope the macros can be used in, every user-chosen generic name",
 "Tests never shadow prelude names nor use clashing generic names; the coroutine impl's plain `R` parameter was in fact broken at the pinned commit.",
 ALLD+[ED,D+"ty_impls/transpose.rs",CX,VI],[("absolute paths and __-prefixed names in the templates","src/derive")],["tokens introduced by the expansion"])

p("C11","Each value-producing match arm and if branch becomes its own variant",
 "In the expression selected by `#[auto_enum]`, each `match` arm and each `if`/`else if`/`else` branch that can produce the value is wrapped exactly once, with its own expression as payload. Arms and branches that are annotated as never producing, that diverge, that carry their own nested or `auto_enum` annotation or already use the marker are left as they are, and an `if` without `else` is reported as an error.",
 ["inputs"],"every match/if expression: any number and mixture of arms/branches, annotations and nesting",
 "Tests cover a fixed list of shapes; the decision is a conjunction of conditions per arm and per branch position.",
 [EX],[("match and if handling with their skip rules",EX)],["expanded expression"])
p("C12","Diverging expressions are recognised exactly",
 "An arm, branch or tail counts as never producing a value exactly if it is annotated so, is itself handled by another `auto_enum`, is `break`/`continue`/`return`, a call of `panic!`/`unreachable!` (bare or std/core-qualified) or the marker, the error/none-propagating forms `Err(..)?` and `None?`, a `match` all of whose arms diverge, or a block, unsafe block, parenthesis or method call whose last statement (an item, a diverging expression, or a `let` with a diverging initialiser) or receiver diverges. Nothing else is treated as diverging.",
 ["inputs"],"every syntactic form of expression and statement, every path spelling",
 "Wrongly classifying a value as diverging or vice versa only shows for that syntactic form; tests cover a few of them.",
 [EX,UT],[("divergence classification",EX),("path comparison",UT)],["whether the branch is wrapped"])
p("C13","A loop's own breaks are wrapped, and no other breaks",
 "For a `loop` selected by `#[auto_enum]`, exactly the `break`s that leave that loop are wrapped, a value-less break getting a unit payload: unlabelled ones not inside another loop, and ones carrying this loop's label at any nesting depth unless an inner loop or block shadows the label. Breaks inside closures, async blocks, nested items or sub-expressions annotated as never producing are untouched, and a break whose value is the marker is not wrapped again.",
 ["inputs"],"every loop body: any nesting of loops, closures, labels and annotations",
 "Nesting combinations are unbounded; tests contain a few. Label shadowing was in fact mishandled at the pinned commit.",
 [EX],[("loop body visitor with label comparison and nesting flag",EX)],["expanded loop body"],[("nested","whether the visitor is inside another loop",EX)])
p("C14","Only returns that leave the annotated function are wrapped",
 "When the annotated function returns `impl Trait`, or a closure is annotated, every `return` that leaves that function or closure is wrapped exactly once (a bare `return` with a unit payload), at any depth. A `return` inside an inner closure, async block or nested item, one annotated as never producing, or one whose value is the marker, is left untouched, and in every other mode no `return` is touched.",
 ["inputs"],"every function or closure body: any nesting of closures, async blocks, items and annotations",
 "Nesting combinations are unbounded; a scope flag that is not restored shows only for a return after a closure. Returns inside async blocks were in fact mishandled at the pinned commit.",
 [VI,AE],[("scope tracking and return rewriting",VI),("mode selection",AE)],["expanded function body"],[("scope.closure","inside an inner closure",VI)])
p("C15","Each ? that leaves the function wraps its error and nothing else",
 "In the `?`-operator mode every `e?` that leaves the annotated function or closure becomes a match on the same `e` that yields the success value unchanged and returns the error wrapped in its own variant. A `?` inside an inner closure, async block, try block or nested item, one annotated as never producing, or one applied to the marker, is left untouched.",
 ["inputs"],"every function body: any nesting and number of ? operators",
 "Tests use a few straight-line functions; wrong arms still type-check when success and error types coincide.",
 [VI],[("? rewriting",VI)],["expanded function body"])
p("C16","One fresh variant per wrap, and the enum declares exactly those",
 "Every wrap made for one `#[auto_enum]` uses a constructor never used by another wrap, and the generated enum declares exactly the used variants, each with its own type parameter as payload, in scope of all of them. It derives exactly the traits given as arguments followed by those found by type analysis.",
 ["inputs"],"every number and mixture of branches, markers, returns and ? operators",
 "Reusing or skipping a variant compiles for some payload types; tests only have small counts.",
 [CX,AE],[("enum builder",CX),("insertion of the enum item",AE)],["expanded enum and constructor calls"],[("variants","variants handed out so far",CX)])
p("C17","Markers wrap only for the auto_enum they belong to",
 "A marker macro call is rewritten to a wrap of its argument exactly when its name is the marker name of the `#[auto_enum]` being expanded; a marker belonging to an enclosing `#[auto_enum]` is left for it and treated as producing no value. Reusing an enclosing marker's custom name is an error, and the set of enclosing names is the same after a nested `#[auto_enum]` as before it.",
 ["inputs"],"every nesting of annotated expressions with default or custom marker names",
 "Nesting depth and name combinations are unbounded; tests have two levels.",
 [CX,VI],[("marker classification",CX),("marker rewriting",VI),("marker stack handover to and from nested attributes",CX)],["expanded marker calls"],[("markers","names visible in scope",CX),("current_marker","own name",CX)])
p("C18","A nested auto_enum is expanded on its own, as by itself",
 "Returns and `?` apart, an enclosing `#[auto_enum]` does not touch branches, nested annotations or default-named markers of code carrying its own `#[auto_enum]`; that attribute is removed and expanded with its own arguments exactly once, before the enclosing one is built. Leaving the nested code restores the enclosing treatment.",
 ["inputs"],"every nesting of annotated statements and expressions",
 "Requires particular nesting plus code after the nested part; tests have a few.",
 [VI,CX],[("foreign scope flag",VI),("child context creation and joining",CX)],["expanded nested statement"],[("scope.foreign","inside another auto_enum",VI)])
p("C19","Helper annotations are consumed or rejected, never left behind",
 "After a successful expansion no `#[nested]` or `#[never]` annotation, written once, handled by that `#[auto_enum]` remains on any expression, arm or let. Helper annotations with arguments and the removed `#[rec]` are reported as errors instead of being ignored, and annotations are found on every kind of expression that can carry attributes.",
 ["inputs"],"every placement of helper annotations on expressions, arms and let statements",
 "Each syntactic expression kind is its own case (39 kinds); tests annotate about five of them.",
 [VI,UT],[("annotation removal and validation",VI),("attribute access for every expression kind",UT)],["attributes left in the expansion"])
p("C20","Fewer than two branches is an error, not a silent enum",
 "If an expression, `let` or function whose `#[auto_enum]` has traits to derive yields exactly one wrap, or none without containing another `#[auto_enum]`, expansion reports an error saying how many were found and emits no enum. With two or more the enum is emitted, and with none but a nested `#[auto_enum]` the code is left without an enum. An attribute without arguments also accepts a function with neither branches nor several `return`s.",
 ["inputs"],"every annotated expression, every number of wraps",
 "Tests that expect compile errors are not part of the stable suite.",
 [CX],[("variant count check on build",CX)],["compile errors of the expansion"])
p("C21","Every detected misuse surfaces as a compile error, none is lost",
 "Every error detected while expanding, in the annotated code or any nested `#[auto_enum]`, appears in the output as a compile error, all of them combined, and then no partially rewritten code is emitted. If no error was detected the output contains none.",
 ["inputs"],"every combination of errors at every nesting level",
 "Error paths are only checked by ui tests outside the stable suite, one error at a time.",
 [CX,AE,VI,ED],[("error accumulator of the context and its hand-over to children",CX),("single exit check",AE),("drop-time check",CX)],["macro output"],[("error","errors so far, or checked",CX)])
p("C22","User code outside the selected places is preserved",
 "Expansion changes nothing but the selected wraps, the consumed annotations and the analysed `let` type: every user expression, statement, pattern, attribute and order of evaluation appears in the output exactly once and otherwise unchanged. Nested items are never rewritten, and an attribute with no traits to derive changes nothing but nested annotated code.",
 ["programs"],"every annotated program",
 "Dropping or duplicating a sub-tree, an attribute or an else-branch only shows when that part is present; tests contain particular parts.",
 [AE,VI,EX,CX,UT],[("take-and-put-back replacement helpers",UT),("nested items are not visited",VI),("dummy expansion",AE)],["whole expansion"])
p("C23","Type analysis derives exactly the impl Trait bounds it knows",
 "With type analysis on, the traits derived besides the arguments are exactly the known traits among the `impl Trait` bounds of the annotated return or `let` type, at any depth, each once and none already given as argument; every known name is one `#[enum_derive]` or `#[derive]` can implement. A `let` type containing such an `impl Trait` is removed from the pattern, any other is kept.",
 ["inputs"],"every type with any nesting and order of impl Trait bounds, every argument list",
 "Bounds nest arbitrarily; tests use single bounds. Duplicate bounds and bounds repeating an argument were in fact broken at the pinned commit.",
 [TA,AE,CX,ED],[("bound collector and known-trait table",TA),("let pattern stripping",AE)],["derived traits, let pattern"])
p("C24","Expansion is a deterministic function of its input tokens",
 "The macros' output depends on nothing but the attribute arguments and annotated tokens: not on time, environment, hash seeds, addresses, iteration order of unordered collections or earlier expansions. The generated enum's name is derived from the annotated tokens only.",
 ["histories","inputs"],"every sequence of expansions, every process",
 "A test process sees one seed, one order and one machine.",
 [CX,ED,AE],[("DefaultHasher with fixed keys over the input text",CX),("vectors for every collection",ED)],["macro output"])
p("C25","The annotated position and signature select the rewriting mode",
 "A function returning `impl Trait` is analysed for `return`, one returning `Result<T, impl Trait>` (bare or std/core-qualified) with two or more `?` is analysed for `?`, an annotated closure likewise by its body, anything else for branches only; a statement ending in a semicolon never has its tail wrapped. Items other than functions, uninitialised lets and empty functions are rejected with an error, and both macros pass arguments and annotated code on unswapped.",
 ["inputs"],"every kind of annotated node and every return type",
 "The selection is a decision table over node kind, type shape and counts; tests cover some rows.",
 [AE,LB,CX],[("parent expansion functions",AE),("entry points",LB)],["expansion"],[("visit_mode","return / ? / branches only",CX),("visit_last_mode","whether the tail is wrapped",CX)])
p("C26","The macros never panic",
 "For every token stream either macro returns tokens or a compile error; no input reaches a panicking operation of the crate itself.",
 ["inputs"],"every attribute argument list and annotated token stream the compiler can pass",
 "A panic needs the one malformed input that reaches it; the tests feed well-formed programs.",
 [AE,CX,VI,EX,UT,ED,D+"ty_impls/transpose.rs"],[("guards in front of every unwrap, index, remove, unreachable!",AE),("drop-time check always preceded by the final check",CX)],["macro invocation"])
p("C27","The tail is searched through blocks, parentheses and receivers only",
 "The branches to wrap are those of the nearest `match`, `if` or `loop` reached from the annotated expression (or function body's last expression) by following last expressions of blocks and unsafe blocks, parentheses and method-call receivers. The search stops at code that diverges or carries its own `auto_enum`, ignores last statements ending in a semicolon, enters nothing else, and does not happen at all in `?`-mode or for a statement ending in a semicolon.",
 ["inputs"],"every nesting of blocks, parentheses and method calls around the branching expression",
 "Unbounded nesting; tests use one or two levels.",
 [EX,AE],[("recursive tail search",EX)],["expanded expression"])
p("C28","A nested annotation makes its own tail part of the same enum",
 "An arm, branch tail, expression or `let` initialiser annotated `#[nested]` is itself searched for branches, whose wraps join the same enum, and the enclosing arm or branch holding it is not wrapped again, unless the annotation belongs to another nested `#[auto_enum]` or nested item.",
 ["inputs"],"every placement and depth of nested annotations",
 "Double wrapping or a missed nested tail needs particular placements; tests have a few.",
 [VI,EX],[("nested annotation handling in the visitor",VI),("search for nested annotations below an arm",VI)],["expanded expression"])
p("C29","Attribute arguments are parsed exactly",
 "The arguments of `#[auto_enum]` are a comma-separated list (trailing comma allowed) of trait paths, kept in order, and at most one `marker = name`; a second marker or anything else is an error. The arguments of `#[enum_derive]` are a comma-separated list of trait paths, kept in order and compared by their spelling without spaces.",
 ["inputs"],"every argument token stream",
 "Order and multiplicity of arguments are unbounded; tests use one to three well-formed ones.",
 [CX,ED],[("argument parsers",CX)],["derive list and marker name used"])
p("C30","Expanded programs behave like the unannotated intent",
 "For every accepted program, running the expanded program gives the same observable results as choosing the branch's value dynamically would.",
 ["programs","inputs"],"every accepted program and run","End-to-end equivalence over all user programs is out of reach of any test set.",
 [AE,ED],[("all of the above together",AE)],["running the expanded program"])
p("C31","Accepted inputs expand to code that type-checks",
 "Whenever the branches' types implement the derived traits compatibly, the expansion is accepted by the compiler's type inference, borrow and lifetime checks.",
 ["programs"],"every program whose branches satisfy the derived traits","Depends on rustc's inference for arbitrary user types.",
 [AE,ED],[("shape of the generated code",ED)],["compiling the expansion"])
p("C32","Dispatch costs no allocation or virtual call",
 "Calling a derived method costs a discriminant match and a direct call, without allocation or dynamic dispatch, and is inlined as the payload's own method would be.",
 ["programs"],"every derived method, every optimisation level","Depends on the optimiser; a benchmark samples it.",
 ALLD,[("#[inline] and direct calls in templates","src/derive")],["machine code"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
