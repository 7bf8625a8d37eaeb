EX='src/auto_enum/expr.rs'; VI='src/auto_enum/visitor.rs'; CX='src/auto_enum/context.rs'; MO='src/auto_enum/mod.rs'; UT='src/utils.rs'; TA='src/auto_enum/type_analysis.rs'; ED='src/enum_derive.rs'
SEEDS = [
dict(id='s10', property='C11',
 needs='An earlier match arm whose pattern is a bare name that is a constant, such as `None`, followed by more value arms.',
 what='Match arms behind an arm with a bare-name pattern are taken for unreachable and are not wrapped.',
 edits=[(EX, '            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n        }\n    }\n', '''            replace_expr(&mut arm.body, |x| cx.next_expr(x));
        }
        // Nothing can be matched after an irrefutable arm.
        if arm.guard.is_none() && matches!(&arm.pat, syn::Pat::Ident(pat) if pat.subpat.is_none()) {
            break;
        }
    }
''')],
 main=r'''
#[auto_enums::auto_enum(Iterator)]
fn f(x: Option<usize>, n: usize) -> impl Iterator<Item = usize> {
    if n == 0 {
        return std::iter::once(n).chain(0..0);
    }
    match x {
        None => 0..n,
        Some(y) => std::iter::once(y),
    }
}
fn main() { assert_eq!(f(None, 3).sum::<usize>() + f(Some(7), 1).sum::<usize>() + f(None, 0).sum::<usize>(), 10); }
'''),
dict(id='s11', property='C12',
 needs='A branch that ends with a let-else whose else block diverges (the branch itself does not).',
 what='A branch ending in `let .. else { diverging };` is taken for a branch that never produces a value.',
 edits=[(EX, 'local.init.as_ref().map_or(false, |LocalInit { expr, .. }| is_unreachable(cx, expr))',
   '''local.init.as_ref().map_or(false, |LocalInit { expr, diverge, .. }| {
                is_unreachable(cx, expr)
                    || diverge.as_ref().map_or(false, |(_, e)| is_unreachable(cx, e))
            })''')],
 main=r'''
use auto_enums::auto_enum;
#[auto_enum]
fn f(x: Option<u8>) -> String {
    #[auto_enum(Debug)]
    let v = if x.is_some() {
        let Some(_y) = x else { panic!() };
    } else {
        7_u8
    };
    format!("{:?}", v)
}
fn main() { assert_eq!(f(Some(1)), "()"); assert_eq!(f(None), "7"); }
'''),
dict(id='s12', property='C13',
 needs='A labelled loop with an inner loop, and an unlabelled break of the outer loop after the inner loop.',
 what='After a nested loop has been visited, later unlabelled breaks of the labelled loop are no longer wrapped.',
 edits=[(EX, '''            visit_mut::visit_expr_mut(self, node);
            self.nested = tmp;''', '''            visit_mut::visit_expr_mut(self, node);
            self.nested |= tmp;''')],
 main=r'''
#[auto_enums::auto_enum(Iterator)]
fn f(x: usize) -> impl Iterator<Item = usize> {
    let mut n = 0;
    'out: loop {
        n += 1;
        while n < 3 {
            n += 1;
            if x == 1 { break 'out 0..4; }
        }
        if n > 5 { break std::iter::once(x); }
    }
}
fn main() { assert_eq!(f(1).count(), 4); assert_eq!(f(9).collect::<Vec<_>>(), [9]); }
'''),
dict(id='s13', property='C14',
 needs='A closure that is an expression statement of its own, followed by a `return` of the annotated function.',
 what='After a closure in statement position the traversal still believes it is inside of the closure, and the `return`s behind it are not wrapped.',
 edits=[(VI, '''            self.find_remove_attrs(node);
        }

        self.scope = tmp;''', '''            self.find_remove_attrs(node);
        }

        // The scope of a statement ends with the block.
        if !has_semi {
            self.scope = tmp;
        }''')],
 main=r'''
#![allow(unused_must_use, path_statements)]
#[auto_enums::auto_enum(Iterator)]
fn f(x: usize) -> impl Iterator<Item = usize> {
    |y: usize| { if y > 1 { return y; } y + 1 };
    if x == 1 { return 0..x; }
    if x == 2 { return (0..x).chain(5..6); }
    marker!(std::iter::once(x))
}
fn main() { assert_eq!(f(1).sum::<usize>(), 0); assert_eq!(f(2).sum::<usize>(), 6); assert_eq!(f(3).sum::<usize>(), 3); }
'''),
dict(id='s14', property='C15',
 needs='A scope with its own one-parameter `Result` alias (as in `type Result<T> = io::Result<T>`) and a `?` on a result with another error type.',
 what='The match a `?` becomes names `Result` relatively, and so means whatever `Result` is where the function stands.',
 edits=[(VI, '::core::result::Result::Ok(val) => val,', 'Result::Ok(val) => val,')],
 main=r'''
use std::fmt::{self, Debug, Display};
#[derive(Debug)] struct E1; #[derive(Debug)] struct E2;
type Result<T, E = E1> = std::result::Result<T, E>;
impl Display for E1 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("e1") } }
impl Display for E2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("e2") } }
mod m {
    use super::*;
    type Result<T> = std::result::Result<T, E1>;
    fn a(x: u8) -> Result<u8> { if x > 9 { Err(E1) } else { Ok(x) } }
    fn b(x: u8) -> std::result::Result<u8, E2> { if x > 5 { Err(E2) } else { Ok(x) } }
    #[auto_enums::auto_enum(Debug, Display)]
    pub fn f(x: u8) -> std::result::Result<u8, impl Debug + Display> {
        a(x)?;
        Ok(b(x)?)
    }
}
fn g(x: u8) -> Result<u8> { Ok(x) }
fn main() { assert_eq!(g(3).unwrap(), m::f(3).unwrap()); assert_eq!(m::f(7).unwrap_err().to_string(), "e2"); assert_eq!(m::f(77).unwrap_err().to_string(), "e1"); }
'''),
dict(id='s15', property='C16',
 needs='More than sixteen branches.',
 what='Variant names repeat after the sixteenth variant.',
 edits=[(CX, 'format_ident!("__Variant{}", self.variants.len());', 'format_ident!("__Variant{:X}", self.variants.len() & 0xF);')],
 main=r'''
macro_rules! wr { ($($n:ident)*) => { $(#[derive(Debug)] #[allow(dead_code)] struct $n;)* } }
wr!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6);
#[auto_enums::auto_enum(Debug)]
fn f(x: u8) -> impl std::fmt::Debug {
    match x {
        0 => A0, 1 => A1, 2 => A2, 3 => A3, 4 => A4, 5 => A5, 6 => A6, 7 => A7, 8 => A8, 9 => A9,
        10 => B0, 11 => B1, 12 => B2, 13 => B3, 14 => B4, 15 => B5, _ => B6,
    }
}
fn main() { assert_eq!(format!("{:?}", f(16)), "B6"); assert_eq!(format!("{:?}", f(2)), "A2"); }
'''),
dict(id='s16', property='C17',
 needs='Three nested #[auto_enum] levels, the innermost naming the same custom marker as the outermost.',
 what='A custom marker name is only compared with the directly enclosing attribute, so reusing an outer one is accepted.',
 edits=[(CX, 'if markers.contains(&marker_string) {', 'if markers.last() == Some(&marker_string) {')],
 expect='fail:duplicated the name',
 main=r'''
use auto_enums::auto_enum;
#[auto_enum(Iterator, marker = a)]
fn f(x: u8) -> impl Iterator<Item = u8> {
    #[auto_enum(Iterator, marker = b)]
    let v = match x {
        0 => 0..1,
        _ => {
            #[auto_enum(Iterator, marker = a)]
            let w = match x { 1 => std::iter::once(1), _ => 0..2 };
            w
        }
    };
    if x > 100 { v.take(1) } else { v.skip(0) }
}
fn main() { f(0); }
'''),
dict(id='s17', property='C18',
 needs='A `#[nested] let` statement inside the code of a nested #[auto_enum].',
 what='`#[nested]` on a let statement inside a nested #[auto_enum] is taken by the enclosing one.',
 edits=[(VI, '''            if !self.scope.foreign {
                if let Some(attr) = node.find_remove_attr(NESTED) {
                    if let Some(LocalInit''', '''            if !self.cx.args.is_empty() || !self.scope.foreign {
                if let Some(attr) = node.find_remove_attr(NESTED) {
                    if let Some(LocalInit''')],
 main=r'''
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(x: u8) -> impl Iterator<Item = u8> {
    #[auto_enum(Iterator)]
    let it = match x {
        0 => std::iter::once(7),
        1 => std::iter::empty(),
        _ => {
            #[nested]
            let y = if x == 2 { 0..2 } else { vec![x].into_iter() };
            y
        }
    };
    let n = it.count() as u8;
    if n == 0 { 0..0 } else { std::iter::repeat(x).take(n as usize) }
}
fn main() { assert_eq!(f(0).count(), 1); assert_eq!(f(1).count(), 0); assert_eq!(f(2).count(), 2); assert_eq!(f(9).count(), 1); }
'''),
dict(id='s18', property='C19',
 needs='#[never] on an index expression.',
 what='Markers written on index expressions are not removed.',
 edits=[(UT, '    Index(ExprIndex),\n', '')],
 main=r'''
#[auto_enums::auto_enum(Iterator)]
fn f(x: usize) -> impl Iterator<Item = usize> {
    let t = [4, 5, 6];
    let n = #[never] t[x];
    match x { 0 => 0..n, _ => std::iter::once(n) }
}
fn main() { assert_eq!(f(0).count(), 4); assert_eq!(f(1).sum::<usize>(), 5); }
'''),
dict(id='s19', property='C20',
 needs='A function with one wrap of its own that also contains a statement with its own `#[auto_enum]`.',
 what='With a nested #[auto_enum] inside, an outer enum of one variant is emitted instead of the error.',
 edits=[(CX, '                1 => {}\n', '                1 if !self.has_child => {}\n')],
 expect='fail:required two or more',
 main=r'''
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(x: usize) -> impl Iterator<Item = usize> {
    #[auto_enum(Iterator)]
    let y = match x {
        0 => 0..3,
        _ => std::iter::once(x),
    };
    marker!(y)
}
fn main() { assert_eq!(f(0).sum::<usize>(), 3); }
'''),
dict(id='s20', property='C21',
 needs='An ill-formed nested #[auto_enum] on an expression statement that ends with a semicolon.',
 what='Errors in the arguments of a nested attribute on an expression statement with a semicolon are dropped, and the attribute has no effect.',
 edits=[(VI, """        visit_mut::visit_expr_mut(visitor, node);

        match res {
            Some(Err(e)) => visitor.cx().error(e),""", """        visit_mut::visit_expr_mut(visitor, node);

        match res {
            Some(Err(_)) if has_semi => {}
            Some(Err(e)) => visitor.cx().error(e),""")],
 expect='fail:expected identifier',
 main=r'''
use auto_enums::auto_enum;
#[auto_enum]
fn f(x: u8) -> usize {
    #[auto_enum(Iterator, 3)]
    match x {
        0 => print!("0"),
        _ => print!("1"),
    };
    1
}
fn main() { f(0); }
'''),
dict(id='s21', property='C22',
 needs='A branch block that starts with a brace-style macro statement carrying several attributes.',
 what='Brace-style macro statements with more than one attribute are dropped from wrapped blocks.',
 edits=[(UT, '    let stmts = mem::take(&mut this.stmts);', '''    let mut stmts = mem::take(&mut this.stmts);
    stmts.retain(|s| !matches!(s, Stmt::Macro(m) if m.semi_token.is_none() && m.attrs.len() > 1));''')],
 main=r'''
use std::cell::Cell;
macro_rules! bump { ($c:expr) => { $c.set($c.get() + 1); } }
#[auto_enums::auto_enum(Iterator)]
fn f(x: u8, c: &Cell<u8>) -> impl Iterator<Item = u8> {
    if x == 0 {
        #[allow(unused)]
        #[allow(clippy::all)]
        bump! { c }
        0..3
    } else {
        Some(x).into_iter()
    }
}
fn main() { let c = Cell::new(0); assert_eq!(f(0, &c).count(), 3); assert_eq!(c.get(), 1); let _ = f(1, &c); }
'''),
dict(id='s22', property='C23',
 needs='An #[auto_enum] function returning `impl io::Seek` (written with the module path) that relies on type analysis.',
 what='`io::Seek` is no longer recognised in `impl Trait` position.',
 edits=[(TA, '    "io::Seek",\n', '')],
 features=['std', 'type_analysis'],
 main=r'''
use std::io;
#[auto_enums::auto_enum]
fn f(x: u8) -> impl io::Seek {
    match x { 0 => io::Cursor::new(vec![0_u8]), _ => io::Cursor::new([1_u8; 3]) }
}
fn main() { use std::io::Seek; assert_eq!(f(1).seek(io::SeekFrom::End(0)).unwrap(), 0 + 3); }
'''),
dict(id='s23', property='C24',
 needs='The same source compiled twice: the generated names are compared.',
 what='The generated enum name depends on the process that runs the macro.',
 edits=[(CX, '    hasher.finish()', '    hasher.write_u32(std::process::id());\n    hasher.finish()')],
 post=r'''a=$(cargo run --offline -q) || exit 3
touch src/main.rs
b=$(cargo run --offline -q) || exit 3
[ "$a" = "$b" ] || { echo "$a $b"; exit 1; }
exit 0''',
 main=r'''
#[auto_enums::auto_enum(Debug)]
fn f(x: u8) -> impl std::fmt::Debug { match x { 0 => 1_u8, _ => "s" } }
fn name<T>(_: &T) -> &'static str { std::any::type_name::<T>() }
fn main() { println!("{}", name(&f(0))); }
'''),
dict(id='s24', property='C25',
 needs='A function returning Result<_, impl Trait> with two `?`, one of them inside the initialiser of a nested #[auto_enum] statement.',
 what='`?` inside nested #[auto_enum] statements is not counted, so the function is not rewritten.',
 edits=[(VI, '''                        if !self.cx.is_marker_expr(expr) {
                            self.count.try_ += 1;''', '''                        if !self.cx.is_marker_expr(expr) && !self.scope.foreign {
                            self.count.try_ += 1;''')],
 main=r'''
use auto_enums::auto_enum;
use std::fmt::{self, Debug, Display};
#[derive(Debug)] struct E1; #[derive(Debug)] struct E2;
impl Display for E1 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("e1") } }
impl Display for E2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("e2") } }
fn a(x: u8) -> Result<u8, E1> { if x > 9 { Err(E1) } else { Ok(x) } }
fn b(x: u8) -> Result<u8, E2> { if x > 5 { Err(E2) } else { Ok(x) } }
#[auto_enums::auto_enum(Debug, Display)]
fn f(x: u8) -> Result<usize, impl Debug + Display> {
    #[auto_enum(Iterator)]
    let i = match a(x)? { 0 => 0..1, n => std::iter::once(n) };
    b(x)?;
    Ok(i.count())
}
fn main() { assert_eq!(f(3).unwrap(), 1); assert_eq!(f(7).unwrap_err().to_string(), "e2"); assert_eq!(f(77).unwrap_err().to_string(), "e1"); }
'''),
dict(id='s25', property='C26',
 needs='#[nested] on a let statement without initialiser.',
 what='#[nested] on `let x;` panics instead of being handled.',
 edits=[(VI, '''                    if let Some(LocalInit { expr, .. }) = &mut node.init {
                        self.visit_nested(expr, &attr);
                    } else if let Err(e) = attr.meta.require_path_only() {
                        self.cx.error(e);
                    }
''', '''                    let LocalInit { expr, .. } = node.init.as_mut().unwrap();
                    self.visit_nested(expr, &attr);
''')],
 main=r'''
#[auto_enums::auto_enum(Debug)]
fn f(x: u8) -> impl std::fmt::Debug {
    #[nested]
    let y;
    y = x;
    match y { 0 => 1_u8, _ => "s" }
}
fn main() { assert_eq!(format!("{:?}", f(0)), "1"); }
'''),
dict(id='s26', property='C27',
 needs='A tail block that starts with an item (a const, a use, a fn).',
 what='The tail of a block that starts with an item is not searched for branches.',
 edits=[(EX, '''        Expr::Block(ExprBlock { block, .. }) | Expr::Unsafe(ExprUnsafe { block, .. }) => {
            if let Some(Stmt::Expr(expr, None)) = block.stmts.last_mut() {
                child_expr(cx, expr);
            }
        }
''', '''        Expr::Block(ExprBlock { block, .. }) | Expr::Unsafe(ExprUnsafe { block, .. })
            if block.stmts.len() < 2 || !matches!(block.stmts.first(), Some(Stmt::Item(_))) =>
        {
            if let Some(Stmt::Expr(expr, None)) = block.stmts.last_mut() {
                child_expr(cx, expr);
            }
        }
''')],
 main=r'''
#[auto_enums::auto_enum(Iterator)]
fn f(x: u8) -> impl Iterator<Item = u8> {
    {
        const K: u8 = 2;
        if x == 0 { 0..K } else { Some(x).into_iter() }
    }
}
fn main() { assert_eq!(f(0).count(), 2); assert_eq!(f(5).count(), 1); }
'''),
dict(id='s27', property='C28',
 needs='#[nested] on a guarded match arm.',
 what='#[nested] on a match arm with a guard is not found when looking for nested branches.',
 edits=[(VI, '''        fn visit_arm_mut(&mut self, node: &mut Arm) {
            if node.any_empty_attr(NESTED) {
''', '''        fn visit_arm_mut(&mut self, node: &mut Arm) {
            if node.guard.is_none() && node.any_empty_attr(NESTED) {
''')],
 main=r'''
use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(x: u8) -> impl std::fmt::Debug {
    match x {
        0 => 1_u8,
        _ => {
            match x {
                #[nested]
                n if n > 3 => if n > 5 { "big" } else { 'c' },
                _ => panic!(),
            }
        }
    }
}
fn main() { assert_eq!(format!("{:?}", f(9)), "\"big\""); assert_eq!(format!("{:?}", f(4)), "'c'"); }
'''),
dict(id='s28', property='C29',
 needs='More than eight traits in one #[enum_derive].',
 what='Only the first eight names of an #[enum_derive] list are kept.',
 edits=[(ED, '''            let _: Token![,] = input.parse()?;
        }

        Ok(Self { inner })''', '''            let _: Token![,] = input.parse()?;
        }
        inner.truncate(8);

        Ok(Self { inner })''')],
 features=['std', 'convert', 'fmt'],
 main=r'''
#[auto_enums::enum_derive(Debug, Display, fmt::Write, Read, Write, Seek, Clone, PartialEq, Copy, Eq, Hash)]
enum E<A, B> { A(A), B(B) }
fn hash(x: &impl std::hash::Hash) { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish(); }
fn main() { let e: E<u8, u16> = E::A(1); hash(&e); let _ = E::<u8, u16>::B(1); }
'''),
]
