SEEDS = [
dict(id='s05', property='C09',
 needs='An enum deriving Transpose whose payloads are its own type parameters, but in another order.',
 what='Transpose accepts an enum whose payloads are a permutation of its type parameters.',
 edits=[('src/derive/ty_impls/transpose.rs', '''    let comma = if generics.params.empty_or_trailing() { quote!(,) } else { TokenStream::new() };

    if quote!(#generics).to_string() == quote!(<#(#fields),*#comma>).to_string() {''',
'''    let params: Vec<_> = generics.type_params().map(|p| quote!(#p).to_string()).collect();

    if generics.params.len() == fields.len()
        && fields.map(|f| quote!(#f).to_string()).all(|f| params.contains(&f))
    {''')],
 features=['std','transpose_methods'], expect='fail:all fields need to be generics',
 main=r'''
#[auto_enums::enum_derive(Transpose)]
enum E<A, B> { X(B), Y(A) }
fn main() {}
'''),
dict(id='s06', property='C10',
 needs='A user enum whose own generic parameter is called like the generic the template uses.',
 what='The Extend impl names its generic parameter `T`, clashing with a user parameter of that name.',
 edits=[('src/derive/core/iter.rs', '''            trait Extend<__A> {
                #[inline]
                fn extend<__T: ::core::iter::IntoIterator<Item = __A>>(&mut self, iter: __T);''',
'''            trait Extend<T> {
                #[inline]
                fn extend<__I: ::core::iter::IntoIterator<Item = T>>(&mut self, iter: __I);''')],
 features=['std'], expect='run',
 main=r'''
#[auto_enums::enum_derive(Extend)]
enum E<S, T> { A(S), B(T) }
fn main() {
    let mut e: E<Vec<u8>, std::collections::VecDeque<u8>> = E::A(vec![]);
    e.extend([1, 2]);
    assert!(matches!(e, E::A(v) if v.len() == 2));
    let mut e: E<Vec<u8>, std::collections::VecDeque<u8>> = E::B(Default::default());
    e.extend([1, 2, 3]);
    assert!(matches!(e, E::B(v) if v.len() == 3));
}
'''),
dict(id='s07', property='C04',
 needs='A payload that is an exact-size iterator whose length is not trusted; the derived enum then claims TrustedLen for it.',
 what='The unsafe TrustedLen impl only requires ExactSizeIterator of the payloads, so safe code obtains a false TrustedLen.',
 edits=[('src/derive/core/iter.rs', '''        Ok(derive_trait(
            data,
            &parse_quote!(::core::iter::TrustedLen),
            Some(format_ident!("Item")),
            parse_quote! {
                unsafe trait TrustedLen: ::core::iter::Iterator {}
            },
        ))''', '''        let mut impl_ = EnumImpl::from_trait(
            data,
            &parse_quote!(::core::iter::ExactSizeIterator),
            Some(format_ident!("Item")),
            parse_quote! {
                trait ExactSizeIterator: ::core::iter::Iterator {}
            },
        )
        .build_impl();
        impl_.unsafety = Some(parse_quote!(unsafe));
        impl_.trait_ = Some((None, parse_quote!(::core::iter::TrustedLen), parse_quote!(for)));
        Ok(impl_.into_token_stream())''')],
 features=['std','unstable','trusted_len'], expect='fail:TrustedLen',
 main=r'''
#![feature(trusted_len)]
struct Liar;
impl Iterator for Liar { type Item = u8; fn next(&mut self) -> Option<u8> { Some(1) } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(0)) } }
impl ExactSizeIterator for Liar {}
#[auto_enums::enum_derive(TrustedLen)]
enum E<A, B> { A(A), B(B) }
fn need<T: std::iter::TrustedLen>(_: T) {}
fn main() { need(E::<Liar, Liar>::A(Liar)); need(E::<Liar, Liar>::B(Liar)); }
'''),
dict(id='s08', property='C08',
 needs='A build with only the tokio03 feature enabled.',
 what='tokio03::AsyncBufRead is only available when the tokio02 feature is enabled as well.',
 edits=[('src/enum_derive.rs', '''        #[cfg(feature = "tokio03")]
        external::tokio03::async_buf_read,''', '''        #[cfg(all(feature = "tokio03", feature = "tokio02"))]
        external::tokio03::async_buf_read,''')],
 features=['std','tokio03'], expect='pass',
 main=r'''
#![allow(dead_code)]
extern crate self as tokio;
pub mod io {
    use std::{pin::Pin, task::{Context, Poll}};
    pub trait AsyncBufRead {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>>;
        fn consume(self: Pin<&mut Self>, amt: usize);
    }
}
#[auto_enums::enum_derive(tokio03::AsyncBufRead)]
enum E<A, B> { A(A), B(B) }
fn main() {}
'''),
dict(id='s09', property='C06',
 needs='A user who asks for the standard derive by its full path, e.g. `std::fmt::Debug`.',
 what='`std::fmt::Debug` is no longer passed to #[derive] but replaced by the delegating impl.',
 edits=[('src/enum_derive.rs', '''            p.to_token_stream().to_string().replace(' ', "")''', '''            let s = p.to_token_stream().to_string().replace(' ', "");
            s.strip_prefix("std::").map(str::to_owned).unwrap_or(s)''')],
 features=['std'], expect='run',
 main=r'''
#[auto_enums::enum_derive(std::fmt::Debug)]
enum E<A, B> { A(A), B(B) }
fn main() {
    assert_eq!(format!("{:?}", E::<u8, u8>::A(1)), "A(1)");
    assert_eq!(format!("{:?}", E::<u8, u8>::B(1)), "B(1)");
}
'''),
]
