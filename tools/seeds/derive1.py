SEEDS = [
dict(id='s01', property='C01',
 needs='A user of tokio 1 AsyncWrite who shuts a derived writer down; the payload must distinguish shutdown from flush.',
 what='tokio1 AsyncWrite: poll_shutdown of the derived enum flushes the payload instead of shutting it down.',
 edits=[('src/derive/external/tokio1.rs', '#ident::#v(x) => <#ty as #trait_>::poll_shutdown(#pin::new_unchecked(x), cx),',
         '#ident::#v(x) => <#ty as #trait_>::poll_flush(#pin::new_unchecked(x), cx),')],
 features=['std','tokio1'],
 main=r'''
#![allow(dead_code)]
extern crate self as tokio;
pub mod io {
    use std::{pin::Pin, task::{Context, Poll}};
    pub trait AsyncWrite {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>>;
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>>;
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>>;
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
            let _ = (cx, bufs); Poll::Ready(Ok(0))
        }
        fn is_write_vectored(&self) -> bool { false }
    }
}
use std::{pin::Pin, task::{Context, Poll}};
struct W(bool);
impl io::AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.0 = true; Poll::Ready(Ok(())) }
}
#[auto_enums::enum_derive(tokio1::AsyncWrite)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let waker = std::task::Waker::noop();
    let mut cx = Context::from_waker(&waker);
    let mut e: E<W, W> = E::A(W(false));
    assert!(matches!(io::AsyncWrite::poll_shutdown(Pin::new(&mut e), &mut cx), Poll::Ready(Ok(()))));
    let E::A(w) = e else { panic!() };
    assert!(w.0, "payload was not shut down");
    let _ = E::<W, W>::B(W(false));
}
'''),
dict(id='s02', property='C02',
 needs='A payload iterator that overrides nth_back with an observably different implementation (e.g. constant time, or counting), used through the derived enum.',
 what='DoubleEndedIterator: nth_back is silently left to the trait default.',
 edits=[('src/derive/core/iter.rs', '''                    #[inline]
                    fn nth_back(&mut self, n: usize) -> ::core::option::Option<Self::Item>;
''', '')],
 features=['std'],
 main=r'''
use std::cell::Cell;
struct I<'a>(&'a Cell<u32>);
impl Iterator for I<'_> { type Item = u8; fn next(&mut self) -> Option<u8> { None } }
impl DoubleEndedIterator for I<'_> {
    fn next_back(&mut self) -> Option<u8> { None }
    fn nth_back(&mut self, _: usize) -> Option<u8> { self.0.set(self.0.get() + 1); Some(7) }
}
#[auto_enums::enum_derive(DoubleEndedIterator)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let c = Cell::new(0);
    let mut e: E<I<'_>, I<'_>> = E::B(I(&c));
    assert_eq!(e.nth_back(3), Some(7));
    assert_eq!(c.get(), 1);
    let _: E<I<'_>, I<'_>> = E::A(I(&c));
}
'''),
dict(id='s03', property='C05',
 needs='A user enum deriving only tokio03::AsyncSeek with a hand written Drop impl.',
 what='tokio03 AsyncSeek no longer requests the pin-projection safety items, so a Drop impl is accepted for an enum whose payloads are projected.',
 edits=[('src/derive/external/tokio03.rs', '''    pub(crate) const NAME: &[&str] = &["tokio03::AsyncSeek"];

    pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {
        cx.needs_pin_projection();
''', '''    pub(crate) const NAME: &[&str] = &["tokio03::AsyncSeek"];

    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
''')],
 features=['std', 'tokio03'],
 expect='fail:MustNotImplDrop',
 main=r'''
#![allow(dead_code)]
extern crate self as tokio;
pub mod io {
    use std::{pin::Pin, task::{Context, Poll}};
    pub trait AsyncSeek {
        fn start_seek(self: Pin<&mut Self>, position: std::io::SeekFrom) -> std::io::Result<()>;
        fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>>;
    }
}
#[auto_enums::enum_derive(tokio03::AsyncSeek)]
enum E<A, B> { A(A), B(B) }
impl<A, B> Drop for E<A, B> { fn drop(&mut self) {} }
fn main() {}
'''),
dict(id='s04', property='C07',
 needs='BufRead listed under its alias `io::BufRead` without Read.',
 what='The alias `io::BufRead` no longer brings in the required `Read` impl.',
 edits=[('src/enum_derive.rs', '"BufRead" | "io::BufRead" => &["Read"],', '"BufRead" => &["Read"],')],
 features=['std'], expect='run',
 main=r'''
use std::io::{BufRead, Read};
#[auto_enums::enum_derive(io::BufRead)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let mut e: E<&[u8], std::io::Empty> = E::A(&b"ab"[..]);
    let mut s = String::new();
    e.read_line(&mut s).unwrap();
    assert_eq!(s, "ab");
    let mut e: E<&[u8], std::io::Empty> = E::B(std::io::empty());
    assert_eq!(e.read(&mut [0; 4]).unwrap(), 0);
}
'''),
]
