"""What #[enum_derive] promises, frozen from the crate's documentation and from
the definitions of the traits themselves (std, futures, tokio, rayon, serde,
http-body).  Independent of /repo's sources.

method syntax: name/receiver/number of further parameters;
receivers: & (&self)  m (&mut self)  s (self)  p (self: Pin<&mut Self>)
"""


class T:
    def __init__(self, names, feature, path, methods="", gens="", sup="", assoc="", unsafe=False, required=""):
        self.names = names.split()
        self.feature = feature
        self.path = path
        self.gens = gens.split()           # number and bounds of trait generics
        self.sup = sup.split()             # associated types inherited from the supertrait
        self.assoc = assoc.split()
        self.unsafe = unsafe
        self.methods = {}
        for m in methods.split():
            n, r, k = m.split("/")
            self.methods[n] = (r, int(k))
        self.crate = path.split("::")[1]

    @property
    def pinned(self):
        return any(r == "p" for r, _ in self.methods.values())


FMT = "fmt/&/1"
TRAITS = [
    T("AsRef", "convert", "::core::convert::AsRef", "as_ref/&/0", gens="T"),
    T("AsMut", "convert", "::core::convert::AsMut", "as_mut/m/0", gens="T"),
    T("Debug fmt::Debug", None, "::core::fmt::Debug", FMT),
    T("Display fmt::Display", None, "::core::fmt::Display", FMT),
    T("fmt::Binary", "fmt", "::core::fmt::Binary", FMT),
    T("fmt::LowerExp", "fmt", "::core::fmt::LowerExp", FMT),
    T("fmt::LowerHex", "fmt", "::core::fmt::LowerHex", FMT),
    T("fmt::Octal", "fmt", "::core::fmt::Octal", FMT),
    T("fmt::Pointer", "fmt", "::core::fmt::Pointer", FMT),
    T("fmt::UpperExp", "fmt", "::core::fmt::UpperExp", FMT),
    T("fmt::UpperHex", "fmt", "::core::fmt::UpperHex", FMT),
    T("fmt::Write", None, "::core::fmt::Write", "write_str/m/1 write_char/m/1 write_fmt/m/1"),
    T("Iterator", None, "::core::iter::Iterator",
      "next/m/0 size_hint/&/0 count/s/0 last/s/0 nth/m/1 collect/s/0 partition/s/1 fold/s/2 all/m/1 any/m/1 find/m/1 find_map/m/1 position/m/1",
      assoc="Item"),
    T("DoubleEndedIterator", None, "::core::iter::DoubleEndedIterator", "next_back/m/0 nth_back/m/1 rfold/s/2 rfind/m/1", sup="Item"),
    T("ExactSizeIterator", None, "::core::iter::ExactSizeIterator", "len/&/0", sup="Item"),
    T("FusedIterator", None, "::core::iter::FusedIterator", "", sup="Item"),
    T("TrustedLen", "trusted_len", "::core::iter::TrustedLen", "", sup="Item", unsafe=True),
    T("Extend", None, "::core::iter::Extend", "extend/m/1", gens="A"),
    T("Deref", "ops", "::core::ops::Deref", "deref/&/0", assoc="Target"),
    T("DerefMut", "ops", "::core::ops::DerefMut", "deref_mut/m/0", sup="Target"),
    T("Index", "ops", "::core::ops::Index", "index/&/1", gens="I", assoc="Output"),
    T("IndexMut", "ops", "::core::ops::IndexMut", "index_mut/m/1", gens="I", sup="Output"),
    T("RangeBounds", "ops", "::core::ops::RangeBounds", "start_bound/&/0 end_bound/&/0", gens="T"),
    T("Fn", "fn_traits", "::core::ops::Fn", "call/&/1", gens="fn"),
    T("FnMut", "fn_traits", "::core::ops::FnMut", "call_mut/m/1", gens="fn"),
    T("FnOnce", "fn_traits", "::core::ops::FnOnce", "call_once/s/1", gens="fn", assoc="Output"),
    T("Coroutine", "coroutine_trait", "::core::ops::Coroutine", "resume/p/1", gens="R", assoc="Yield Return"),
    T("Future", None, "::core::future::Future", "poll/p/1", assoc="Output"),
    T("Read io::Read", "std", "::std::io::Read", "read/m/1 read_vectored/m/1 read_to_end/m/1 read_to_string/m/1 read_exact/m/1"),
    T("Write io::Write", "std", "::std::io::Write", "write/m/1 write_vectored/m/1 flush/m/0 write_all/m/1 write_fmt/m/1"),
    T("Seek io::Seek", "std", "::std::io::Seek", "seek/m/1"),
    T("BufRead io::BufRead", "std", "::std::io::BufRead", "fill_buf/m/0 consume/m/1 read_until/m/2 read_line/m/1"),
    T("Error error::Error", "std", "::std::error::Error", "description/&/0 source/&/0"),
    T("futures03::Stream", "futures03", "::futures::stream::Stream", "size_hint/&/0 poll_next/p/1", assoc="Item"),
    T("futures03::Sink", "futures03", "::futures::sink::Sink", "poll_ready/p/1 start_send/p/1 poll_flush/p/1 poll_close/p/1", gens="I", assoc="Error"),
    T("futures03::AsyncRead", "futures03", "::futures::io::AsyncRead", "poll_read/p/2 poll_read_vectored/p/2"),
    T("futures03::AsyncWrite", "futures03", "::futures::io::AsyncWrite", "poll_write/p/2 poll_write_vectored/p/2 poll_flush/p/1 poll_close/p/1"),
    T("futures03::AsyncSeek", "futures03", "::futures::io::AsyncSeek", "poll_seek/p/2"),
    T("futures03::AsyncBufRead", "futures03", "::futures::io::AsyncBufRead", "poll_fill_buf/p/1 consume/p/1"),
    T("futures01::Future", "futures01", "::futures::future::Future", "poll/m/0", assoc="Item Error"),
    T("futures01::Stream", "futures01", "::futures::stream::Stream", "poll/m/0", assoc="Item Error"),
    T("futures01::Sink", "futures01", "::futures::sink::Sink", "start_send/m/1 poll_complete/m/0 close/m/0", assoc="SinkItem SinkError"),
    T("rayon::ParallelIterator", "rayon", "::rayon::iter::ParallelIterator", "drive_unindexed/s/1 opt_len/&/0", assoc="Item"),
    T("rayon::IndexedParallelIterator", "rayon", "::rayon::iter::IndexedParallelIterator", "drive/s/1 len/&/0 with_producer/s/1", sup="Item"),
    T("rayon::ParallelExtend", "rayon", "::rayon::iter::ParallelExtend", "par_extend/m/1", gens="T"),
    T("serde::Serialize", "serde", "::serde::ser::Serialize", "serialize/&/1"),
    T("tokio1::AsyncRead", "tokio1", "::tokio::io::AsyncRead", "poll_read/p/2"),
    T("tokio1::AsyncWrite", "tokio1", "::tokio::io::AsyncWrite",
      "is_write_vectored/&/0 poll_write/p/2 poll_flush/p/1 poll_shutdown/p/1 poll_write_vectored/p/2"),
    T("tokio1::AsyncSeek", "tokio1", "::tokio::io::AsyncSeek", "start_seek/p/1 poll_complete/p/1"),
    T("tokio1::AsyncBufRead", "tokio1", "::tokio::io::AsyncBufRead", "poll_fill_buf/p/1 consume/p/1"),
    T("tokio03::AsyncRead", "tokio03", "::tokio::io::AsyncRead", "poll_read/p/2"),
    T("tokio03::AsyncWrite", "tokio03", "::tokio::io::AsyncWrite", "poll_write/p/2 poll_flush/p/1 poll_shutdown/p/1"),
    T("tokio03::AsyncSeek", "tokio03", "::tokio::io::AsyncSeek", "start_seek/p/1 poll_complete/p/1"),
    T("tokio03::AsyncBufRead", "tokio03", "::tokio::io::AsyncBufRead", "poll_fill_buf/p/1 consume/p/1"),
    T("tokio02::AsyncRead", "tokio02", "::tokio::io::AsyncRead", "prepare_uninitialized_buffer/&/1 poll_read/p/2"),
    T("tokio02::AsyncWrite", "tokio02", "::tokio::io::AsyncWrite", "poll_write/p/2 poll_flush/p/1 poll_shutdown/p/1"),
    T("tokio02::AsyncSeek", "tokio02", "::tokio::io::AsyncSeek", "start_seek/p/2 poll_complete/p/1"),
    T("tokio02::AsyncBufRead", "tokio02", "::tokio::io::AsyncBufRead", "poll_fill_buf/p/1 consume/p/1"),
    T("tokio01::AsyncRead", "tokio01", "::tokio::io::AsyncRead", "prepare_uninitialized_buffer/&/1 poll_read/m/1"),
    T("tokio01::AsyncWrite", "tokio01", "::tokio::io::AsyncWrite", "poll_write/m/1 poll_flush/m/0 shutdown/m/0"),
    T("http_body1::Body", "http_body1", "::http_body::Body", "is_end_stream/&/0 size_hint/&/0 poll_frame/p/1", assoc="Data Error"),
]
TRANSPOSE = ("Transpose", "transpose_methods")

BY_NAME = {n: t for t in TRAITS for n in t.names}
UNSTABLE = {"coroutine_trait", "fn_traits", "trusted_len"}
# features of the crate that enable another one
ALIAS_FEATURES = {"generator_trait": "coroutine_trait"}
# same path of different crate versions may stand for the same trait
REQUIRES = {      # companions #[enum_derive] adds, transitively closed, by canonical name
    "Copy": ["Clone"], "Eq": ["PartialEq"], "PartialOrd": ["PartialEq"], "Ord": ["PartialOrd", "Eq", "PartialEq"],
    "DerefMut": ["Deref"], "IndexMut": ["Index"], "Fn": ["FnMut", "FnOnce"], "FnMut": ["FnOnce"],
    "DoubleEndedIterator": ["Iterator"], "ExactSizeIterator": ["Iterator"], "FusedIterator": ["Iterator"], "TrustedLen": ["Iterator"],
    "BufRead": ["Read"], "Error": ["Display", "Debug"],
    "rayon::IndexedParallelIterator": ["rayon::ParallelIterator"],
}
# traits only #[derive] implements: never generated by #[enum_derive]
STD_DERIVES = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
ERROR_SOURCE = ("Error", "source")


def canon(name):
    t = BY_NAME.get(name)
    return t.names[0] if t else name
