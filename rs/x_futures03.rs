use crate::*;
use futures::{io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite}, sink::Sink, stream::Stream};

impl<const K: u64> Stream for P<K> {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let mut r = self.as_ref().pc("poll_next", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = if r.b(1, 4) { None } else { Some(r.n(100)) };
        poll_of(&mut r, v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut r = self.c("Stream::size_hint", format_args!(""));
        (r.us(10), if r.b(1, 2) { None } else { Some(10 + r.us(20)) })
    }
}
macro_rules! sink { ($ty:ty, $n:literal, $i:ident => $fmt:expr) => {
    impl<const K: u64> Sink<$ty> for P<K> {
        type Error = String;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            let r = self.as_ref().pc(concat!("poll_ready ", $n), format_args!("cx{}", cxs(cx)));
            self.ans(r, cx)
        }
        fn start_send(self: Pin<&mut Self>, $i: $ty) -> Result<(), String> {
            let mut r = self.as_ref().pc(concat!("start_send ", $n), format_args!("{}", $fmt));
            if r.b(1, 3) { Err(format!("e{}", r.n(99))) } else { Ok(()) }
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            let r = self.as_ref().pc(concat!("poll_flush ", $n), format_args!("cx{}", cxs(cx)));
            self.ans(r, cx)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            let r = self.as_ref().pc(concat!("poll_close ", $n), format_args!("cx{}", cxs(cx)));
            self.ans(r, cx)
        }
    }
} }
sink!(u64, "u64", i => i);
sink!(Pay<9>, "pay", i => format!("{i:?}"));
impl<const K: u64> P<K> {
    fn ans(&self, mut r: R, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        self.wakes(&mut r, cx);
        let v = if r.b(1, 3) { Err(format!("e{}", r.n(99))) } else { Ok(()) };
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncRead for P<K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_read", format_args!("cx{} {buf:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(buf.len() + 1);
        buf[..n].iter_mut().for_each(|b| *b = r.n(256) as u8);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_read_vectored", format_args!("cx{} {:?}", cxs(cx), bufs.iter().map(|b| b.len()).collect::<Vec<_>>()));
        self.wakes(&mut r, cx);
        let mut n = 0;
        for b in bufs.iter_mut() {
            b.iter_mut().for_each(|b| *b = r.n(256) as u8);
            n += b.len();
        }
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncWrite for P<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_write", format_args!("cx{} {buf:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(buf.len() + 1);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_write_vectored", format_args!("cx{} {bufs:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(40);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("io poll_flush", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("io poll_close", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncSeek for P<K> {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        let mut r = self.as_ref().pc("poll_seek", format_args!("cx{} {pos:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.n(1000);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncBufRead for P<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let mut r = self.as_ref().pc("poll_fill_buf", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        if r.b(1, 4) {
            return Poll::Pending;
        }
        if r.b(1, 4) {
            return Poll::Ready(Err(io_err(&mut r)));
        }
        let n = r.us(self.text.len() + 1);
        let s = &unsafe { self.get_unchecked_mut() }.text.as_bytes()[..n];
        set_last(s);
        Poll::Ready(Ok(s))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.as_ref().pc("consume", format_args!("{amt}"));
    }
}

pub fn stream_op<T: Stream>(mut t: Pin<&mut T>, d: &mut D)
where
    T::Item: Debug,
{
    match d.r.n(4) {
        0 => note("size_hint", t.size_hint()),
        1 => {
            use futures::stream::StreamExt;
            let r = with_cx(d, |cx| t.next().poll_unpin_(cx));
            note("next()", r)
        }
        _ => {
            let r = with_cx(d, |cx| t.poll_next(cx));
            note("poll_next", r)
        }
    }
}
trait PollUnpin: Future + Unpin {
    fn poll_unpin_(mut self, cx: &mut Context<'_>) -> Poll<Self::Output> where Self: Sized {
        Pin::new(&mut self).poll(cx)
    }
}
impl<T: Future + Unpin> PollUnpin for T {}
pub fn sink_op<T: Sink<u64> + Sink<Pay<9>>>(t: Pin<&mut T>, d: &mut D)
where
    <T as Sink<u64>>::Error: Debug,
    <T as Sink<Pay<9>>>::Error: Debug,
{
    let i = d.r.n(1000);
    match d.r.n(8) {
        0 => note("ready", with_cx(d, |cx| Sink::<u64>::poll_ready(t, cx))),
        1 => note("send", Sink::<u64>::start_send(t, i)),
        2 => note("flush", with_cx(d, |cx| Sink::<u64>::poll_flush(t, cx))),
        3 => note("close", with_cx(d, |cx| Sink::<u64>::poll_close(t, cx))),
        4 => note("ready", with_cx(d, |cx| Sink::<Pay<9>>::poll_ready(t, cx))),
        5 => note("send", Sink::<Pay<9>>::start_send(t, Pay(i))),
        6 => note("flush", with_cx(d, |cx| Sink::<Pay<9>>::poll_flush(t, cx))),
        _ => note("close", with_cx(d, |cx| Sink::<Pay<9>>::poll_close(t, cx))),
    }
}
pub fn sink1_op<T: Sink<u64>>(t: Pin<&mut T>, d: &mut D)
where
    <T as Sink<u64>>::Error: Debug,
{
    let i = d.r.n(1000);
    match d.r.n(4) {
        0 => note("ready", with_cx(d, |cx| t.poll_ready(cx))),
        1 => note("send", t.start_send(i)),
        2 => note("flush", with_cx(d, |cx| t.poll_flush(cx))),
        _ => note("close", with_cx(d, |cx| t.poll_close(cx))),
    }
}
pub fn ard_op<T: AsyncRead>(t: Pin<&mut T>, d: &mut D) {
    if d.r.b(1, 2) {
        let mut b = vec![0xAA; d.r.us(7)];
        let r = with_cx(d, |cx| t.poll_read(cx, &mut b));
        note_pio("poll_read", r);
        note("buf", b)
    } else {
        let (mut a, mut b) = (vec![1u8; d.r.us(5)], vec![2u8; d.r.us(5)]);
        let r = with_cx(d, |cx| t.poll_read_vectored(cx, &mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)]));
        note_pio("poll_read_vectored", r);
        note("bufs", (a, b))
    }
}
pub fn awr_op<T: AsyncWrite>(t: Pin<&mut T>, d: &mut D) {
    let b = d.r.bytes(6);
    let c = d.r.bytes(6);
    match d.r.n(5) {
        0 | 1 => note_pio("write", with_cx(d, |cx| t.poll_write(cx, &b))),
        2 => note_pio("write_vectored", with_cx(d, |cx| t.poll_write_vectored(cx, &[IoSlice::new(&b), IoSlice::new(&c)]))),
        3 => note_pio("flush", with_cx(d, |cx| t.poll_flush(cx))),
        _ => note_pio("close", with_cx(d, |cx| t.poll_close(cx))),
    }
}
pub fn ask_op<T: AsyncSeek>(t: Pin<&mut T>, d: &mut D) {
    let n = d.r.n(40);
    let p = *d.r.pick(&[SeekFrom::Start(n), SeekFrom::Current(n as i64 - 20), SeekFrom::End(n as i64 - 30)]);
    note_pio("seek", with_cx(d, |cx| t.poll_seek(cx, p)))
}
pub fn abr_op<T: AsyncBufRead>(mut t: Pin<&mut T>, d: &mut D) {
    let r = with_cx(d, |cx| t.as_mut().poll_fill_buf(cx).map(|r| r.map(|b| (b.to_vec(), is_last(b)))));
    let n = if let Poll::Ready(Ok((b, _))) = &r { b.len() } else { 0 };
    note_pio("fill_buf", r);
    if d.r.b(1, 2) {
        let k = d.r.us(n + 1);
        t.consume(k);
    }
}
