// AsyncWrite and AsyncBufRead, the same in tokio 0.2, 0.3 and 1
impl<const K: u64> AsyncWrite for P<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_write", format_args!("cx{} {buf:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(buf.len() + 1);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("poll_flush", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("poll_shutdown", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
    #[cfg(fx = "tokio1")]
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_write_vectored", format_args!("cx{} {bufs:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(40);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
    #[cfg(fx = "tokio1")]
    fn is_write_vectored(&self) -> bool {
        self.c("is_write_vectored", format_args!("")).b(1, 2)
    }
}
impl<const K: u64> AsyncBufRead for P<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let mut r = self.as_ref().pc("poll_fill_buf", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        if r.b(1, 4) {
            return Poll::Pending;
        }
        if r.b(1, 4) {
            return Poll::Ready(Err(io_err(&mut r)));
        }
        let n = r.us(self.text.len() + 1);
        let s = &unsafe { self.get_unchecked_mut() }.text.as_bytes()[..n];
        set_last(s);
        Poll::Ready(Ok(s))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.as_ref().pc("consume", format_args!("{amt}"));
    }
}
pub fn awr_op<T: AsyncWrite>(t: Pin<&mut T>, d: &mut D) {
    let b = d.r.bytes(6);
    let c = d.r.bytes(6);
    match d.r.n(if cfg!(fx = "tokio1") { 7 } else { 5 }) {
        0 | 1 | 2 => note_pio("write", with_cx(d, |cx| t.poll_write(cx, &b))),
        3 => note_pio("flush", with_cx(d, |cx| t.poll_flush(cx))),
        4 => note_pio("shutdown", with_cx(d, |cx| t.poll_shutdown(cx))),
        #[cfg(fx = "tokio1")]
        5 => note_pio("write_vectored", with_cx(d, |cx| t.poll_write_vectored(cx, &[IoSlice::new(&b), IoSlice::new(&c)]))),
        #[cfg(fx = "tokio1")]
        _ => note("is_write_vectored", t.is_write_vectored()),
        #[cfg(not(fx = "tokio1"))]
        _ => {}
    }
}
pub fn abr_op<T: AsyncBufRead>(mut t: Pin<&mut T>, d: &mut D) {
    let r = with_cx(d, |cx| t.as_mut().poll_fill_buf(cx).map(|r| r.map(|b| (b.to_vec(), is_last(b)))));
    let n = if let Poll::Ready(Ok((b, _))) = &r { b.len() } else { 0 };
    note_pio("fill_buf", r);
    if d.r.b(1, 2) {
        let k = d.r.us(n + 1);
        t.consume(k);
    }
}
