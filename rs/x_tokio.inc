// poll_read etc. with ReadBuf (tokio 0.3 and 1)
impl<const K: u64> AsyncRead for P<K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("poll_read", format_args!("cx{} {:?} {}", cxs(cx), buf.filled(), buf.remaining()));
        self.wakes(&mut r, cx);
        let n = r.us(buf.remaining() + 1);
        for _ in 0..n {
            buf.put_slice(&[r.n(256) as u8]);
        }
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncSeek for P<K> {
    fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> io::Result<()> {
        let mut r = self.as_ref().pc("start_seek", format_args!("{pos:?}"));
        io_res(&mut r, ())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let mut r = self.as_ref().pc("poll_complete", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.n(1000);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
}
pub fn ard_op<T: AsyncRead>(t: Pin<&mut T>, d: &mut D) {
    let mut b = vec![0xAA; d.r.us(9)];
    let pre = d.r.us(b.len() + 1);
    let mut rb = ReadBuf::new(&mut b);
    rb.set_filled(pre);
    let r = with_cx(d, |cx| t.poll_read(cx, &mut rb));
    note_pio("poll_read", r);
    note("filled", rb.filled().to_vec());
    note("buf", b)
}
pub fn ask_op<T: AsyncSeek>(t: Pin<&mut T>, d: &mut D) {
    let n = d.r.n(40);
    let p = *d.r.pick(&[SeekFrom::Start(n), SeekFrom::Current(n as i64 - 20), SeekFrom::End(n as i64 - 30)]);
    if d.r.b(1, 2) {
        note_io("start_seek", t.start_seek(p))
    } else {
        note_pio("poll_complete", with_cx(d, |cx| t.poll_complete(cx)))
    }
}
