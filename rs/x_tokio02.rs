use crate::*;
use std::mem::MaybeUninit;
use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
include!("x_tokiow.inc");
impl<const K: u64> AsyncRead for P<K> {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [MaybeUninit<u8>]) -> bool {
        let mut r = self.c("prepare_uninitialized_buffer", format_args!("{}", buf.len()));
        for b in buf {
            *b = MaybeUninit::new(r.n(256) as u8);
        }
        r.b(1, 2)
    }
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut r = self.as_ref().pc("poll_read", format_args!("cx{} {buf:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.us(buf.len() + 1);
        buf[..n].iter_mut().for_each(|b| *b = r.n(256) as u8);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
}
impl<const K: u64> AsyncSeek for P<K> {
    fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<()>> {
        let mut r = self.as_ref().pc("start_seek", format_args!("cx{} {pos:?}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = io_res(&mut r, ());
        poll_of(&mut r, v)
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let mut r = self.as_ref().pc("poll_complete", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let n = r.n(1000);
        let v = io_res(&mut r, n);
        poll_of(&mut r, v)
    }
}
pub fn ard_op<T: AsyncRead>(t: Pin<&mut T>, d: &mut D) {
    if d.r.b(1, 3) {
        let mut b = vec![MaybeUninit::new(7u8); d.r.us(7)];
        let r = unsafe { t.prepare_uninitialized_buffer(&mut b) };
        note("prepare", r);
        note("buf", b.iter().map(|b| unsafe { b.assume_init() }).collect::<Vec<u8>>());
    } else {
        let mut b = vec![0xAA; d.r.us(7)];
        let r = with_cx(d, |cx| t.poll_read(cx, &mut b));
        note_pio("poll_read", r);
        note("buf", b)
    }
}
pub fn ask_op<T: AsyncSeek>(t: Pin<&mut T>, d: &mut D) {
    let n = d.r.n(40);
    let p = *d.r.pick(&[SeekFrom::Start(n), SeekFrom::Current(n as i64 - 20), SeekFrom::End(n as i64 - 30)]);
    if d.r.b(1, 2) {
        note_pio("start_seek", with_cx(d, |cx| t.start_seek(cx, p)))
    } else {
        note_pio("poll_complete", with_cx(d, |cx| t.poll_complete(cx)))
    }
}
