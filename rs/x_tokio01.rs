use crate::*;
use tokio::io::{AsyncRead, AsyncWrite};
use tokio::prelude::{Async, Poll as Poll1};
fn ans<T>(r: &mut R, v: T) -> Poll1<T, io::Error> {
    match r.n(3) {
        0 => Err(io_err(r)),
        1 => Ok(Async::NotReady),
        _ => Ok(Async::Ready(v)),
    }
}
fn note1<T: Debug>(w: &str, r: Poll1<T, io::Error>) {
    match r {
        Ok(Async::Ready(v)) => note(w, v),
        Ok(_) => log(format!("{w} = NotReady")),
        Err(e) => log(format!("{w} = Err({:?}, {e})", e.kind())),
    }
}
impl<const K: u64> AsyncRead for P<K> {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [u8]) -> bool {
        let mut r = self.c("prepare_uninitialized_buffer", format_args!("{}", buf.len()));
        for b in buf {
            *b = r.n(256) as u8;
        }
        r.b(1, 2)
    }
    fn poll_read(&mut self, buf: &mut [u8]) -> Poll1<usize, io::Error> {
        let mut r = self.c("poll_read", format_args!("{buf:?}"));
        let n = r.us(buf.len() + 1);
        buf[..n].iter_mut().for_each(|b| *b = r.n(256) as u8);
        ans(&mut r, n)
    }
}
impl<const K: u64> AsyncWrite for P<K> {
    fn poll_write(&mut self, buf: &[u8]) -> Poll1<usize, io::Error> {
        let mut r = self.c("poll_write", format_args!("{buf:?}"));
        let n = r.us(buf.len() + 1);
        ans(&mut r, n)
    }
    fn poll_flush(&mut self) -> Poll1<(), io::Error> {
        let mut r = self.c("poll_flush", format_args!(""));
        ans(&mut r, ())
    }
    fn shutdown(&mut self) -> Poll1<(), io::Error> {
        let mut r = self.c("shutdown", format_args!(""));
        ans(&mut r, ())
    }
}
pub fn ard_op<T: AsyncRead>(t: &mut T, d: &mut D) {
    let mut b = vec![0xAA; d.r.us(7)];
    if d.r.b(1, 3) {
        note("prepare", unsafe { t.prepare_uninitialized_buffer(&mut b) });
    } else {
        note1("poll_read", t.poll_read(&mut b));
    }
    note("buf", b)
}
pub fn awr_op<T: AsyncWrite>(t: &mut T, d: &mut D) {
    let b = d.r.bytes(6);
    match d.r.n(4) {
        0 | 1 => note1("poll_write", t.poll_write(&b)),
        2 => note1("poll_flush", t.poll_flush()),
        _ => note1("shutdown", t.shutdown()),
    }
}
