use crate::*;
use futures::{Async, AsyncSink, Future as Fut1, Sink, StartSend, Stream, Poll as Poll1};
fn ans<T>(r: &mut R, v: T) -> Poll1<T, String> {
    match r.n(3) {
        0 => Err(format!("e{}", r.n(100))),
        1 => Ok(Async::NotReady),
        _ => Ok(Async::Ready(v)),
    }
}
impl<const K: u64> Fut1 for P<K> {
    type Item = u64;
    type Error = String;
    fn poll(&mut self) -> Poll1<u64, String> {
        let mut r = self.c("Future::poll", format_args!(""));
        let n = r.n(100);
        ans(&mut r, n)
    }
}
impl<const K: u64> Stream for P<K> {
    type Item = Pay<8>;
    type Error = String;
    fn poll(&mut self) -> Poll1<Option<Pay<8>>, String> {
        let mut r = self.c("Stream::poll", format_args!(""));
        let n = if r.b(1, 4) { None } else { Some(Pay(r.n(100))) };
        ans(&mut r, n)
    }
}
impl<const K: u64> Sink for P<K> {
    type SinkItem = Pay<9>;
    type SinkError = String;
    fn start_send(&mut self, item: Pay<9>) -> StartSend<Pay<9>, String> {
        let mut r = self.c("start_send", format_args!("{item:?}"));
        match r.n(3) {
            0 => Ok(AsyncSink::NotReady(item)),
            1 => Err(format!("e{}", r.n(50))),
            _ => Ok(AsyncSink::Ready),
        }
    }
    fn poll_complete(&mut self) -> Poll1<(), String> {
        let mut r = self.c("poll_complete", format_args!(""));
        ans(&mut r, ())
    }
    fn close(&mut self) -> Poll1<(), String> {
        let mut r = self.c("close", format_args!(""));
        ans(&mut r, ())
    }
}
pub fn fut1_op<T: Fut1>(t: &mut T, d: &mut D) where T::Item: Debug, T::Error: Debug {
    note("Future::poll", Fut1::poll(t))
}
pub fn stream1_op<T: Stream>(t: &mut T, d: &mut D) where T::Item: Debug, T::Error: Debug {
    note("Stream::poll", Stream::poll(t))
}
pub fn sink1_op<T: Sink<SinkItem = Pay<9>>>(t: &mut T, d: &mut D) where T::SinkError: Debug {
    match d.r.n(4) {
        0 | 1 => {
            let i = d.r.n(100);
            match t.start_send(Pay(i)) {
                Ok(AsyncSink::Ready) => log("ready".into()),
                Ok(AsyncSink::NotReady(i)) => note("notready", i),
                Err(e) => note("err", e),
            }
        }
        2 => note("poll_complete", t.poll_complete()),
        _ => note("close", t.close()),
    }
}
pub fn fut1_end<T: Fut1>(t: T, d: &mut D) where T::Item: Debug, T::Error: Debug {
    let mut f = t.map(|x| log(format!("{x:?}")));
    note("map.poll", Fut1::poll(&mut f));
}
pub fn stream1_end<T: Stream>(t: T, d: &mut D) where T::Item: Debug, T::Error: Debug {
    let mut s = t.take(2);
    note("take.poll", Stream::poll(&mut s));
    note("take.poll", Stream::poll(&mut s));
}
