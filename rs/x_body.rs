use crate::*;
use http_body::{Body, Frame, SizeHint};
impl<const K: u64> Body for P<K> {
    type Data = io::Cursor<Vec<u8>>;
    type Error = String;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Self::Data>, String>>> {
        let mut r = self.as_ref().pc("poll_frame", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        match r.n(6) {
            0 => Poll::Pending,
            1 => Poll::Ready(None),
            2 => Poll::Ready(Some(Err(format!("e{}", r.n(100))))),
            3 => Poll::Ready(Some(Ok(Frame::trailers(Default::default())))),
            _ => Poll::Ready(Some(Ok(Frame::data(io::Cursor::new(r.bytes(5)))))),
        }
    }
    fn is_end_stream(&self) -> bool {
        self.c("is_end_stream", format_args!("")).b(1, 2)
    }
    fn size_hint(&self) -> SizeHint {
        let mut r = self.c("Body::size_hint", format_args!(""));
        let mut h = SizeHint::new();
        h.set_lower(r.n(50));
        if r.b(1, 2) {
            h.set_upper(50 + r.n(50));
        }
        h
    }
}
pub fn body_op<T: Body>(t: Pin<&mut T>, d: &mut D) where T::Data: Debug, T::Error: Debug {
    match d.r.n(4) {
        0 => note("end", t.is_end_stream()),
        1 => {
            let h = t.size_hint();
            note("hint", (h.lower(), h.upper(), h.exact()))
        }
        _ => {
            let r = with_cx(d, |cx| t.poll_frame(cx));
            match r {
                Poll::Ready(Some(Ok(f))) if f.is_trailers() => log("trailers".into()),
                Poll::Ready(Some(Ok(f))) => note("data", f.into_data().ok()),
                Poll::Ready(Some(Err(e))) => note("error", e),
                Poll::Ready(None) => log("end".into()),
                Poll::Pending => log("pending".into()),
            }
        }
    }
}
