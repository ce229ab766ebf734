use crate::*;
use serde::ser::*;
/// A serializer that logs each call and fails after a number of them.
pub struct S(pub u64, pub bool);
#[derive(Debug)]
pub struct SErr(String);
impl Display for SErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SErr {}
impl Error for SErr {
    fn custom<T: Display>(m: T) -> Self {
        log(format!("custom {m}"));
        SErr(m.to_string())
    }
}
thread_local!(static LEFT: RefCell<u64> = const { RefCell::new(0) });
fn hit(s: String) -> Result<u64, SErr> {
    log(format!("ser {s}"));
    LEFT.with(|l| {
        let mut l = l.borrow_mut();
        if *l == 0 {
            return Err(SErr(format!("full at {s}")));
        }
        *l -= 1;
        Ok(*l)
    })
}
macro_rules! prim { ($($f:ident $t:ty,)*) => { $(fn $f(self, v: $t) -> Result<u64, SErr> { hit(format!("{} {v:?}", stringify!($f))) })* } }
impl Serializer for S {
    type Ok = u64;
    type Error = SErr;
    type SerializeSeq = S;
    type SerializeTuple = S;
    type SerializeTupleStruct = S;
    type SerializeTupleVariant = S;
    type SerializeMap = S;
    type SerializeStruct = S;
    type SerializeStructVariant = S;
    prim! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
        serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str, }
    fn serialize_none(self) -> Result<u64, SErr> { hit("none".into()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<u64, SErr> { hit("some".into())?; v.serialize(S(self.0 + 1, self.1)) }
    fn serialize_unit(self) -> Result<u64, SErr> { hit("unit".into()) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<u64, SErr> { hit(format!("unit_variant {n} {i} {v}")) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<u64, SErr> { hit(format!("newtype {n}"))?; v.serialize(S(self.0 + 1, self.1)) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, va: &'static str, v: &T) -> Result<u64, SErr> { hit(format!("newtype_variant {n} {i} {va}"))?; v.serialize(S(self.0 + 1, self.1)) }
    fn serialize_seq(self, n: Option<usize>) -> Result<S, SErr> { hit(format!("seq {n:?}"))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<S, SErr> { hit(format!("tuple {n}"))?; Ok(self) }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<S, SErr> { hit(format!("tuple_struct {n} {l}"))?; Ok(self) }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<S, SErr> { hit(format!("tuple_variant {n} {i} {v} {l}"))?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<S, SErr> { hit(format!("map {n:?}"))?; Ok(self) }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<S, SErr> { hit(format!("struct {n} {l}"))?; Ok(self) }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<S, SErr> { hit(format!("struct_variant {n} {i} {v} {l}"))?; Ok(self) }
    fn collect_str<T: Display + ?Sized>(self, v: &T) -> Result<u64, SErr> { hit(format!("collect_str {v}")) }
    fn is_human_readable(&self) -> bool { self.1 }
}
macro_rules! comp { ($($tr:ident $f:ident,)*) => { $(
    impl $tr for S {
        type Ok = u64;
        type Error = SErr;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> { hit(stringify!($f).into())?; v.serialize(S(self.0 + 1, self.1)).map(drop) }
        fn end(self) -> Result<u64, SErr> { hit(concat!(stringify!($tr), " end").into()) }
    }
)* } }
comp! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field, }
impl SerializeMap for S {
    type Ok = u64;
    type Error = SErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> { hit("key".into())?; v.serialize(S(self.0 + 1, self.1)).map(drop) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> { hit("value".into())?; v.serialize(S(self.0 + 1, self.1)).map(drop) }
    fn end(self) -> Result<u64, SErr> { hit("map end".into()) }
}
macro_rules! st { ($($tr:ident)*) => { $(
    impl $tr for S {
        type Ok = u64;
        type Error = SErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SErr> { hit(format!("field {k}"))?; v.serialize(S(self.0 + 1, self.1)).map(drop) }
        fn end(self) -> Result<u64, SErr> { hit("struct end".into()) }
    }
)* } }
st!(SerializeStruct SerializeStructVariant);

impl<const K: u64> Serialize for P<K> {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        let mut r = self.c("serialize", format_args!("{}", s.is_human_readable()));
        match r.n(10) {
            0 => s.serialize_u64(r.n(100)),
            1 => s.serialize_str(&self.text),
            2 => s.collect_seq(self.arr),
            3 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry("a", &r.n(10))?;
                m.serialize_entry(&3u8, &self.text)?;
                m.end()
            }
            4 => {
                let mut m = s.serialize_struct("St", 2)?;
                m.serialize_field("a", &r.n(10))?;
                m.serialize_field("b", &Some(self.text.as_str()))?;
                m.end()
            }
            5 => s.serialize_unit_variant("En", 1, "Va"),
            6 => s.serialize_newtype_variant("En", 2, "Vb", &self.arr[0]),
            7 => Err(Z::Error::custom(format!("no{}", r.n(50)))),
            8 => s.collect_str(&format_args!("<{}>", r.n(50))),
            _ => s.serialize_bytes(self.text.as_bytes()),
        }
    }
}
pub fn ser_op<T: Serialize>(t: &T, d: &mut D) {
    let n = if d.r.b(1, 3) { d.r.n(5) } else { 1000 };
    LEFT.with(|l| *l.borrow_mut() = n);
    let hr = d.r.b(1, 2);
    let r = match d.r.n(4) {
        0 => vec![t, t].serialize(S(0, hr)),
        1 => Some(t).serialize(S(0, hr)),
        _ => t.serialize(S(0, hr)),
    };
    note("serialized", r)
}
