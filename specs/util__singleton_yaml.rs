#![allow(dead_code, unused)]
use super::*;

pub fn to_writer<W: std::io::Write, T: ?Sized + Serialize>(writer: W, value: &T) -> Result<()> {
    let mut ser = Serializer::new(writer);
    singleton_map_recursive::serialize(&value, &mut ser)
}

pub fn to_vec<T: ?Sized + Serialize>(value: &T) -> Result<Vec<u8>> {
    let mut out = Vec::with_capacity(128);
    super::to_writer(&mut out, value)?;
    Ok(out)
}

pub fn to_string<T: ?Sized + Serialize>(value: &T) -> Result<String> {
    let bytes = super::to_vec(value)?;
    Ok(unsafe { String::from_utf8_unchecked(bytes) })
}

pub fn from_str<'de, T: Deserialize<'de>>(s: &'de str) -> Result<T> {
    singleton_map_recursive::deserialize(Deserializer::from_str(s))
}

pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(rdr: R) -> Result<T> {
    singleton_map_recursive::deserialize(Deserializer::from_reader(rdr))
}

pub fn from_slice<'de, T: Deserialize<'de>>(v: &'de [u8]) -> Result<T> {
    singleton_map_recursive::deserialize(Deserializer::from_slice(v))
}
