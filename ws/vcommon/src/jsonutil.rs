//! A view of JSON text that keeps what serde_json::Value drops: repeated member names.
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::fmt;

/// True if no object in the text, at any depth, has two members of the same name. Err: not JSON.
pub fn no_duplicates(s: &str) -> Result<bool, String> {
    struct D(bool);
    struct V;
    impl<'de> Deserialize<'de> for D {
        fn deserialize<T: Deserializer<'de>>(d: T) -> Result<D, T::Error> {
            d.deserialize_any(V)
        }
    }
    impl<'de> Visitor<'de> for V {
        type Value = D;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("json")
        }
        fn visit_bool<E: de::Error>(self, _: bool) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_u64<E: de::Error>(self, _: u64) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_i64<E: de::Error>(self, _: i64) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_f64<E: de::Error>(self, _: f64) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_str<E: de::Error>(self, _: &str) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_unit<E: de::Error>(self) -> Result<D, E> {
            Ok(D(true))
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
            let mut ok = true;
            while let Some(D(b)) = a.next_element()? {
                ok &= b
            }
            Ok(D(ok))
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
            let mut seen = std::collections::HashSet::new();
            let mut ok = true;
            while let Some(k) = a.next_key::<String>()? {
                ok &= seen.insert(k);
                ok &= a.next_value::<D>()?.0;
            }
            Ok(D(ok))
        }
    }
    serde_json::from_str::<D>(s).map(|d| d.0).map_err(|e| e.to_string())
}
