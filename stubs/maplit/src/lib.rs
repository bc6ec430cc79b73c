//! Stand-in: the two macros the index cache uses.
#[macro_export]
macro_rules! hashmap { ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = ::std::collections::HashMap::new(); $(m.insert($k, $v);)* m }} }
#[macro_export]
macro_rules! btreemap { ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = ::std::collections::BTreeMap::new(); $(m.insert($k, $v);)* m }} }
