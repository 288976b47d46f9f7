use alloc::collections::BTreeMap;
use core::ops::Deref;
use serde::{Deserialize, Serialize};

/// A wrapper over a map that serializes as a list of pairs.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct SerializableMap<K, V>(BTreeMap<K, V>);

impl<K, V> SerializableMap<K, V> {
    pub fn into_inner(self) -> BTreeMap<K, V> {
        self.0
    }
}
impl<K, V> Deref for SerializableMap<K, V> {
    type Target = BTreeMap<K, V>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> core::ops::DerefMut for SerializableMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
    fn from(source: SerializableMap<K, V>) -> Self {
        source.0
    }
}
impl<K, V> AsRef<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn as_ref(&self) -> &BTreeMap<K, V> {
        &self.0
    }
}
impl<K, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn from(source: BTreeMap<K, V>) -> Self {
        Self(source)
    }
}
impl<K, V> IntoIterator for SerializableMap<K, V> {
    type Item = (K, V);
    type IntoIter = alloc::collections::btree_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<K: Serialize + Ord, V: Serialize> Serialize for SerializableMap<K, V> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.collect_seq(self.0.iter())
    }
}
impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let v = alloc::vec::Vec::<(K, V)>::deserialize(deserializer)?;
        let n = v.len();
        let map: BTreeMap<K, V> = v.into_iter().collect();
        if map.len() != n {
            return Err(serde::de::Error::custom("duplicate keys"));
        }
        Ok(Self(map))
    }
}
