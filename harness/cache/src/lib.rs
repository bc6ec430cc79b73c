//! Caches: the real code of /repo/common/cache driven by symbolic operation sequences.
use cache::*;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;

/// Key whose identity is symbolic and whose hash is a separate, chosen class: every equality
/// pattern between keys, and every colliding / non-colliding placement of two classes.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct K {
    class: u8,
    id: u8,
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.class)
    }
}
impl K {
    fn any(classes: usize) -> K {
        K { class: sx::choose(0, classes - 1, "class") as u8, id: sx::usize(0, 3, "id") as u8 }
    }
}

/// Reference LRU: front = least recently used.
struct Model {
    cap: usize,
    v: Vec<(K, u64)>,
}
impl Model {
    fn pos(&self, k: &K) -> Option<usize> {
        (0..self.v.len()).find(|&i| self.v[i].0 == *k)
    }
    fn insert(&mut self, k: K, x: u64) -> Option<u64> {
        match self.pos(&k) {
            Some(i) => {
                let (k, old) = self.v.remove(i);
                self.v.push((k, x));
                Some(old)
            }
            None => {
                if self.v.len() == self.cap {
                    self.v.remove(0);
                }
                self.v.push((k, x));
                None
            }
        }
    }
    fn get(&mut self, k: &K) -> Option<u64> {
        let i = self.pos(k)?;
        let e = self.v.remove(i);
        let r = e.1;
        self.v.push(e);
        Some(r)
    }
    fn remove(&mut self, k: &K) -> Option<u64> {
        let i = self.pos(k)?;
        Some(self.v.remove(i).1)
    }
    fn pop(&mut self) -> Option<(K, u64)> {
        if self.v.is_empty() {
            None
        } else {
            Some(self.v.remove(0))
        }
    }
    fn resize(&mut self, c: usize) {
        self.cap = c;
        while self.v.len() > c {
            self.v.remove(0);
        }
    }
}
fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
fn opt(o: Option<u64>) -> (bool, u64) {
    (o.is_some(), o.unwrap_or(0))
}

trait Api {
    fn insert(&mut self, k: K, v: u64) -> Option<u64>;
    fn get(&mut self, k: &K) -> Option<u64>;
    fn remove(&mut self, k: &K) -> Option<u64>;
    fn pop(&mut self) -> Option<(K, u64)>;
    fn resize(&mut self, n: usize);
    fn usage(&mut self) -> usize;
    fn capacity(&mut self) -> usize;
    fn clear(&mut self);
}
impl Api for LruWrap<K, u64> {
    fn insert(&mut self, k: K, v: u64) -> Option<u64> {
        Cache::insert(self, k, v)
    }
    fn get(&mut self, k: &K) -> Option<u64> {
        Cache::get(self, k)
    }
    fn remove(&mut self, k: &K) -> Option<u64> {
        Cache::remove(self, k)
    }
    fn pop(&mut self) -> Option<(K, u64)> {
        Cache::pop(self)
    }
    fn resize(&mut self, n: usize) {
        Cache::set_capacity(self, nz(n))
    }
    fn usage(&mut self) -> usize {
        Cache::get_usage(self)
    }
    fn capacity(&mut self) -> usize {
        Cache::get_capacity(self)
    }
    fn clear(&mut self) {
        Cache::clear(self)
    }
}
struct S<C>(C);
impl<C: SyncCache<K = K, V = u64>> Api for S<C> {
    fn insert(&mut self, k: K, v: u64) -> Option<u64> {
        self.0.insert(k, v)
    }
    fn get(&mut self, k: &K) -> Option<u64> {
        self.0.get(k)
    }
    fn remove(&mut self, k: &K) -> Option<u64> {
        self.0.remove(k)
    }
    fn pop(&mut self) -> Option<(K, u64)> {
        self.0.pop()
    }
    fn resize(&mut self, n: usize) {
        self.0.set_capacity(nz(n))
    }
    fn usage(&mut self) -> usize {
        self.0.get_usage()
    }
    fn capacity(&mut self) -> usize {
        self.0.get_capacity()
    }
    fn clear(&mut self) {
        self.0.clear()
    }
}
struct A<C>(C);
impl<C: AsyncCache<K = K, V = u64>> Api for A<C> {
    fn insert(&mut self, k: K, v: u64) -> Option<u64> {
        sx::now(self.0.insert(k, v))
    }
    fn get(&mut self, k: &K) -> Option<u64> {
        sx::now(self.0.get(k))
    }
    fn remove(&mut self, k: &K) -> Option<u64> {
        sx::now(self.0.remove(k))
    }
    fn pop(&mut self) -> Option<(K, u64)> {
        sx::now(self.0.pop())
    }
    fn resize(&mut self, n: usize) {
        sx::now(self.0.set_capacity(nz(n)))
    }
    fn usage(&mut self) -> usize {
        sx::now(self.0.get_usage())
    }
    fn capacity(&mut self) -> usize {
        sx::now(self.0.get_capacity())
    }
    fn clear(&mut self) {
        sx::now(self.0.clear())
    }
}

/// Unsharded caches against the reference LRU.
fn exact(c: &mut dyn Api, cap: usize, n: usize) {
    let mut m = Model { cap, v: vec![] };
    for _ in 0..n {
        match sx::choose(0, 5, "op") {
            0 => {
                let (k, v) = (K::any(1), sx::u64("val"));
                let full = m.v.len() == m.cap && m.pos(&k).is_none();
                let r = opt(c.insert(k.clone(), v));
                sx::check!(r == opt(m.insert(k, v)), "insert must return the replaced value");
                if full {
                    sx::cover("evict")
                }
            }
            1 => {
                let k = K::any(1);
                let e = opt(m.get(&k));
                if e.0 {
                    sx::cover("hit")
                }
                let r = opt(c.get(&k));
                sx::trace(r.1);
                sx::check!(r == e, "get must return the last value stored for the key unless it was evicted or removed");
            }
            2 => {
                let k = K::any(1);
                sx::check!(opt(c.remove(&k)) == opt(m.remove(&k)), "remove must return and drop the stored value");
            }
            3 => {
                sx::check!(c.pop() == m.pop(), "pop must return the least recently used entry");
                sx::cover("pop");
            }
            4 => {
                let n = sx::choose(1, 3, "cap");
                c.resize(n);
                m.resize(n);
                sx::check!(c.capacity() == n, "capacity must be what was set");
                sx::cover("resize");
            }
            _ => {
                c.clear();
                m.v.clear();
            }
        }
        sx::check!(c.usage() == m.v.len(), "usage must count the live entries");
        sx::check!(c.usage() <= m.cap, "usage must not exceed capacity");
    }
    // final contents and eviction order
    while let Some(e) = m.pop() {
        sx::check!(c.pop() == Some(e), "remaining entries must leave in least-recently-used order");
    }
    sx::check!(c.pop().is_none(), "nothing is left after the last entry");
}

/// Sharded caches: keys fall in two shards (or one); per shard LRU, so the model is per shard.
fn sharded(c: &mut dyn Api, per: usize, n: usize, exact_pop: bool) {
    let mut m = [Model { cap: per, v: vec![] }, Model { cap: per, v: vec![] }];
    for _ in 0..n {
        match sx::choose(0, 4, "op") {
            0 => {
                let (k, v) = (K::any(2), sx::u64("val"));
                let s = &mut m[k.class as usize];
                if s.v.len() == s.cap && s.pos(&k).is_none() {
                    sx::cover("evict")
                }
                let r = opt(c.insert(k.clone(), v));
                sx::check!(r == opt(s.insert(k, v)), "insert must return the replaced value");
            }
            1 => {
                let k = K::any(2);
                let r = opt(c.get(&k));
                sx::trace(r.1);
                let e = opt(m[k.class as usize].get(&k));
                if e.0 {
                    sx::cover("hit")
                }
                sx::check!(r == e, "get must return the last value stored for the key unless it was evicted or removed");
            }
            2 => {
                let k = K::any(2);
                sx::check!(opt(c.remove(&k)) == opt(m[k.class as usize].remove(&k)), "remove must return and drop the stored value");
            }
            3 => {
                let total = m[0].v.len() + m[1].v.len();
                match c.pop() {
                    None => {
                        if exact_pop {
                            sx::check!(total == 0, "pop on a non-empty cache must return an entry");
                        }
                    }
                    Some((k, v)) => {
                        sx::cover("pop");
                        let e = m[k.class as usize].pop();
                        sx::check!(e == Some((k, v)), "pop must return the least recently used entry of a shard");
                    }
                }
            }
            _ => {
                c.clear();
                m[0].v.clear();
                m[1].v.clear();
            }
        }
        sx::check!(c.usage() == m[0].v.len() + m[1].v.len(), "usage must count the live entries");
        sx::check!(c.usage() <= c.capacity(), "usage must not exceed capacity");
    }
}

sx::harnesses! {
    fn cache_lru() {
        let n = sx::param("ops", 4) as usize;
        let cap = sx::choose(1, 3, "cap0");
        exact(&mut LruWrap::new(nz(cap)), cap, n);
    }
    fn cache_sync() {
        let n = sx::param("ops", 3) as usize;
        let cap = sx::choose(1, 2, "cap0");
        exact(&mut S(SyncCacheWrap::new(LruWrap::new(nz(cap)))), cap, n);
    }
    fn cache_async() {
        let n = sx::param("ops", 3) as usize;
        let cap = sx::choose(1, 2, "cap0");
        exact(&mut A(AsyncCacheWrap::new(LruWrap::new(nz(cap)))), cap, n);
    }
    fn cache_sharded_sync() {
        let n = sx::param("ops", 3) as usize;
        // 16 shards: a requested capacity of 16*p gives p per shard
        let per = sx::choose(1, 2, "per");
        let req = 16 * per - sx::choose(0, 1, "slack") * 15;
        let mut c = S(ShardedSyncCache::create_lru_sharded_cache(req));
        sx::check!(c.capacity() >= req, "the capacity must be at least what was asked for");
        sharded(&mut c, per, n, true);
    }
    fn cache_sharded_async() {
        let n = sx::param("ops", 3) as usize;
        let per = sx::choose(1, 2, "per");
        let req = 16 * per - sx::choose(0, 1, "slack") * 15;
        let mut c = A(ShardedAsyncCache::create_lru_sharded_cache(req));
        sx::check!(c.capacity() >= req, "the capacity must be at least what was asked for");
        sharded(&mut c, per, n, false);
    }
    /// Ring-buffer cache: strictly bounded, evicts the oldest inserted key, range deletes.
    fn cache_ring() {
        let n = sx::param("ops", 4) as usize;
        let cap = sx::choose(1, 3, "cap");
        let mut c: CircularKVCache<RK, u64> = CircularKVCache::new(cap);
        // model: insertion-ordered
        let mut m: Vec<(u8, u64)> = vec![];
        let asc = sx::bool("ascending");
        let mut last = 0u8;
        for _ in 0..n {
            match sx::choose(0, 2, "op") {
                0 => {
                    let k = sx::u8("k");
                    if asc {
                        sx::assume(k > last);
                        last = k;
                    }
                    let v = sx::u64("v");
                    c.put(RK(k), v);
                    match m.iter().position(|e| e.0 == k) {
                        Some(i) => m[i].1 = v,
                        None => {
                            if m.len() == cap {
                                sx::cover("ring-evict");
                                let old = m.remove(0);
                                sx::check!(c.get(&RK(old.0)).is_none(), "a full ring must drop its oldest key");
                            }
                            m.push((k, v))
                        }
                    }
                    sx::check!(c.get(&RK(k)).copied() == Some(v), "a value just put must be readable");
                }
                1 if asc => {
                    let k = sx::u8("cut");
                    c.del_before(RK(k));
                    m.retain(|e| e.0 >= k);
                    sx::cover("del-before");
                }
                _ if asc => {
                    let k = sx::u8("cut");
                    c.del_after(RK(k));
                    m.retain(|e| e.0 < k);
                    last = m.last().map(|e| e.0).unwrap_or(0);
                    sx::cover("del-after");
                }
                _ => sx::stop(),
            }
            for e in &m {
                sx::check!(c.get(&RK(e.0)).copied() == Some(e.1), "every kept key must read its latest value");
            }
            sx::check!(c.last().copied() == m.last().map(|e| e.1), "last must be the most recently added key");
            let probe = sx::u8("probe");
            sx::check!(c.get(&RK(probe)).copied() == m.iter().find(|e| e.0 == probe).map(|e| e.1), "no deleted or evicted key may be readable");
        }
    }
}

#[derive(Clone, Debug, Default, Eq, PartialEq, Ord, PartialOrd)]
pub struct RK(u8);
impl Hash for RK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl std::fmt::Display for RK {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
