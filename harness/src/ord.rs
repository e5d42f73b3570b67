//! Histories on the ordered map and set, against the standard library's sorted map.
use crate::engine::*;
use crate::rng::Rng;
use generic_btree::{OrdTreeMap, OrdTreeSet};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;

thread_local! {
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static KEYS: Cell<i64> = const { Cell::new(0) };
    static VALS: Cell<i64> = const { Cell::new(0) };
}

/// A key whose comparisons and instances are counted; `REV` reverses its order.
#[derive(Debug)]
pub struct Key<const REV: bool, T: Ord + Clone + Debug>(T);
impl<const R: bool, T: Ord + Clone + Debug> Key<R, T> {
    fn new(t: T) -> Self {
        KEYS.with(|k| k.set(k.get() + 1));
        Key(t)
    }
}
impl<const R: bool, T: Ord + Clone + Debug> Clone for Key<R, T> {
    fn clone(&self) -> Self {
        Key::new(self.0.clone())
    }
}
impl<const R: bool, T: Ord + Clone + Debug> Drop for Key<R, T> {
    fn drop(&mut self) {
        KEYS.with(|k| k.set(k.get() - 1));
    }
}
impl<const R: bool, T: Ord + Clone + Debug> Ord for Key<R, T> {
    fn cmp(&self, o: &Self) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        let r = self.0.cmp(&o.0);
        if R {
            r.reverse()
        } else {
            r
        }
    }
}
impl<const R: bool, T: Ord + Clone + Debug> PartialOrd for Key<R, T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const R: bool, T: Ord + Clone + Debug> PartialEq for Key<R, T> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl<const R: bool, T: Ord + Clone + Debug> Eq for Key<R, T> {}

#[derive(Debug, PartialEq)]
struct Val(u64);
impl Val {
    fn new(x: u64) -> Self {
        VALS.with(|k| k.set(k.get() + 1));
        Val(x)
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        Val::new(self.0)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        VALS.with(|k| k.set(k.get() - 1));
    }
}

pub fn run(rng: Rng, tier: usize, big: bool) -> (Vec<Finding>, Stats, Vec<String>) {
    crate::elem::arm_budget(u64::MAX);
    let mut rng = rng;
    match rng.below(6) {
        0 => go::<false, u32>(rng, tier, big, "u32", &|x| x as u32),
        1 => go::<true, i64>(rng, tier, big, "i64, reversed", &|x| x as i64 - 50),
        2 => go::<false, String>(rng, tier, big, "String", &|x| {
            let mut s = format!("{}", x % 7);
            for _ in 0..x % 4 {
                s.push('a');
            }
            s + &x.to_string()
        }),
        3 => go::<false, (u8, i32)>(rng, tier, big, "(u8, i32)", &|x| ((x % 5) as u8, x as i32 - 20)),
        4 => go::<true, Vec<u8>>(rng, tier, big, "Vec<u8>, reversed", &|x| {
            let mut v = vec![];
            let mut y = x;
            while y > 0 {
                v.push((y % 3) as u8);
                y /= 3;
            }
            v
        }),
        _ => go::<false, (Option<u64>, bool)>(rng, tier, big, "(Option<u64>, bool)", &|x| {
            (if x < 2 { None } else { Some(x as u64 / 2) }, x % 2 == 1)
        }),
    }
}

fn go<const R: bool, T: Ord + Clone + Debug + 'static>(
    mut rng: Rng,
    tier: usize,
    big: bool,
    name: &str,
    mk: &dyn Fn(usize) -> T,
) -> (Vec<Finding>, Stats, Vec<String>) {
    let mut st = Stats { histories: 1, ..Default::default() };
    let mut log = Log::default();
    let mut fs: Vec<Finding> = vec![];
    KEYS.with(|k| k.set(0));
    VALS.with(|k| k.set(0));
    let domain = if big {
        *rng.pick(&[300, 3000, if tier == 1 { 60_000 } else { 20_000 }])
    } else {
        *rng.pick(&[3, 10, 14, 30, 100, 150, 600, 3000])
    };
    let n_ops = if tier == 2 {
        rng.range(10, 90)
    } else if big { rng.range(domain / 2, domain * 2) } else { rng.range(20, 500) };
    log.push(format!("ordered map and set, keys {name}, domain {domain}, {n_ops} operations"));
    let mut map: OrdTreeMap<Key<R, T>, Val> = if rng.chance(1, 2) { OrdTreeMap::new() } else { OrdTreeMap::default() };
    let mut set: OrdTreeSet<Key<R, T>> = if rng.chance(1, 2) { OrdTreeSet::new() } else { OrdTreeSet::default() };
    let mut model: BTreeMap<Key<R, T>, Val> = BTreeMap::new();
    let mut setm: BTreeMap<Key<R, T>, ()> = BTreeMap::new();
    // the two structures are driven by the same keys with different timing
    let mut next = rng.below(domain);
    let mut mode = 0;
    let mut left = 0;
    let mut serial = 0u64;
    let mut max_n = 0usize;
    let use_set = rng.chance(1, 2);
    for _ in 0..n_ops {
        if left == 0 {
            mode = rng.below(9);
            left = rng.range(1, if big { 600 } else { 40 });
        }
        left -= 1;
        let (ins, k) = match mode {
            0 => {
                next = (next + 1) % domain;
                (true, next)
            }
            1 => {
                next = (next + domain - 1) % domain;
                (true, next)
            }
            2 | 3 => (true, rng.below(domain)),
            4 => (false, rng.below(domain)),
            5 => {
                next = (next + 1) % domain;
                (false, next)
            }
            6 => (rng.chance(1, 2), rng.below(domain)),
            // zigzag around one spot
            7 => (true, (next + if serial % 2 == 0 { serial as usize } else { domain - serial as usize % domain }) % domain),
            _ => {
                // an extreme present key
                (false, next)
            }
        };
        serial += 1;
        let mut key = Key::<R, T>::new(mk(k));
        if mode == 8 && !model.is_empty() {
            key = match serial % 3 {
                0 => model.keys().next().unwrap().clone(),
                1 => model.keys().next_back().unwrap().clone(),
                _ => model.range(key.clone()..).next().map(|x| x.0.clone()).unwrap_or(key),
            };
        }
        let before = if use_set { setm.len() } else { model.len() };
        max_n = max_n.max(before);
        let desc = format!("{} {} {:?} ({} entries)", if use_set { "set" } else { "map" }, if ins { "insert" } else { "delete" }, key.0, before);
        log.push(desc.clone());
        CMPS.with(|c| c.set(0));
        let mut out: Option<String> = None;
        if ins {
            st.op(if use_set { "set insert" } else { "map insert" });
            if use_set {
                let kk = key.clone();
                if let Err(m) = guarded(|| set.insert(kk)) {
                    out = Some(format!("panicked: {m}"));
                }
            } else {
                let (kk, v) = (key.clone(), Val::new(serial));
                if let Err(m) = guarded(|| map.insert(kk, v)) {
                    out = Some(format!("panicked: {m}"));
                }
            }
        } else if use_set {
            st.op("set delete");
            let want = setm.contains_key(&key);
            CMPS.with(|c| c.set(0));
            match guarded(|| set.delete(&key)) {
                Ok(x) if x == want => {}
                Ok(x) => out = Some(format!("returned {x}, expected {want}")),
                Err(m) => out = Some(format!("panicked: {m}")),
            }
        } else {
            st.op("map delete");
            CMPS.with(|c| c.set(0));
            match guarded(|| map.delete(&key)) {
                Ok(x) => {
                    let c = CMPS.with(|c| c.get());
                    let want = model.get(&key);
                    let same = match (&x, want) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a.0 .0 == key.0 && a.1 .0 == b.0,
                        _ => false,
                    };
                    if !same {
                        out = Some(format!("returned {x:?}, expected {want:?}"));
                    }
                    st.read(if want.is_some() { "delete of a present key" } else { "delete of an absent key" });
                    CMPS.with(|cc| cc.set(c));
                }
                Err(m) => out = Some(format!("panicked: {m}")),
            }
        }
        let cmps = CMPS.with(|c| c.get());
        if let Some(m) = out {
            fs.push(Finding { tags: vec!["C20"], msg: format!("{desc}: {m}") });
            break;
        }
        // one binary search per level, a constant number of comparisons each
        let levels = ((max_n.max(1) as f64).ln() / 4f64.ln()).floor() as u64 + 2;
        st.work_max("comparisons/level", cmps / levels);
        if cmps > 40 * levels {
            fs.push(Finding { tags: vec!["C04"], msg: format!("{desc}: {cmps} key comparisons (largest size so far {max_n})") });
            break;
        }
        if use_set {
            if ins {
                setm.insert(key, ());
            } else {
                setm.remove(&key);
            }
        } else if ins {
            model.insert(key, Val::new(serial));
        } else {
            model.remove(&key);
        }
        st.states += 1;
        let n = if use_set { setm.len() } else { model.len() };
        st.max_leaves = st.max_leaves.max(n as u64);
        let h = crate::rng::mix(n as u64 * 2 + ins as u64, k as u64 * 31 + domain as u64);
        st.cases.insert(h);
        let r = guarded(|| {
            let (len, empty) = if use_set { (set.len(), set.is_empty()) } else { (map.len(), map.is_empty()) };
            if len != n || empty != (n == 0) {
                return Some(format!("len() = {len}, is_empty() = {empty}, expected {n} entries"));
            }
            if (n <= 150 && (tier != 2 || serial % 16 == 0)) || serial % 61 == 0 || serial as usize == n_ops {
                let lim = n + 8;
                if use_set {
                    let got: Vec<&T> = set.iter().take(lim).map(|k| &k.0).collect();
                    let want: Vec<&T> = setm.keys().map(|k| &k.0).collect();
                    if got != want {
                        return Some(format!("iterates {} keys, expected {} (first difference at {:?})", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b)));
                    }
                } else {
                    let got: Vec<(&T, u64)> = map.iter().take(lim).map(|(k, v)| (&k.0, v.0)).collect();
                    let want: Vec<(&T, u64)> = model.iter().map(|(k, v)| (&k.0, v.0)).collect();
                    if got != want {
                        return Some(format!("iterates {} entries, expected {} (first difference at {:?})", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b)));
                    }
                    let keys: Vec<&T> = map.iter_key().take(lim).map(|k| &k.0).collect();
                    if keys.len() != want.len() || keys.iter().zip(&want).any(|(a, b)| **a != *b.0) {
                        return Some("iter_key() differs from the sorted keys".to_string());
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => st.read("ordered content compared"),
            Ok(Some(m)) => fs.push(Finding { tags: vec!["C20"], msg: format!("after {desc}: {m}") }),
            Err(m) => fs.push(Finding { tags: vec!["C20"], msg: format!("after {desc}: an observation panicked: {m}") }),
        }
        let vals = VALS.with(|v| v.get());
        if fs.is_empty() && vals != 2 * model.len() as i64 {
            fs.push(Finding { tags: vec!["C18"], msg: format!("after {desc}: {} values alive, {} held by the map", vals - model.len() as i64, model.len()) });
        }
        // keys live in the elements and in the summaries above them: at most a constant number each
        let keys = KEYS.with(|v| v.get());
        let m = (model.len() + setm.len()) as i64;
        if fs.is_empty() && keys > 6 * m + 64 {
            fs.push(Finding { tags: vec!["C18"], msg: format!("after {desc}: {keys} key instances alive for {m} entries") });
        }
        if !fs.is_empty() {
            break;
        }
    }
    if fs.is_empty() {
        st.shapes.insert(crate::rng::mix(model.len() as u64, serial));
        let r = guarded(move || {
            drop(map);
            drop(set)
        });
        if let Err(m) = r {
            fs.push(Finding { tags: vec!["C18"], msg: format!("dropping the map panicked: {m}") });
        } else {
            let (k, v) = (KEYS.with(|k| k.get()) - (model.len() + setm.len()) as i64, VALS.with(|v| v.get()) - model.len() as i64);
            st.read("instances counted after dropping the map");
            if k != 0 || v != 0 {
                fs.push(Finding { tags: vec!["C18"], msg: format!("{k} keys and {v} values are still alive after the map was dropped") });
            }
        }
    } else {
        std::mem::forget((map, set));
    }
    (fs, st, log.0)
}
