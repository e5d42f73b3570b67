//! Histories on the rope, against a plain string, plus a twin rope created when the rope was last
//! emptied (an emptied rope must behave like a new one).
use crate::engine::*;
use crate::rng::Rng;
use generic_btree::Rope;
use std::ops::Bound;

pub struct RopeEng {
    rng: Rng,
    rope: Rope,
    text: String,
    twin: Option<Rope>,
    pub findings: Vec<Finding>,
    pub log: Log,
    pub st: Stats,
    bounds: bool,
    mini: bool,
    caret: usize,
    alphabet: u8,
    cap: usize,
}

fn snippet(s: &str) -> String {
    let t: String = s.chars().take(40).collect();
    format!("{:?}{} ({} bytes)", t, if s.len() > t.len() { "..." } else { "" }, s.len())
}
fn first_diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at byte {k}", a.len(), b.len())
}

impl RopeEng {
    pub fn new(mut rng: Rng, bounds: bool, tier: usize) -> Self {
        arm_off();
        let alphabet = rng.below(4) as u8;
        let cap = *rng.pick(&[60, 300, 300, 1500, 5000, if tier == 1 { 60_000 } else { 12_000 }]);
        let mut e = RopeEng {
            rope: Rope::new(),
            text: String::new(),
            twin: None,
            findings: vec![],
            log: Log::default(),
            st: Stats::default(),
            bounds,
            mini: tier == 2,
            caret: 0,
            alphabet,
            cap,
            rng,
        };
        e.st.histories = 1;
        e.log.push(format!("rope, alphabet {alphabet}, length cap {cap}"));
        e
    }
    fn ch(&mut self) -> char {
        let ascii = (b'a' + self.rng.below(26) as u8) as char;
        match self.alphabet {
            0 => ascii,
            1 => *self.rng.pick(&['é', 'ß', 'a', '中', '🦀', '\u{0}', '\n', 'z']),
            2 => *self.rng.pick(&['中', '文', '字', '🦀']),
            _ => {
                if self.rng.chance(1, 10) {
                    '🦀'
                } else {
                    ascii
                }
            }
        }
    }
    fn gen(&mut self) -> String {
        let n = match self.rng.below(10) {
            0 => 0,
            1..=3 => 1,
            4 => self.rng.range(1, 8),
            5 => *self.rng.pick(&[63, 64, 65, 126, 127, 128, 129, 130]),
            6 => *self.rng.pick(&[254, 255, 256, 257, 383, 384, 385, 511, 512]),
            7 => self.rng.range(1, 140),
            8 => self.rng.range(100, 1800),
            _ => self.rng.range(1, 30),
        };
        (0..n).map(|_| self.ch()).collect()
    }
    fn snap(&self, mut p: usize) -> usize {
        p = p.min(self.text.len());
        while !self.text.is_char_boundary(p) {
            p -= 1;
        }
        p
    }
    fn pos(&mut self) -> usize {
        let n = self.text.len();
        let p = match self.rng.below(8) {
            0 => 0,
            1 => n,
            2 | 3 => self.caret,
            4 => (self.caret + self.rng.below(5)).saturating_sub(2),
            5 => (self.rng.below(n / 128 + 1) * 128 + self.rng.below(3)).saturating_sub(1),
            _ => self.rng.range(0, n),
        };
        self.snap(p)
    }
    pub fn history(&mut self) {
        let n_ops = if self.mini { self.rng.range(5, 25) } else { self.rng.range(30, 220) };
        let mut left = 0usize;
        let mut mode = 0;
        for _ in 0..n_ops {
            if left == 0 {
                mode = self.rng.below(9);
                left = self.rng.range(1, if self.mini { 4 } else { 25 });
                self.caret = self.pos();
            }
            left -= 1;
            let over = self.text.len() > self.cap;
            match mode {
                // typing at the caret
                0 => {
                    let k = self.rng.range(1, 3);
                    let s: String = (0..k).map(|_| self.ch()).collect();
                    let p = self.caret;
                    self.insert(p, &s);
                    self.caret = p + s.len();
                }
                // typing backwards (each insertion before the previous one)
                1 => {
                    let s = self.ch().to_string();
                    let p = self.caret;
                    self.insert(p, &s);
                }
                // backspace
                2 => {
                    let e = self.snap(self.caret);
                    let b = self.snap(e.saturating_sub(1));
                    self.delete(Bound::Included(b), Bound::Excluded(e), false);
                    self.caret = b;
                }
                // forward delete
                3 => {
                    let b = self.snap(self.caret);
                    let mut e = (b + 1).min(self.text.len());
                    while !self.text.is_char_boundary(e) {
                        e += 1;
                    }
                    self.delete(Bound::Included(b), Bound::Excluded(e), false);
                }
                4 if !over => {
                    let p = self.pos();
                    let s = self.gen();
                    self.insert(p, &s);
                    self.caret = p + s.len();
                }
                // replace around the caret
                5 => {
                    let b = self.pos();
                    let l = self.rng_len();
                    let e = self.snap(b + l);
                    self.delete(Bound::Included(b), Bound::Excluded(e), false);
                    let s = self.gen();
                    self.insert(b, &s);
                    self.caret = b + s.len();
                }
                6 if self.bounds => self.bound_op(),
                7 if self.bounds && self.rng.chance(1, 3) => self.bound_op(),
                _ => {
                    if over || self.rng.chance(2, 5) {
                        let mut a = self.pos();
                        let mut b = self.pos();
                        if self.rng.chance(1, 3) {
                            let l = self.rng_len();
                            b = self.snap(a + l);
                        }
                        if a > b {
                            std::mem::swap(&mut a, &mut b);
                        }
                        if !over && self.rng.chance(1, 40) {
                            (a, b) = (0, self.text.len());
                        }
                        self.delete(Bound::Included(a), Bound::Excluded(b), false);
                        self.caret = a;
                    } else {
                        let p = self.pos();
                        let s = self.gen();
                        self.insert(p, &s);
                        self.caret = p + s.len();
                    }
                }
            }
            if !self.findings.is_empty() {
                return;
            }
        }
        self.compare_text("at the end", &[]);
    }
    fn rng_len(&mut self) -> usize {
        match self.rng.below(5) {
            0 => 1,
            1 => self.rng.range(1, 10),
            2 => *self.rng.pick(&[127, 128, 129, 256]),
            3 => self.rng.range(1, 200),
            _ => self.rng.range(1, 2000),
        }
    }
    fn find(&mut self, tags: &[&'static str], msg: String) {
        self.findings.push(Finding { tags: tags.to_vec(), msg });
    }
    fn insert(&mut self, p: usize, s: &str) {
        self.st.op("rope insert");
        self.log.push(format!("insert({p}, {}) into {} bytes", snippet(s), self.text.len()));
        let r = {
            let rope = &mut self.rope;
            guarded(|| rope.insert(p, s))
        };
        let tw = self.twin.as_mut().map(|t| guarded(|| t.insert(p, s)).is_ok());
        if let Err(m) = r {
            let tags: &[&'static str] = if tw == Some(true) { &["C21", "C22"] } else { &["C21"] };
            self.find(tags, format!("insert({p}, {}) panicked: {m}", snippet(s)));
            return;
        }
        self.text.insert_str(p, s);
        self.after("insert", &[]);
    }
    fn delete(&mut self, a: Bound<usize>, b: Bound<usize>, hostile: bool) {
        self.st.op(if hostile { "rope delete_range (any bounds)" } else { "rope delete_range" });
        self.log.push(format!("delete_range({a:?}, {b:?}) of {} bytes", self.text.len()));
        let n = self.text.len() as u128;
        let lo = match a {
            Bound::Included(x) => x as u128,
            Bound::Excluded(x) => x as u128 + 1,
            Bound::Unbounded => 0,
        };
        let hi = match b {
            Bound::Included(x) => x as u128 + 1,
            Bound::Excluded(x) => x as u128,
            Bound::Unbounded => n,
        };
        let (lo, hi) = (lo.min(n) as usize, hi.min(n) as usize);
        let how = self.rng.below(4);
        let del = move |r: &mut Rope| match (how, a, b) {
            (0, Bound::Included(x), Bound::Excluded(y)) => r.delete_range(x..y),
            (0, Bound::Included(x), Bound::Included(y)) => r.delete_range(x..=y),
            (0, Bound::Unbounded, Bound::Excluded(y)) => r.delete_range(..y),
            (0, Bound::Unbounded, Bound::Included(y)) => r.delete_range(..=y),
            (0, Bound::Included(x), Bound::Unbounded) => r.delete_range(x..),
            (0, Bound::Unbounded, Bound::Unbounded) => r.delete_range(..),
            _ => r.delete_range((a, b)),
        };
        let r = {
            let rope = &mut self.rope;
            guarded(|| del(rope))
        };
        let tw = self.twin.as_mut().map(|t| guarded(|| del(t)).is_ok());
        let mine: &[&'static str] = if hostile { &["C22"] } else { &["C21"] };
        if let Err(m) = r {
            let tags: &[&'static str] = if tw == Some(true) || hostile { &["C21", "C22"] } else { &["C21"] };
            self.find(tags, format!("delete_range({a:?}, {b:?}) of {n} bytes panicked: {m}"));
            return;
        }
        if lo < hi {
            self.text.replace_range(lo..hi, "");
        }
        let was_empty = n == 0;
        self.after("delete_range", mine);
        if self.text.is_empty() && !was_empty && self.findings.is_empty() && self.rng.chance(2, 3) {
            self.st.read("rope emptied by deletion");
            self.twin = Some(Rope::new());
        }
    }
    fn bound_op(&mut self) {
        let n = self.text.len();
        match self.rng.below(10) {
            0 => {
                self.st.op("rope clear");
                self.log.push(format!("clear of {n} bytes"));
                let r = {
                    let rope = &mut self.rope;
                    guarded(|| rope.clear())
                };
                if let Err(m) = r {
                    self.find(&["C22"], format!("clear panicked: {m}"));
                    return;
                }
                self.text.clear();
                self.twin = Some(Rope::new());
                self.after("clear", &["C22"]);
            }
            1 => {
                // everything, by some route
                match self.rng.below(5) {
                    0 => self.delete(Bound::Unbounded, Bound::Unbounded, true),
                    1 => self.delete(Bound::Included(0), Bound::Excluded(n), true),
                    2 => self.delete(Bound::Included(0), Bound::Included(n), true),
                    3 => self.delete(Bound::Unbounded, Bound::Included(usize::MAX), true),
                    _ => {
                        let mut k = 0;
                        while !self.text.is_empty() && self.findings.is_empty() && k < 400 {
                            let a = if self.rng.chance(1, 2) { 0 } else { self.pos() };
                            let l = self.rng_len();
                            let b = self.snap(a + l.max(4));
                            self.delete(Bound::Included(a), Bound::Excluded(b), false);
                            k += 1;
                        }
                    }
                }
            }
            2 | 3 => {
                // past the end: refused, nothing changes
                let p = *self.rng.pick(&[n + 1, n + 2, n + 127, n + 128, n * 2 + 5, usize::MAX, usize::MAX - 1, usize::MAX / 2]);
                let s = if self.rng.chance(1, 4) { String::new() } else { self.gen() };
                self.st.op("rope insert past the end");
                self.log.push(format!("insert({p}, {}) past the end of {n} bytes", snippet(&s)));
                let r = {
                    let rope = &mut self.rope;
                    guarded(|| rope.insert(p, &s))
                };
                if r.is_ok() {
                    self.find(&["C22"], format!("insert at {p} into {n} bytes was not refused"));
                    return;
                }
                self.after("refused insertion", &["C22"]);
            }
            _ => {
                let a = self.pos();
                let end = |s: &mut Self| -> usize {
                    match s.rng.below(5) {
                        0 => n + s.rng.below(300),
                        1 => usize::MAX,
                        2 => n,
                        3 => n + 1,
                        _ => s.pos(),
                    }
                };
                let e = end(self).max(a);
                let lo = match self.rng.below(4) {
                    0 => Bound::Unbounded,
                    1 if a > 0 => Bound::Excluded(a - 1),
                    2 if self.rng.chance(1, 3) => {
                        let x = *self.rng.pick(&[n, n + 1, n + 500, usize::MAX]);
                        if self.rng.chance(1, 2) { Bound::Included(x) } else { Bound::Excluded(x) }
                    }
                    _ => Bound::Included(a),
                };
                let hi = match self.rng.below(4) {
                    0 => Bound::Unbounded,
                    1 if e > 0 => Bound::Included(e - 1),
                    2 if e >= n => Bound::Included(e),
                    _ => Bound::Excluded(e),
                };
                self.delete(lo, hi, true);
                self.caret = self.snap(a);
            }
        }
    }
    fn after(&mut self, what: &str, mine: &[&'static str]) {
        self.st.states += 1;
        let tags: &[&'static str] = if mine.is_empty() { &["C21"] } else { mine };
        let n = self.text.len();
        if self.rope.len() != n {
            let m = format!("{what}: len() = {}, expected {n}", self.rope.len());
            self.twin_find(tags, m);
        }
        if self.rope.is_empty() != (n == 0) {
            let m = format!("{what}: is_empty() = {} with {n} bytes", self.rope.is_empty());
            self.twin_find(tags, m);
        }
        let every = if n <= 3000 { 1 } else { 12 };
        if self.rng.chance(1, every) || !mine.is_empty() {
            self.compare_text(what, tags);
        }
        if n <= 3000 || self.rng.chance(1, 12) {
            let rope = &self.rope;
            if let Err(m) = guarded(|| rope.check()) {
                self.find(&["C02", "C03"], format!("rope {what}: the built-in check fails: {m}"));
            }
        }
        let h = crate::rng::mix(n as u64, self.text.bytes().fold(7u64, |h, b| h.wrapping_mul(0x100000001b3) ^ b as u64));
        self.st.shapes.insert(h);
        self.st.cases.insert(crate::rng::mix(h, what.len() as u64));
        self.st.max_leaves = self.st.max_leaves.max(n as u64);
        if let Some(t) = &self.twin {
            self.st.read("emptied rope compared with a new one");
            if t.len() > 4000 || (t.len() > 0 && self.rng.chance(1, 150)) {
                self.twin = None;
            }
        }
    }
    fn twin_find(&mut self, tags: &[&'static str], m: String) {
        let mut t = tags.to_vec();
        if let Some(tw) = &self.twin {
            let good = guarded(|| tw.to_string()).map(|s| s == self.text).unwrap_or(false);
            if good && !t.contains(&"C22") {
                t.push("C22");
            }
        }
        self.find(&t, m);
    }
    fn compare_text(&mut self, what: &str, tags: &[&'static str]) {
        let tags: &[&'static str] = if tags.is_empty() { &["C21"] } else { tags };
        self.st.read("rope text compared");
        let rope = &self.rope;
        match guarded(|| rope.to_string()) {
            Ok(s) => {
                if s != self.text {
                    let m = format!("{what}: the text differs from the string ({}): {} instead of {}", first_diff(&s, &self.text), snippet(&s), snippet(&self.text));
                    self.twin_find(tags, m);
                }
            }
            Err(m) => self.twin_find(tags, format!("{what}: to_string() panicked: {m}")),
        }
    }
}

fn arm_off() {
    crate::elem::arm_budget(u64::MAX);
}
