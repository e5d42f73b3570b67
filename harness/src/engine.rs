//! History driver: applies randomly generated operations to a real tree and to a flat model, and
//! after every operation runs all monitors over the observed state.
use crate::elem::*;
use crate::ops::{from_elem, ids, to_elem, Pending};
use crate::rng::Rng;
use crate::snap::*;
use generic_btree::{BTree, Cursor, LeafIndex};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub id: u32,
    pub color: u8,
    pub attr: i64,
    pub marker: bool,
}

pub struct Finding {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub histories: u64,
    pub ops: FxMap<&'static str, u64>,
    pub reads: FxMap<&'static str, u64>,
    pub states: u64,
    pub shapes: FxSet<u64>,
    pub cases: FxSet<u64>,
    pub handles_checked: u64,
    pub max_leaves: u64,
    pub max_depth: u64,
    pub max_work: FxMap<&'static str, u64>,
    pub contract_calls: u64,
    pub foreign: FxMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.histories += o.histories;
        for (k, v) in &o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for (k, v) in &o.reads {
            *self.reads.entry(k).or_default() += v;
        }
        for (k, v) in &o.foreign {
            *self.foreign.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.max_work {
            let e = self.max_work.entry(k).or_default();
            *e = (*e).max(*v);
        }
        self.states += o.states;
        // bounded: a long run reports at least this many distinct ones
        if self.shapes.len() < 6_000_000 {
            self.shapes.extend(o.shapes.iter().copied());
        }
        if self.cases.len() < 6_000_000 {
            self.cases.extend(o.cases.iter().copied());
        }
        self.handles_checked += o.handles_checked;
        self.max_leaves = self.max_leaves.max(o.max_leaves);
        self.max_depth = self.max_depth.max(o.max_depth);
        self.contract_calls += o.contract_calls;
    }
    pub fn op(&mut self, k: &'static str) {
        *self.ops.entry(k).or_default() += 1;
    }
    pub fn read(&mut self, k: &'static str) {
        *self.reads.entry(k).or_default() += 1;
    }
    pub fn work_max(&mut self, k: &'static str, v: u64) {
        let e = self.max_work.entry(k).or_default();
        *e = (*e).max(v);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = s.chars().take(400).collect());
    }));
}
pub fn forget_panic() {
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
}
/// replay only: every log line is also written out at once, so that a crash leaves its history
pub fn set_trace(path: &str) {
    TRACING.store(true, std::sync::atomic::Ordering::SeqCst);
    *TRACE.lock().unwrap() = Some(std::fs::File::create(path).unwrap());
}
static TRACING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TRACE: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
pub fn trace(l: &str) {
    use std::io::Write;
    if !TRACING.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    if let Some(f) = TRACE.lock().unwrap().as_mut() {
        let _ = writeln!(f, "{l}");
    }
}
#[derive(Default)]
pub struct Log(pub Vec<String>);
impl Log {
    pub fn push(&mut self, l: String) {
        trace(&l);
        self.0.push(l);
    }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        std::mem::forget(e);
        LAST_PANIC.with(|l| l.borrow().clone())
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpK {
    InsertByPath,
    InsertQuery,
    Push,
    Prepend,
    RemoveLeaf,
    RemoveStale,
    InsertMany,
    Drain,
    Update,
    UpdateLeaf,
    UpdateBySearch,
    Batch,
    Direct,
    InPlace,
    CloneT,
    Clear,
    Rebuild,
    DrainNone,
}
use OpK::*;
pub const OPS: [OpK; 18] = [
    InsertByPath, InsertQuery, Push, Prepend, RemoveLeaf, RemoveStale, InsertMany, Drain, Update, UpdateLeaf,
    UpdateBySearch, Batch, Direct, InPlace, CloneT, Clear, Rebuild, DrainNone,
];
//                          ibp iq  pu pr  rl rs im dr up ul us ba di in cl cr rb dn
const BASE: [u32; 18] = [16, 8, 4, 4, 14, 1, 3, 4, 4, 8, 6, 4, 3, 1, 1, 0, 0, 1];

pub fn op_name(k: OpK) -> &'static str {
    match k {
        InsertByPath => "insert_by_path",
        InsertQuery => "insert(query)",
        Push => "push",
        Prepend => "prepend",
        RemoveLeaf => "remove_leaf",
        RemoveStale => "remove_leaf(stale)",
        InsertMany => "insert_many_by_cursor",
        Drain => "drain",
        Update => "update",
        UpdateLeaf => "update_leaf",
        UpdateBySearch => "update_leaf_by_search",
        Batch => "update_leaves_with_arg_in_ranges",
        Direct => "get_elem_mut+recursive_update_cache",
        InPlace => "update_cache_and_elem_with_filter",
        CloneT => "clone",
        Clear => "clear",
        Rebuild => "from_iter",
        DrainNone => "drain(none)",
    }
}
pub fn op_props(k: OpK) -> &'static [&'static str] {
    match k {
        InsertByPath | InsertQuery | Push | Prepend | RemoveLeaf => &["C01"],
        RemoveStale => &["C06", "C01"],
        InsertMany => &["C11"],
        Drain | DrainNone => &["C07"],
        Update => &["C08"],
        UpdateLeaf | UpdateBySearch => &["C09"],
        Batch => &["C10"],
        Direct => &["C02"],
        InPlace => &["C16"],
        CloneT | Clear => &["C17"],
        Rebuild => &["C12"],
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: &'static str,
    pub weights: [u32; 18],
    pub n_ops: usize,
    pub target: usize,
    pub max_len: usize,
    pub marker_pct: usize,
    pub start: usize,
    /// per mille of operations after which each read monitor runs
    pub read_pm: usize,
    pub exhaustive_reads: bool,
    pub single_only: bool,
    /// build a many-level tree of this many elements before the first observed operation
    pub tall: usize,
    /// elements leave the tree through this operation only
    pub mono: Option<OpK>,
    /// under an interpreter: everything small
    pub mini: bool,
}

pub fn make_cfg(prop: &'static str, rng: &mut Rng, tier: usize) -> Cfg {
    let mut w = BASE;
    let boost: &[(OpK, u32)] = match prop {
        "C01" => &[(InsertByPath, 60), (InsertQuery, 30), (Push, 20), (Prepend, 20), (RemoveLeaf, 60)],
        "C02" => &[(Direct, 15), (InPlace, 4), (Drain, 10)],
        "C04" => &[(Drain, 16), (Rebuild, 5), (Update, 6), (InsertMany, 5)],
        "C06" => &[(RemoveStale, 10), (RemoveLeaf, 30)],
        "C07" => &[(Drain, 40), (DrainNone, 6), (Rebuild, 3)],
        "C08" => &[(Update, 50)],
        "C09" => &[(UpdateLeaf, 45), (UpdateBySearch, 40)],
        "C10" => &[(Batch, 50)],
        "C11" => &[(InsertMany, 45), (Clear, 2)],
        "C12" => &[(Rebuild, 12)],
        "C16" => &[(InPlace, 12)],
        "C17" => &[(CloneT, 14), (Clear, 6)],
        "C18" => &[(Drain, 12), (UpdateLeaf, 15), (Update, 10), (Clear, 1)],
        "C25" => &[(Drain, 25), (Update, 25), (Batch, 20), (InsertMany, 14), (Rebuild, 3)],
        "C19" => &[(InsertByPath, 60), (InsertQuery, 20), (Push, 12), (Prepend, 12)],
        _ => &[],
    };
    for &(k, v) in boost {
        w[OPS.iter().position(|&x| x == k).unwrap()] = v;
    }
    // now and then a history is dominated by one or two operations
    if rng.chance(1, 5) {
        for (i, x) in w.iter_mut().enumerate() {
            if rng.chance(1, 2) && boost.iter().all(|b| b.0 != OPS[i]) {
                *x = 0;
            }
        }
        w[0] += 4;
    }
    let mut single_only = false;
    if (prop == "C04" || prop == "C01") && rng.chance(2, 3) {
        single_only = true;
    }
    if single_only {
        for (i, x) in w.iter_mut().enumerate() {
            match OPS[i] {
                InsertByPath | InsertQuery => *x = 20,
                Push | Prepend => *x = 8,
                RemoveLeaf => *x = 30,
                UpdateLeaf | UpdateBySearch => *x = 10,
                _ => *x = 0,
            }
        }
    }
    // histories in which elements leave the tree in one way only, from many down to almost none
    let mut mono = None;
    if (single_only || matches!(prop, "C07" | "C08" | "C09")) && tier != 2 && rng.chance(1, if prop == "C04" { 4 } else { 12 }) {
        let k = match prop {
            "C07" => Drain,
            "C08" => Update,
            "C09" => *rng.pick(&[UpdateLeaf, UpdateBySearch]),
            _ => *rng.pick(&[RemoveLeaf, UpdateLeaf, UpdateBySearch, Drain, Update]),
        };
        mono = Some(k);
        for (i, x) in w.iter_mut().enumerate() {
            match OPS[i] {
                InsertByPath | Push | Prepend | InsertQuery => *x = *rng.pick(&[1, 1, 4]),
                o if o == k => *x = 30,
                _ => *x = 0,
            }
        }
    }
    // trees of many levels, which take thousands of elements
    let tall_odds = match prop {
        "C05" | "C13" | "C14" | "C15" | "C16" => 100,
        _ => 400,
    };
    let tall = if tier != 2 && mono.is_none() && prop != "C24" && rng.chance(1, tall_odds) {
        if rng.chance(1, 3) { rng.range(15_700, 19_000) } else { rng.range(2_650, 6_000) }
    } else {
        0
    };
    let class = rng.weighted(match tier {
        0 if prop == "C25" => &[10, 50, 40, 0],
        0 => &[50, 40, 10, 0],
        2 => &[1, 0, 0, 0],
        _ => &[40, 38, 20, 2],
    });
    let (target, n_ops) = match class {
        // under an interpreter
        0 if tier == 2 => (rng.range(1, 50), rng.range(6, 22)),
        0 => (rng.range(1, 40), rng.range(20, 120)),
        1 => (rng.range(20, 200), rng.range(60, 400)),
        2 => (rng.range(200, 2500), rng.range(60, 300)),
        _ => (rng.range(2500, 16000), rng.range(40, 120)),
    };
    let start = match rng.below(4) {
        0 => 0,
        1 => target / 2,
        2 => target,
        _ => rng.range(0, target + target / 2),
    };
    // nodes with a single child at the end, on one or more levels
    let start = if rng.chance(1, 5) { let m = *rng.pick(&[10, 10, 100, 1000]); start - start % m + 1 } else { start };
    let (target, n_ops, start) = if tall > 0 {
        (*rng.pick(&[tall, tall, tall / 2, 0]), rng.range(10, 40), 0)
    } else if mono.is_some() {
        let n = *rng.pick(if matches!(mono, Some(Drain | Update)) { &[80, 450, 1000, 3000] } else { &[20, 80, 160, 300, 450] });
        let n = rng.range(n / 2, n);
        (0, (n + n / 2 + 10).min(700), n)
    } else {
        (target, n_ops, start)
    };
    Cfg {
        prop,
        weights: w,
        n_ops,
        target,
        tall,
        mono,
        mini: tier == 2,
        max_len: if tall > 0 { *rng.pick(&[1, 2, 3]) } else { *rng.pick(&[1, 2, 3, 5, 9, 20]) },
        marker_pct: *rng.pick(&[0, 0, 0, 5, 25, 60]),
        start: if class >= 2 && tall == 0 && mono.is_none() { start.max(target / 2) } else { start },
        read_pm: match prop {
            "C05" | "C13" | "C14" | "C15" | "C16" => 600,
            _ => 15,
        },
        exhaustive_reads: class <= 1 && tall == 0 && rng.chance(1, 2),
        single_only,
    }
}

pub fn random_policy(rng: &mut Rng) -> Policy {
    use MergePolicy::*;
    Policy {
        merge: *rng.pick(&[Never, Never, SameColor, SameColor, Ascending, Any, Leader]),
        merge_cap: *rng.pick(&[2, 4, 8, 16, 64, 1000]),
        absorb: *rng.pick(&[Never, Never, Never, SameColor, Any]),
        absorb_cap: *rng.pick(&[2, 4, 8, 16]),
        default_split: rng.chance(1, 4),
    }
}

#[derive(Default)]
pub struct Touched {
    pub ivs: Vec<(usize, usize)>,
    pub exempt: Vec<LeafIndex>,
    pub all: bool,
}
impl Touched {
    pub fn iv(a: usize, b: usize) -> Self {
        Touched { ivs: vec![(a, b)], ..Default::default() }
    }
    pub fn all() -> Self {
        Touched { all: true, ..Default::default() }
    }
}

pub struct Eng<B: TreeKind> {
    pub rng: Rng,
    pub cfg: Cfg,
    pub tree: BTree<B>,
    pub model: Vec<M>,
    pub snap: std::rc::Rc<Snap<B>>,
    pub next_id: u32,
    pub grave: Vec<LeafIndex>,
    pub shadow: Option<(BTree<B>, Vec<M>, std::rc::Rc<Snap<B>>)>,
    pub base_live: i64,
    /// largest number of leaves so far
    pub peak: usize,
    /// callback steps of the newest operation, and summaries read in them
    pub last_steps: u64,
    /// number of elements or ranges handed to it
    pub given: usize,
    pub hot: f64,
    /// elements below the node with the fewest children
    pub thinnest: (usize, usize),
    pub findings: Vec<Finding>,
    pub log: Log,
    pub st: Stats,
    pub dead: bool,
    pub pending: Pending,
}

impl<B: TreeKind> Eng<B>

{
    pub fn new(mut rng: Rng, cfg: Cfg) -> Self {
        POLICY.with(|p| p.set(random_policy(&mut rng)));
        LIVE.with(|l| l.set(0));
        ELEMS.with(|l| l.set(0));
        arm_budget(u64::MAX);
        take_work();
        let mut e = Eng {
            tree: BTree::new(),
            model: vec![],
            snap: Default::default(),
            next_id: 1,
            grave: vec![],
            shadow: None,
            base_live: 0,
            peak: 0,
            last_steps: 0,
            given: 0,
            hot: 0.5,
            thinnest: (0, 1),
            findings: vec![],
            log: Log::default(),
            st: Stats::default(),
            dead: false,
            pending: Pending::None,
            rng,
            cfg,
        };
        e.st.histories = 1;
        let p = policy();
        e.log.push(format!(
            "tree={} merge={:?}/{} absorb={:?}/{} default_split={} max_len={} marker%={} target={} start={}",
            B::NAME, p.merge, p.merge_cap, p.absorb, p.absorb_cap, p.default_split, e.cfg.max_len, e.cfg.marker_pct, e.cfg.target, e.cfg.start
        ));
        e
    }

    pub fn find(&mut self, tags: &[&'static str], msg: String) {
        self.dead = true;
        self.findings.push(Finding { tags: tags.to_vec(), msg });
    }
    pub fn opfind(&mut self, k: OpK, extra: &[&'static str], msg: String) {
        let mut t = op_props(k).to_vec();
        for x in extra {
            if !t.contains(x) {
                t.push(x)
            }
        }
        let m = format!("{}: {}", op_name(k), msg);
        self.find(&t, m);
    }

    // ------------------------------------------------------------ generators

    pub fn gen_ms(&mut self, len: usize) -> Vec<M> {
        let mut v = Vec::with_capacity(len);
        let mut c = self.rng.below(4) as u8;
        for _ in 0..len {
            if self.rng.chance(1, 6) {
                c = self.rng.below(4) as u8;
            }
            v.push(M { id: self.next_id, color: c, attr: self.rng.below(7) as i64 - 3, marker: false });
            self.next_id += 1;
        }
        v
    }
    pub fn gen_elem(&mut self) -> Vec<M> {
        if self.rng.below(100) < self.cfg.marker_pct {
            let mut v = self.gen_ms(1);
            v[0].marker = true;
            return v;
        }
        let n = self.rng.range(1, self.cfg.max_len);
        self.gen_ms(n)
    }

    pub fn pick_leaf(&mut self) -> usize {
        let n = self.snap.leaves.len();
        match self.rng.below(11) {
            0 => 0,
            1 => n - 1,
            10 => {
                let (a, b) = self.thinnest;
                (if self.rng.chance(1, 2) { a } else { b - 1 }).min(n - 1)
            }
            2 | 3 => {
                // first or last child of its parent
                let i = self.rng.below(n);
                let f = self.snap.leaves[i].parent_first as usize;
                if self.rng.chance(1, 2) {
                    f
                } else {
                    let mut j = i;
                    while j + 1 < n && self.snap.leaves[j + 1].parent_first as usize == f {
                        j += 1;
                    }
                    j
                }
            }
            4 | 5 => ((self.hot * n as f64) as usize + self.rng.below(3)).min(n - 1),
            6 => {
                // boundary of a random internal node
                if self.snap.nodes.is_empty() {
                    self.rng.below(n)
                } else {
                    let r = self.rng.below(self.snap.nodes.len());
                    let r = &self.snap.nodes[r];
                    if self.rng.chance(1, 2) { r.leaf_start } else { r.leaf_end - 1 }
                }
            }
            _ => self.rng.below(n),
        }
    }
    pub fn pick_offset(&mut self, leaf: usize) -> usize {
        let len = self.snap.leaves[leaf].len;
        match self.rng.below(6) {
            0 => 0,
            1 => len,
            2 => len.min(1),
            3 => len.saturating_sub(1),
            _ => self.rng.range(0, len),
        }
    }
    pub fn cursor(&self, leaf: usize, off: usize) -> Cursor {
        Cursor { leaf: self.snap.leaves[leaf].idx, offset: off }
    }
    pub fn flat(&self, leaf: usize, off: usize) -> usize {
        self.snap.leaves[leaf].start + off
    }
    pub fn pick_cursor(&mut self) -> (usize, usize) {
        let l = self.pick_leaf();
        let o = self.pick_offset(l);
        (l, o)
    }
    /// two cursors in order
    pub fn pick_range(&mut self) -> ((usize, usize), (usize, usize)) {
        let mut a = self.pick_cursor();
        let mut b = if self.rng.chance(1, 3) {
            let n = self.snap.leaves.len();
            let l = (a.0 + self.rng.below(4)).min(n - 1);
            (l, self.pick_offset(l))
        } else {
            self.pick_cursor()
        };
        if self.cfg.mono.is_some() && self.rng.chance(7, 8) {
            // small ranges, so that the tree shrinks slowly
            let l = (a.0 + self.rng.below(12 + self.cfg.start / 40)).min(self.snap.leaves.len() - 1);
            b = (l, self.pick_offset(l));
        }
        let few = if self.cfg.prop == "C04" { 6 } else { 30 };
        if self.rng.chance(1, few) {
            // all but a few elements at the ends
            let n = self.snap.leaves.len();
            let x = self.rng.below(4).min(n - 1);
            let x = if self.rng.chance(1, 2) { 0 } else { x };
            let y = (n - 1).saturating_sub(self.rng.below(5)).max(x);
            a = (x, if self.rng.chance(2, 3) { 0 } else { self.pick_offset(x) });
            b = (y, if self.rng.chance(2, 3) { self.snap.leaves[y].len } else { self.pick_offset(y) });
        } else if !self.snap.nodes.is_empty() && self.rng.chance(1, 6) {
            // everything below one internal node, or all but an end of it
            let last = self.snap.leaves.len() - 1;
            let r = if self.rng.chance(1, 3) { self.snap.nodes.iter().rposition(|n| n.leaf_end == last + 1).unwrap() } else { self.rng.below(self.snap.nodes.len()) };
            let (x, y) = (self.snap.nodes[r].leaf_start, self.snap.nodes[r].leaf_end - 1);
            a = match self.rng.below(4) {
                0 => (x, self.pick_offset(x)),
                1 if x > 0 => (x - 1, self.snap.leaves[x - 1].len),
                _ => (x, 0),
            };
            b = match self.rng.below(5) {
                0 => (y, self.pick_offset(y)),
                1 if y < last => (y + 1, 0),
                2 if y < last => (y + 1, self.pick_offset(y + 1)),
                _ => (y, self.snap.leaves[y].len),
            };
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        (a, b)
    }
    /// index in the flat sequence of length position t < total
    pub fn flat_of_pos(&self, t: usize) -> usize {
        let l = self.snap.leaf_at(t);
        self.snap.leaves[l].start + (t - self.snap.leaves[l].pos)
    }
    pub fn pick_pos(&mut self) -> usize {
        let total = self.snap.total;
        if total == 0 {
            return 0;
        }
        match self.rng.below(6) {
            0 => 0,
            1 => total,
            2 => {
                let l = self.pick_leaf();
                self.snap.leaves[l].pos
            }
            _ => self.rng.range(0, total),
        }
    }

    // ------------------------------------------------------------ monitors after an operation

    pub fn run<T>(&mut self, k: OpK, f: impl FnOnce(&mut BTree<B>) -> T) -> Option<T> {
        let budget = 400_000 + 3000 * (self.model.len() as u64 + self.snap.leaves.len() as u64);
        arm_budget(budget);
        take_work();
        let r = {
            let t = &mut self.tree;
            guarded(|| f(t))
        };
        self.after_work(k);
        arm_budget(u64::MAX);
        CONTRACT.with(|c| {
            if let Some(m) = c.borrow_mut().take() {
                if r.is_ok() {
                    self.findings.push(Finding { tags: op_props(k).to_vec(), msg: format!("{}: {m}", op_name(k)) });
                    self.dead = true;
                }
            }
        });
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                let extra: &[&'static str] = if m.contains("STEP-BUDGET") { &["C04"] } else { &[] };
                self.opfind(k, extra, format!("panicked: {m}"));
                None
            }
        }
    }

    fn after_work(&mut self, k: OpK) {
        let steps = STEPS.with(|s| s.get());
        let w = take_work();
        self.last_steps = steps + w.calc_children;
        self.st.contract_calls += steps;
        if !matches!(k, InsertByPath | InsertQuery | Push | Prepend | RemoveLeaf | RemoveStale | UpdateLeaf | UpdateBySearch | Direct) {
            return;
        }
        let d = self.snap.depth.max(1) as u64;
        self.st.work_max("steps/level", steps / d);
        self.st.work_max("summaries_read/level", w.calc_children / d);
        self.st.work_max("recalculations/level", w.calc / d);
        // A node holds a constant number of summaries; rebalancing one level reads the summaries of a
        // constant number of nodes, and each operation passes over the levels a constant number of times.
        let lim = 120 * (d + 2);
        if steps > lim {
            self.findings.push(Finding {
                tags: vec!["C04"],
                msg: format!(
                    "{}: {} callback steps ({:?}) on a tree of {} elements and {} levels; limit {}",
                    op_name(k), steps, w, self.snap.leaves.len(), d, lim
                ),
            });
            self.dead = true;
        }
    }

    pub fn settle(&mut self, k: OpK, old_model: &[M], old: &Snap<B>, touched: &Touched) {
        self.st.states += 1;
        let snap = match guarded(|| Snap::take(&self.tree)) {
            Ok(Ok(s)) => s,
            Ok(Err(m)) => {
                self.opfind(k, &["C03"], format!("structure broken: {m}"));
                return;
            }
            Err(m) => {
                self.opfind(k, &["C03"], format!("structure broken, search panicked: {m}"));
                return;
            }
        };
        let nl = snap.leaves.len();
        self.st.max_leaves = self.st.max_leaves.max(nl as u64);
        self.st.max_depth = self.st.max_depth.max(snap.depth as u64);
        let sc = snap.shape_class();
        self.st.shapes.insert(sc);
        self.st.cases.insert(sc ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ touched.ivs.first().map(|x| ((x.0 as u64) << 32 | x.1 as u64).wrapping_mul(0xD6E8FEB86659FD93)).unwrap_or(0));

        // content
        let mut got: Vec<M> = Vec::with_capacity(self.model.len());
        for l in &snap.leaves {
            let e = self.tree.get_elem(l.idx).unwrap();
            from_elem(e, &mut got);
            if e.atoms.is_empty() && k != Rebuild {
                self.opfind(k, &["C01"], format!("the tree holds an empty removable element {:?}", l.idx));
            }
        }
        if got != self.model {
            let i = got.iter().zip(&self.model).position(|(a, b)| a != b).unwrap_or(got.len().min(self.model.len()));
            let lo = i.saturating_sub(3);
            let m = format!(
                "content differs from the model at unit {i}: tree has {} units {}, model has {} units {}",
                got.len(), ids(&got[lo.min(got.len())..]), self.model.len(), ids(&self.model[lo.min(self.model.len())..])
            );
            let attr_only = got.len() == self.model.len() && got.iter().zip(&self.model).all(|(a, b)| a.id == b.id);
            self.opfind(k, if attr_only { &[] } else { &[] }, m);
        }
        // iteration presents the same content
        {
            let mut it: Vec<M> = Vec::with_capacity(got.len());
            let lim = nl + 2;
            let t = &self.tree;
            match guarded(|| {
                let mut n = 0;
                for e in t.iter() {
                    n += 1;
                    if n > lim {
                        break;
                    }
                    from_elem(e, &mut it);
                }
            }) {
                Ok(()) => {
                    if it != got {
                        self.opfind(k, &["C13"], format!("iter() presents {} but the structure holds {}", ids(&it), ids(&got)));
                    }
                }
                Err(m) => self.opfind(k, &["C13"], format!("iter() panicked: {m}")),
            }
        }
        if self.tree.is_empty() != (nl == 0) {
            self.opfind(k, &["C01"], format!("is_empty() = {} with {nl} elements", self.tree.is_empty()));
        }
        // summaries
        self.check_caches(k, &snap);
        // structure
        let t = &self.tree;
        if let Err(m) = guarded(|| t.check()) {
            self.opfind(k, &["C03"], format!("built-in check rejects the state: {m}"));
        }
        let reach = nl + snap.nodes.len() + 1;
        if self.tree.node_len() != reach {
            let m = format!("node_len() = {} but {} nodes are reachable", self.tree.node_len(), reach);
            self.opfind(k, &["C03"], m);
        }
        let inner = (snap.nodes.len() + 1) as f64;
        let t = &self.tree;
        match guarded(|| t.internal_avg_children_num()) {
            Ok(a) if (a - (reach - 1) as f64 / inner).abs() < 1e-6 => {}
            Ok(a) if self.tree.node_len() == reach => {
                self.opfind(k, &["C03"], format!("internal_avg_children_num() = {a} with {} children in {inner} internal nodes", reach - 1))
            }
            Ok(_) => {}
            Err(m) => self.opfind(k, &["C03"], format!("internal_avg_children_num() panicked: {m}")),
        }
        let mut maxc = snap.root_children;
        let mut fullest = 0;
        let (mut thin, mut thinnest) = (usize::MAX, (0, nl.max(1)));
        for n in &snap.nodes {
            if n.children == 0 {
                self.opfind(k, &["C03"], "an internal node is empty".into());
            }
            if n.children > maxc {
                maxc = n.children;
                fullest = n.leaf_start;
            }
            if n.children < thin || n.children == thin && nl % 2 == 0 {
                thin = n.children;
                thinnest = (n.leaf_start, n.leaf_end);
            }
            let got = self.tree.get_internal(n.arena).len();
            if got != n.children {
                self.opfind(k, &["C03"], "child list length disagrees".into());
            }
        }
        if self.findings.is_empty() {
            for (i, l) in snap.leaves.iter().enumerate() {
                let p = self.tree.get_leaf(l.idx.into()).parent();
                if let Some(want) = snap.parents[i] {
                    if p != want {
                        self.opfind(k, &["C03"], format!("element {:?} has parent link {:?} but is a child of {:?}", l.idx, p, want));
                        break;
                    }
                }
            }
        }
        {
            let t = &self.tree;
            self.thinnest = thinnest;
            match guarded(|| t.depth()) {
                Ok(d) if d == snap.depth || nl == 0 && d <= 1 => {}
                Ok(d) => self.opfind(k, &["C03"], format!("depth() = {d}, observed {}", snap.depth)),
                Err(m) => self.opfind(k, &["C03"], format!("depth() panicked: {m}")),
            }
        }
        // a node too full for the next insertion
        if maxc >= 12 && nl > 0 && self.findings.is_empty() {
            let mut c = self.tree.clone();
            let at = snap.leaves[fullest].idx;
            let mut mk = self.gen_ms(1);
            mk[0].marker = true;
            let r = guarded(|| {
                for _ in 0..40 {
                    c.insert_by_path(Cursor { leaf: at, offset: 0 }, to_elem(&mk));
                }
            });
            if let Err(m) = r {
                self.opfind(k, &["C03"], format!("an internal node is left with {maxc} children and the next insertion fails: {m}"));
            }
        }
        // ownership
        let shadow_n = self.shadow.as_ref().map(|s| s.1.len()).unwrap_or(0) as i64;
        let want = self.base_live + self.model.len() as i64 + shadow_n;
        if live() != want {
            self.opfind(k, &["C18"], format!("{} live units but {} are owned by the trees and the caller", live(), want));
        }
        let want = nl as i64 + self.shadow.as_ref().map(|s| s.2.leaves.len()).unwrap_or(0) as i64;
        if live_elems() != want {
            self.opfind(k, &["C18"], format!("{} live elements but the trees hold {}", live_elems(), want));
        }
        // work of operations on many elements: those touched, and the way down to them
        let steps = self.last_steps;
        if matches!(k, Drain | Update | Batch | InsertMany | Rebuild) && steps > 0 {
            let d = old.depth.max(snap.depth) as u64;
            let hit = |s: &Snap<B>| s.leaves.iter().filter(|l| touched.ivs.iter().any(|&(a, b)| l.start <= b && a <= l.start + l.n)).count() as u64;
            let lv = d + 2;
            // number of elements (or ranges), the limit for each, how many more are removed one by one
            let (n, per, gone, what) = match k {
                Drain => (hit(old), 10, 0, "drain: steps/element beyond 60/level"),
                Update => (hit(old), 10, old.leaves.len().saturating_sub(nl) as u64, "update: steps/element beyond 60/level"),
                Rebuild => (self.given as u64, 10, 0, "from_iter: steps/element beyond 60/level"),
                InsertMany => (self.given as u64, 30 * lv, 0, "insert_many: steps/element beyond 60/level"),
                _ => (self.given as u64, 40 * lv, 0, "batch: steps/range beyond 60/level"),
            };
            let fixed = 60 * lv * (1 + gone);
            self.st.work_max(what, steps.saturating_sub(fixed) / n.max(1));
            if n * 4 < nl as u64 {
                self.st.read("work on a small part of a tree");
            }
            if steps > per * n + 5 * fixed / 2 {
                let m = format!("{steps} callback steps for {n} elements (or ranges) in a tree of {} elements and {d} levels; limit {}", nl.max(old.leaves.len()), per * n + 5 * fixed / 2);
                self.find(&["C25"], format!("{}: {m}", op_name(k)));
            }
        }
        self.last_steps = 0;
        // height
        if self.dead {
            return;
        }
        self.peak = self.peak.max(nl);
        let lim = height_limit(nl);
        if snap.depth > lim {
            self.opfind(k, &["C04"], format!("height {} with {nl} elements (largest so far {}), limit {lim}", snap.depth, self.peak));
        }
        self.st.work_max("height_minus_log6", (snap.depth as f64 - ((nl.max(1) as f64).ln() / 6f64.ln())).ceil().max(0.0) as u64);
        // handles
        self.check_handles(k, old_model, old, &snap, touched);
        self.snap = std::rc::Rc::new(snap);
        if self.shadow.is_some() && self.rng.chance(1, 12) {
            self.check_shadow();
        }
    }

    fn check_caches(&mut self, k: OpK, snap: &Snap<B>) {
        let mut exp: Vec<B::Cache> = Vec::with_capacity(snap.leaves.len());
        for (i, l) in snap.leaves.iter().enumerate() {
            let e = B::expect(self.tree.get_elem(l.idx).unwrap());
            if e != snap.leaf_caches[i] {
                let m = format!("summary of element {:?} is {:?}, recomputed {:?}", l.idx, snap.leaf_caches[i], e);
                self.opfind(k, &["C02"], m);
                return;
            }
            exp.push(e);
        }
        for n in &snap.nodes {
            let mut c = B::Cache::default();
            for x in &exp[n.leaf_start..n.leaf_end] {
                B::combine(&mut c, x);
            }
            if c != n.cache {
                let m = format!("summary of subtree {:?} (level {}, elements {}..{}) is {:?}, recomputed {:?}", n.arena, n.level, n.leaf_start, n.leaf_end, n.cache, c);
                self.opfind(k, &["C02"], m);
                return;
            }
        }
        let mut c = B::Cache::default();
        for x in &exp {
            B::combine(&mut c, x);
        }
        if &c != self.tree.root_cache() {
            let m = format!("root_cache() is {:?}, recomputed {:?}", self.tree.root_cache(), c);
            self.opfind(k, &["C02"], m);
        }
    }

    fn check_handles(&mut self, k: OpK, old_model: &[M], old: &Snap<B>, snap: &Snap<B>, touched: &Touched) {
        let mut present: Option<FxSet<u32>> = None;
        let mut bad: Option<String> = None;
        if !touched.all {
            for l in &old.leaves {
                self.st.handles_checked += 1;
                let (s, e) = (l.start, l.start + l.n);
                let hit = touched.ivs.iter().any(|&(a, b)| s <= b && a <= e);
                let now = snap.by_idx.get(&l.idx).map(|&i| &snap.leaves[i]);
                if !hit {
                    let Some(x) = now else {
                        bad = Some(format!("handle {:?} of an untouched element is absent", l.idx));
                        break;
                    };
                    if x.n != l.n || old_model[s..e].iter().zip(&self.model[x.start..x.start + x.n]).any(|(a, b)| a.id != b.id) {
                        bad = Some(format!("handle {:?} of an untouched element denoted {} and now {}", l.idx, ids(&old_model[s..e]), ids(&self.model[x.start..x.start + x.n])));
                        break;
                    }
                    continue;
                }
                if touched.exempt.contains(&l.idx) {
                    if now.is_none() {
                        self.bury(l.idx);
                    }
                    continue;
                }
                let first = old_model[s].id;
                match now {
                    Some(x) => {
                        let cur = &self.model[x.start..x.start + x.n];
                        if !cur.iter().any(|m| m.id == first) && !cur.iter().any(|m| old_model[s..e].iter().any(|o| o.id == m.id)) {
                            bad = Some(format!("handle {:?} denoted {} and now denotes unrelated content {}", l.idx, ids(&old_model[s..e]), ids(cur)));
                            break;
                        }
                        if !cur.iter().any(|m| m.id == first) && self.model.iter().any(|m| m.id == first) {
                            bad = Some(format!("handle {:?} denoted {} and now {}: it does not keep the left part", l.idx, ids(&old_model[s..e]), ids(cur)));
                            break;
                        }
                    }
                    None => {
                        let p = present.get_or_insert_with(|| self.model.iter().map(|m| m.id).collect());
                        if p.contains(&first) {
                            bad = Some(format!("handle {:?} denoted {}, whose first unit is still in the tree, but it is absent", l.idx, ids(&old_model[s..e])));
                            break;
                        }
                        self.bury(l.idx);
                    }
                }
            }
        }
        for h in &self.grave {
            self.st.handles_checked += 1;
            if let Some(e) = self.tree.get_elem(*h) {
                bad = Some(format!("handle {h:?} of a removed element is present again: {e:?}"));
                break;
            }
        }
        if let Some(m) = bad {
            self.opfind(k, &["C06"], m);
        }
    }
    fn bury(&mut self, h: LeafIndex) {
        if self.grave.len() < 150 {
            self.grave.push(h);
        } else {
            let i = self.rng.below(150);
            self.grave[i] = h;
        }
    }

    pub fn check_shadow(&mut self) {
        let Some((t, m, s)) = &self.shadow else { return };
        let mut err = None;
        match guarded(|| Snap::take(t)) {
            Ok(Ok(n)) => {
                let same = n.leaves.len() == s.leaves.len() && n.leaves.iter().zip(&s.leaves).all(|(a, b)| a.idx == b.idx && a.n == b.n);
                if !same || n.shape != s.shape {
                    err = Some("a clone changed its structure although only the other tree was operated on".to_string());
                } else {
                    let mut got = vec![];
                    for l in &n.leaves {
                        from_elem(t.get_elem(l.idx).unwrap(), &mut got);
                    }
                    if &got != m {
                        err = Some(format!("a clone holds {} instead of {} after operations on the other tree", ids(&got), ids(m)));
                    } else if let Err(m) = guarded(|| t.check()) {
                        err = Some(format!("a clone is inconsistent: {m}"));
                    } else if n.leaf_caches != s.leaf_caches || t.node_len() != n.leaves.len() + n.nodes.len() + 1 {
                        err = Some("a clone's summaries or node count changed".to_string());
                    }
                }
            }
            Ok(Err(m)) | Err(m) => err = Some(format!("a clone is broken: {m}")),
        }
        self.st.read("clone checked after operations on the other tree");
        if let Some(m) = err {
            self.find(&["C17"], m);
        }
    }
}

/// Height bound: nodes hold four children or more on average along every path; the bound is on growth
/// with the logarithm of the current number of elements, not on the fan-out of the implementation.
pub fn height_limit(n: usize) -> usize {
    ((n.max(1) as f64).ln() / 4f64.ln() + 1.5).floor() as usize
}
