//! Models of the library's values, generators for them, and hostile caller-side helpers.
use crate::core::*;
use crate::lib_gen::{apply_change, bell_name, gen_change, BELL_NAMES};
use bellframe::{AnnotBlock, Bell, IncompatibleStages, Mask, PlaceNot, Row, RowBuf, SameStageVec, Stage};
use std::cell::Cell;

/// A row as a list of bell indices.
pub type R = Vec<usize>;

pub fn rounds(n: usize) -> R {
    (0..n).collect()
}
pub fn is_perm(r: &[usize]) -> bool {
    let mut seen = vec![false; r.len()];
    !r.is_empty() && r.iter().all(|&b| b < seen.len() && !std::mem::replace(&mut seen[b], true))
}
pub fn mul(a: &[usize], b: &[usize]) -> R {
    b.iter().map(|&x| a[x]).collect()
}
pub fn inv(a: &[usize]) -> R {
    let mut r = vec![0; a.len()];
    for (i, &b) in a.iter().enumerate() {
        r[b] = i;
    }
    r
}
pub fn pow(a: &[usize], n: isize) -> R {
    let base = if n < 0 { inv(a) } else { a.to_vec() };
    let mut r = rounds(a.len());
    for _ in 0..n.unsigned_abs() {
        r = mul(&r, &base);
    }
    r
}
pub fn text(r: &[usize]) -> String {
    r.iter().map(|b| bell_name(*b)).collect()
}
pub fn bell(i: usize) -> Bell {
    Bell::from_index(i)
}
pub fn stage(n: usize) -> Stage {
    Stage::new(n)
}
pub fn real(r: &[usize]) -> RowBuf {
    match RowBuf::from_vec(r.iter().map(|b| bell(*b)).collect()) {
        Ok(r) => r,
        Err(e) => violation("model-row-rejected", &format!("the valid row {} was rejected: {e}", text(r))),
    }
}
/// What a row holds, read through two ways of access.
pub fn of(r: &Row) -> R {
    r.slice().iter().map(|b| b.index()).collect()
}
pub fn gen_row(n: usize) -> R {
    let mut r = rounds(n);
    match pick(5) {
        0 => {}
        1 => r.reverse(),
        2 => {
            let (a, b) = (pick(n), pick(n));
            r.swap(a, b)
        }
        _ => {
            for i in (1..n).rev() {
                let j = pick(i + 1);
                r.swap(i, j);
            }
        }
    }
    r
}
/// Small stages, biased to collide.
pub fn gen_stage() -> usize {
    match pick(8) {
        0..=2 => 4,
        3 => 5,
        4 => 3,
        5 => 6,
        6 => 1 + pick(3),
        _ => [8, 12, 16, 33, 40][pick(5)],
    }
}
/// The same stage, or (in thousandths) another one.
pub fn near_stage(n: usize, other: usize) -> usize {
    if chance(other) {
        match pick(4) {
            0 if n > 1 => n - 1,
            1 => 2 * n,
            2 => gen_stage(),
            _ => n + 1,
        }
    } else {
        n
    }
}
/// Decides whether this run has long collections in it.
pub fn maybe_big() {
    ctx().big = match pick(256) {
        0..=247 => 0,
        255 => 2,
        _ => 1,
    };
}
/// How long a list should be if it is to be a long one.
pub fn big_len(n: usize) -> Option<usize> {
    let big = ctx().big;
    if big == 0 || pick(3) != 2 {
        return None;
    }
    probe("a list of more than 256 items");
    let some = 257 + pick(80);
    Some(match (big, pick(2)) {
        (2, 1) if n >= 8 => {
            probe("a list of more than 65536 bells");
            65536 / n + 1 + pick(9)
        }
        _ => some,
    })
}
/// Many rows out of few choices.
pub fn many_rows(n: usize, k: usize) -> Vec<R> {
    let base = [gen_row(n), gen_row(n), gen_row(n)];
    let mut v = vec![gen_row(n)];
    for i in 1..k {
        let r = mul(&v[i - 1], &base[(i * i + i / 7) % 3]);
        v.push(r);
    }
    v
}
pub fn gen_rows(n: usize, max: usize) -> Vec<R> {
    if max >= 5 {
        if let Some(k) = big_len(n) {
            return many_rows(n, k);
        }
    }
    let k = small(max);
    (0..k).map(|_| gen_row(n)).collect()
}
pub fn to_vec(n: usize, rows: &[R]) -> SameStageVec {
    let mut v = SameStageVec::new(stage(n));
    for r in rows {
        if v.push(&real(r)).is_err() {
            violation("model-row-rejected", "pushing a row of the right stage failed");
        }
    }
    v
}
pub fn parse_names(s: &str) -> R {
    s.chars().filter_map(|c| BELL_NAMES.find(c)).collect()
}
pub fn changes_rows(start: &[usize], cs: &[Vec<usize>]) -> Vec<R> {
    let mut v = vec![start.to_vec()];
    for c in cs {
        let n = apply_change(v.last().unwrap(), c);
        v.push(n);
    }
    v
}
pub fn gen_changes(n: usize, max: usize) -> Vec<Vec<usize>> {
    if max >= 5 {
        if let Some(k) = big_len(n) {
            let base = [gen_change(n), gen_change(n), gen_change(n)];
            return (0..k).map(|i| base[(i * i + i / 7) % 3].clone()).collect();
        }
    }
    (0..1 + pick(max.max(1))).map(|_| gen_change(n)).collect()
}
pub fn to_pn(n: usize, c: &[usize]) -> PlaceNot {
    let a = real(&rounds(n));
    let b = real(&apply_change(&rounds(n), c));
    match PlaceNot::pn_between(&a, &b) {
        Some(p) => p,
        None => violation("model-pn-rejected", &format!("no place notation between {a} and {b}")),
    }
}
/// Reads a mask back through its text (which shows more than `place_of` if it holds a bell twice).
pub fn mask_of(m: &Mask) -> Vec<Option<usize>> {
    let t = m.to_string();
    let mut v = vec![];
    let mut it = t.chars();
    while let Some(c) = it.next() {
        v.push(match c {
            'x' | 'X' | '.' => None,
            '<' => it.by_ref().take_while(|c| *c != '>').collect::<String>().parse::<usize>().ok().map(|b| b.wrapping_sub(1)),
            c => BELL_NAMES.find(c),
        });
    }
    v
}
/// The error that a stage mismatch should be described by (either way round).
pub fn stage_errs(a: usize, b: usize) -> Vec<String> {
    let f = |x, y| match IncompatibleStages::test_err(stage(x), stage(y)) {
        Err(e) => e.to_string(),
        Ok(()) => String::new(),
    };
    vec![f(a, b), f(b, a)]
}

// ---- callbacks that panic ---------------------------------------------------------------------------
thread_local! {
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}
/// Every callback of the workload passes here; when the fuse has burnt down it panics.
pub fn tick() {
    let f = FUSE.get();
    if f > 0 {
        FUSE.set(f - 1);
    } else if f == 0 {
        FUSE.set(-1);
        FIRED.set(true);
        inject_panic();
    }
}
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(Panicked),
}
impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "Ok",
            Out::Err(_) => "an error",
            Out::Panic(p) if p.injected => "interrupted",
            Out::Panic(_) => "a panic",
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(p) => Out::Panic(p),
        }
    }
    pub fn unit(&self) -> Out<()> {
        match self {
            Out::Ok(_) => Out::Ok(()),
            Out::Err(e) => Out::Err(e.clone()),
            Out::Panic(p) => Out::Panic(p.clone()),
        }
    }
}
/// Calls code under test with a fuse (in thousandths) on the callbacks it is given.
pub fn call<T, E: std::fmt::Display>(fuse: usize, f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    let n = if chance(fuse) { small(12) as i64 } else { -1 };
    FUSE.set(n);
    let r = guard(f);
    FUSE.set(-1);
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(p),
    }
}
/// The same for calls that do not return a `Result`.
pub fn plain<T>(fuse: usize, f: impl FnOnce() -> T) -> Out<T> {
    call(fuse, || Ok::<T, String>(f()))
}

/// An annotation that notices being dropped twice and whose clones may panic.
pub struct Ann {
    pub id: usize,
    alive: u64,
}
const ALIVE: u64 = 0xA11F_E5_0F_A11F_E5;
impl Ann {
    pub fn new(id: usize) -> Ann {
        Ann { id, alive: ALIVE }
    }
    pub fn check(&self) {
        if self.alive != ALIVE {
            violation("invalid-annotation", "an annotation was used after it had been dropped, or was never created");
        }
    }
}
impl Default for Ann {
    fn default() -> Self {
        tick();
        Ann::new(0)
    }
}
impl Clone for Ann {
    fn clone(&self) -> Self {
        self.check();
        tick();
        Ann::new(self.id)
    }
}
impl Drop for Ann {
    fn drop(&mut self) {
        if self.alive != ALIVE {
            violation("invalid-annotation", "an annotation was dropped twice, or was never created");
        }
        // (volatile: the value is gone as far as the compiler is concerned)
        unsafe { std::ptr::write_volatile(&mut self.alive, 0xDEAD) };
    }
}
impl PartialEq for Ann {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Ann {}
impl std::hash::Hash for Ann {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl std::fmt::Debug for Ann {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ann{}", self.id)
    }
}
pub type Block = AnnotBlock<Ann>;

/// Something that converts to a row, but not necessarily to the same one every time.
pub struct Shifty {
    rows: Vec<RowBuf>,
    n: Cell<usize>,
}
impl Shifty {
    pub fn new(rows: Vec<RowBuf>) -> Self {
        Shifty { rows, n: Cell::new(0) }
    }
}
impl AsRef<Row> for Shifty {
    fn as_ref(&self) -> &Row {
        tick();
        let n = self.n.get();
        self.n.set(n + 1);
        if n > 0 && self.rows.len() > 1 {
            fault("conversion-changed-its-answer");
        }
        &self.rows[n % self.rows.len()]
    }
}
/// A caller's iterator: may panic, misstate its length, or go on after having ended.
pub struct Feed<T> {
    items: std::vec::IntoIter<T>,
    hint: usize,
    pub yielded: &'static Cell<usize>,
}
impl<T> Feed<T> {
    pub fn new(items: Vec<T>) -> Self {
        let hint = pick(5);
        if hint > 1 {
            fault("iterator-misstates-its-length");
        }
        Feed { items: items.into_iter(), hint, yielded: Box::leak(Box::new(Cell::new(0))) }
    }
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick();
        let r = self.items.next();
        if r.is_some() {
            self.yielded.set(self.yielded.get() + 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 | 1 => (n, Some(n)),
            2 => (0, None),
            3 => (0, Some(0)),
            _ => (n + 3, Some(n + 3)),
        }
    }
}
