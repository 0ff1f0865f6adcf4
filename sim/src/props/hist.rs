//! Seeded call histories over a pool of live values (C11-C14, C16, C18).
//!
//! Every value has a model beside it.  After every call the whole pool is observed through the public
//! interface: the receiver must be in one of the states the call allows, everything else unchanged.
use crate::core::*;
use crate::lib_gen::{apply_change, bell_name};
use crate::vals::*;
use crate::{check, ev, violate};
use bellframe::row::RowAccumulator;
use bellframe::{Mask, PlaceNot, PnBlock, Row, RowBuf, SameStageVec};
use std::borrow::BorrowMut;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    /// C11: values stay valid.
    Valid,
    /// C12: errors change nothing.
    Atomic,
    /// C13, C14, C16, C18: values behave as their models.
    Vecs,
    Blocks,
    Bufs,
    Masks,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Row,
    Vec,
    Block,
    Acc,
    Mask,
    Pn,
    Pnb,
    Shared,
}
pub enum Val {
    Gone,
    Row(RowBuf),
    Rc(Rc<Row>),
    Arc(Arc<Row>),
    Vec(SameStageVec),
    Block(Block),
    Acc(RowAccumulator),
    Mask(Mask),
    Pn(PlaceNot),
    Pnb(PnBlock),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Mod {
    Gone,
    Row(R),
    Vec(usize, Vec<R>),
    Block(Vec<R>, Vec<usize>),
    Mask(Vec<Option<usize>>),
    Pn(usize, Vec<usize>),
    Pnb(usize, Vec<Vec<usize>>),
}
impl Mod {
    fn show(&self) -> String {
        let rows = |r: &[R]| {
            let v: Vec<String> = r.iter().take(12).map(|r| text(r)).collect();
            format!("[{}{}]", v.join(" "), if r.len() > 12 { " .." } else { "" })
        };
        match self {
            Mod::Gone => "nothing".into(),
            Mod::Row(r) => text(r),
            Mod::Vec(n, r) => format!("{}:{}", n, rows(r)),
            Mod::Block(r, a) => format!("{}{:?}", rows(r), a),
            Mod::Mask(m) => m.iter().map(|b| b.map_or("x".into(), bell_name)).collect(),
            Mod::Pn(n, p) => format!("{n}:{p:?}"),
            Mod::Pnb(n, p) => format!("{n}:{p:?}"),
        }
    }
}
/// Reads a value through the public interface.  Err: the value is not valid at all.
fn observe(v: &Val) -> Result<Mod, String> {
    let row = |r: &Row| -> Result<R, String> {
        let m = of(r);
        if is_perm(&m) { Ok(m) } else { Err(format!("{m:?} is not a row")) }
    };
    let rows = |v: &SameStageVec| -> Result<(usize, Vec<R>), String> {
        let n = v.stage().num_bells();
        let l = guard(|| v.len()).map_err(|p| format!("its length cannot be read: {} at {}", p.msg, p.loc))?;
        let all = guard(|| v.iter().map(of).collect::<Vec<R>>()).map_err(|p| format!("its rows cannot be read: {} at {}", p.msg, p.loc))?;
        if all.len() != l {
            return Err(format!("it holds {} rows but its length is {l}", all.len()));
        }
        for r in &all {
            if r.len() != n || !is_perm(r) {
                return Err(format!("{r:?} is not a row of {n} bells"));
            }
        }
        Ok((n, all))
    };
    Ok(match v {
        Val::Gone => Mod::Gone,
        Val::Row(r) => Mod::Row(row(r)?),
        Val::Rc(r) => Mod::Row(row(r)?),
        Val::Arc(r) => Mod::Row(row(r)?),
        Val::Acc(a) => Mod::Row(row(a.total())?),
        Val::Vec(v) => {
            let (n, r) = rows(v)?;
            Mod::Vec(n, r)
        }
        Val::Block(b) => {
            let (n, r) = rows(b.row_vec())?;
            if b.stage().num_bells() != n {
                return Err("a block and its rows have different stages".into());
            }
            let a: Vec<usize> = b
                .annots()
                .map(|a| {
                    a.check();
                    a.id
                })
                .collect();
            if r.len() != a.len() + 1 || b.len() != a.len() {
                return Err(format!("a block holds {} rows and {} annotations and has length {}", r.len(), a.len(), b.len()));
            }
            Mod::Block(r, a)
        }
        Val::Mask(m) => {
            if let Ok(Some(r)) = guard(|| m.as_row()) {
                row(&r)?;
            }
            Mod::Mask(mask_of(m))
        }
        Val::Pn(p) => {
            let n = p.stage().num_bells();
            let t = guard(|| p.transposition()).map_err(|e| format!("place notation {p} cannot be applied: {} at {}", e.msg, e.loc))?;
            row(&t)?;
            Mod::Pn(n, (0..n).filter(|i| p.contains(*i)).collect())
        }
        Val::Pnb(b) => {
            let n = b.stage().num_bells();
            let mut v = vec![];
            for p in b.place_nots() {
                if p.stage().num_bells() != n {
                    return Err("a block of place notation holds different stages".into());
                }
                let t = guard(|| p.transposition()).map_err(|e| format!("place notation {p} cannot be applied: {} at {}", e.msg, e.loc))?;
                row(&t)?;
                v.push((0..n).filter(|i| p.contains(*i)).collect());
            }
            if v.is_empty() || v.len() != b.len() {
                return Err("a block of place notation with the wrong length".into());
            }
            Mod::Pnb(n, v)
        }
    })
}
/// One outcome a call may have: its kind, the error's description, the receiver's state afterwards.
struct Exp {
    kind: u8, // 0 Ok, 1 Err, 2 panic, 3 interrupted by a callback
    errs: Option<Vec<String>>,
    after: Mod,
}
fn ok(m: Mod) -> Exp {
    Exp { kind: 0, errs: None, after: m }
}
fn err(m: Mod, errs: Vec<String>) -> Exp {
    Exp { kind: 1, errs: Some(errs), after: m }
}
fn err_any(m: Mod) -> Exp {
    Exp { kind: 1, errs: None, after: m }
}
fn pan(m: Mod) -> Exp {
    Exp { kind: 2, errs: None, after: m }
}
fn cut(m: Mod) -> Exp {
    Exp { kind: 3, errs: None, after: m }
}

pub struct Hist {
    focus: Focus,
    pool: Vec<(Val, Mod)>,
    /// Rates in thousandths: callbacks that panic, arguments of another stage.
    fuse: usize,
    other: usize,
    next_ann: usize,
    failed: bool,
}
impl Hist {
    fn strict(&self) -> bool {
        !matches!(self.focus, Focus::Valid | Focus::Atomic)
    }
    fn class(&self) -> &'static str {
        match self.focus {
            Focus::Valid => "invalid-value",
            Focus::Atomic => "changed-by-a-failed-call",
            _ => "differs-from-the-model",
        }
    }
    fn add(&mut self, v: Val, m: Mod) {
        let room = if ctx().big > 0 { 5 } else { 10 };
        if self.pool.len() < room {
            self.pool.push((v, m));
        } else {
            let i = pick(room);
            self.pool[i] = (v, m);
        }
    }
    /// A newly made value: is it what it should be?  (None: no expectation, just take it as it is.)
    fn made(&mut self, op: &str, v: Val, want: Option<Mod>) {
        match observe(&v) {
            Err(e) if self.focus != Focus::Atomic => violate!("invalid-value", "{op} made an invalid value: {e}"),
            Err(_) => {}
            Ok(got) => {
                if let (true, Some(w)) = (self.strict(), &want) {
                    check!(got == *w, self.class(), "{op} made {} instead of {}", got.show(), w.show());
                }
                self.add(v, got);
            }
        }
    }
    fn find(&self, kind: Kind) -> Option<usize> {
        let is: Vec<usize> = (0..self.pool.len())
            .filter(|&i| match (&self.pool[i].0, kind) {
                (Val::Row(_), Kind::Row) | (Val::Vec(_), Kind::Vec) | (Val::Block(_), Kind::Block) | (Val::Acc(_), Kind::Acc) => true,
                (Val::Mask(_), Kind::Mask) | (Val::Pn(_), Kind::Pn) | (Val::Pnb(_), Kind::Pnb) => true,
                (Val::Rc(_), Kind::Shared) | (Val::Arc(_), Kind::Shared) => true,
                _ => false,
            })
            .collect();
        if is.is_empty() { None } else { Some(*pick_ref(&is)) }
    }
    fn get(&mut self, kind: Kind) -> usize {
        match self.find(kind) {
            Some(i) => i,
            None => {
                self.make(kind);
                match self.find(kind) {
                    Some(i) => i,
                    None => {
                        // the making call failed (as it may): make one that cannot
                        let (v, m) = basic(kind);
                        self.pool.push((v, m));
                        self.pool.len() - 1
                    }
                }
            }
        }
    }
    fn take(&mut self, i: usize) -> (Val, Mod) {
        (std::mem::replace(&mut self.pool[i].0, Val::Gone), self.pool[i].1.clone())
    }
    /// Puts the receiver back and judges the call by its outcome.
    fn back(&mut self, op: &str, i: usize, v: Val, out: &Out<()>, exps: Vec<Exp>) {
        let before = self.pool[i].1.clone();
        let kind = match out {
            Out::Ok(()) => 0,
            Out::Err(_) => 1,
            Out::Panic(p) => 2 + p.injected as u8,
        };
        let gone = matches!(v, Val::Gone);
        self.pool[i].0 = v;
        match observe(&self.pool[i].0) {
            Err(e) => {
                if self.focus == Focus::Atomic {
                    if kind == 1 {
                        violate!(self.class(), "{op} returned an error and left its receiver broken: {e}; before: {}", before.show());
                    }
                    self.pool.swap_remove(i);
                    return;
                }
                violate!("invalid-value", "after {op} ({}): {e}; before: {}", out.kind(), before.show())
            }
            Ok(after) => {
                if kind == 1 {
                    probe("a call returned an error");
                    self.failed = true;
                    if self.focus == Focus::Atomic {
                        let Out::Err(e) = out else { unreachable!() };
                        check!(after == before || gone, self.class(), "{op} failed ({e}) but changed its receiver from {} to {}", before.show(), after.show());
                        let mut any_err = false;
                        let mut described = false;
                        for x in exps.iter().filter(|x| x.kind == 1) {
                            any_err = true;
                            described |= x.errs.as_ref().map_or(true, |l| l.contains(e));
                        }
                        check!(any_err, "error-without-a-cause", "{op} failed although nothing is wrong with the call: {e}");
                        check!(described, "error-misdescribed", "{op} reported {e:?}; the mismatch is {:?}", exps.iter().filter(|x| x.kind == 1).filter_map(|x| x.errs.clone()).collect::<Vec<_>>());
                    }
                }
                if kind >= 2 {
                    probe("a call panicked");
                    self.failed = true;
                }
                if self.strict() {
                    let fits = exps.iter().any(|x| x.kind == kind && x.after == after);
                    if !fits {
                        let what = match out {
                            Out::Err(e) => format!("returned the error {e:?}"),
                            Out::Panic(p) if p.injected => "was interrupted".into(),
                            Out::Panic(p) => format!("panicked ({} at {})", p.msg, p.loc),
                            Out::Ok(()) => "returned".into(),
                        };
                        let allowed: Vec<String> = exps
                            .iter()
                            .take(3)
                            .map(|x| format!("{} {}", ["Ok", "error", "panic", "interrupted"][x.kind as usize], x.after.show()))
                            .collect();
                        violate!(self.class(), "{op} {what} and left {}; before: {}; allowed: {}", after.show(), before.show(), allowed.join(" or "));
                    }
                    checked();
                }
                ev!("{op} -> {} {}", out.kind(), after.show());
                shape(hash_bytes(kind as u64, op.split('(').next().unwrap_or("").as_bytes()));
                self.pool[i].1 = after;
            }
        }
        if gone {
            self.pool.swap_remove(i);
        }
    }
    /// Nothing but the receiver may have changed.
    fn others(&mut self, op: &str) {
        for i in 0..self.pool.len() {
            match observe(&self.pool[i].0) {
                Err(e) if self.focus != Focus::Atomic => violate!("invalid-value", "after {op}, another value: {e}"),
                Err(_) => {}
                Ok(m) => {
                    if m != self.pool[i].1 {
                        if self.focus != Focus::Valid {
                            violate!(self.class(), "{op} changed another value from {} to {}", self.pool[i].1.show(), m.show());
                        }
                        self.pool[i].1 = m;
                    }
                }
            }
        }
        checked();
    }
    fn ann(&mut self) -> Ann {
        self.next_ann += 1;
        Ann::new(self.next_ann)
    }
    /// An argument row for something of stage n.
    fn arg(&self, n: usize) -> R {
        let k = near_stage(n, self.other);
        // often one that lives in the pool
        if pick(3) == 2 {
            if let Some(i) = self.find(Kind::Row) {
                if let Mod::Row(r) = &self.pool[i].1 {
                    return r.clone();
                }
            }
        }
        gen_row(k)
    }
}
fn basic(kind: Kind) -> (Val, Mod) {
    let r = real(&rounds(4));
    match kind {
        Kind::Row => (Val::Row(r), Mod::Row(rounds(4))),
        Kind::Vec => (Val::Vec(SameStageVec::new(stage(4))), Mod::Vec(4, vec![])),
        Kind::Block => (Val::Block(Block::empty(stage(4))), Mod::Block(vec![rounds(4)], vec![])),
        Kind::Acc => (Val::Acc(RowAccumulator::new(r)), Mod::Row(rounds(4))),
        Kind::Mask => (Val::Mask(Mask::empty(stage(4))), Mod::Mask(vec![None; 4])),
        Kind::Pn => (Val::Pn(to_pn(4, &[])), Mod::Pn(4, vec![])),
        Kind::Pnb => match PnBlock::from_vec(vec![to_pn(4, &[])]) {
            Ok(b) => (Val::Pnb(b), Mod::Pnb(4, vec![vec![]])),
            Err(e) => violate!("differs-from-the-model", "a valid block of place notation was rejected: {e}"),
        },
        Kind::Shared => (Val::Rc(r.to_rc()), Mod::Row(rounds(4))),
    }
}
fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn range_of(max: usize) -> ((std::ops::Bound<usize>, std::ops::Bound<usize>), usize, usize) {
    use std::ops::Bound::*;
    // mostly within 0..=max
    let a = if chance(60) { max + 1 + pick(3) } else { pick(max + 1) };
    let b = if chance(60) { max + 1 + pick(3) } else if chance(60) { pick(max + 1) } else { a + pick(max.saturating_sub(a) + 1) };
    let lo = match pick(4) {
        0 => (Unbounded, 0),
        1 if a > 0 => (Excluded(a - 1), a),
        _ => (Included(a), a),
    };
    let hi = match pick(4) {
        0 => (Unbounded, max),
        1 if b > 0 => (Included(b - 1), b),
        _ => (Excluded(b), b),
    };
    // now and then as far as numbers go
    let lo = if chance(12) { (Excluded(usize::MAX), usize::MAX) } else { lo };
    let hi = if chance(12) { (if pick(2) == 0 { Included(usize::MAX) } else { Excluded(usize::MAX) }, usize::MAX) } else { hi };
    ((lo.0, hi.0), lo.1, hi.1)
}
/// Changes bells such that a checksum of the row (sum, sum and squares, exclusive or, a set of few bits) stays the same.
fn lookalike(r: &mut R, limit: usize) {
    let n = r.len();
    for _ in 0..1 + small(3) {
        let (a, b, c) = (pick(n), pick(n), pick(n));
        match pick(4) {
            0 if a != b && r[a] + 1 < limit && r[b] > 0 => {
                let k = 1 + pick(r[b].min(limit - 1 - r[a]));
                r[a] += k;
                r[b] -= k;
            }
            1 if a != b => {
                let k = 1 << pick(5);
                if (r[a] ^ k).max(r[b] ^ k) < limit {
                    r[a] ^= k;
                    r[b] ^= k;
                }
            }
            2 if a != b && b != c && a != c => {
                let (x, y, z) = (r[a], r[b], r[c]);
                let m = n.min(13).max(x).max(y).min(limit - 1);
                let mut others = vec![];
                for i in 0..=m {
                    for j in 0..=i {
                        if let Some(k) = (x + y + z).checked_sub(i + j) {
                            if k <= j && k < limit && i * i + j * j + k * k == x * x + y * y + z * z {
                                others.push((i, j, k));
                            }
                        }
                    }
                }
                if !others.is_empty() {
                    let o = others[pick(others.len())];
                    r[a] = o.0;
                    r[b] = o.1;
                    r[c] = o.2;
                }
            }
            3 => {
                let v = r[a] + [8, 16, 32, 64, 128][pick(5)];
                if v < limit {
                    r[a] = v;
                }
            }
            _ => {}
        }
    }
}
fn sloppy_text(n: usize, other: usize) -> (String, R) {
    // names of bells with noise between; sometimes not a row
    let mut r = gen_row(near_stage(n.min(33), other).min(33));
    match pick(10) {
        0 => {
            r.pop();
        }
        1 => {
            let (a, b) = (pick(r.len()), pick(r.len()));
            r[a] = r[b]
        }
        2 => r.clear(),
        3 if chance(300) => lookalike(&mut r, 33),
        _ => {}
    }
    let mut s = String::new();
    for b in &r {
        if pick(8) == 7 {
            s.push_str([" ", "-", "\t", "x", "\u{e9}", "I"][pick(6)]);
        }
        s.push_str(&bell_name(*b));
    }
    (s, r)
}

include!("hist_ops.rs");

pub fn run(focus: Focus) {
    maybe_big();
    let mut h = Hist {
        focus,
        pool: vec![],
        fuse: [0, 0, 150, 500][if ctx().big == 2 { 0 } else { pick(4) }],
        other: if focus == Focus::Atomic { 400 } else { [0, 60, 250][pick(3)] },
        next_ann: 0,
        failed: false,
    };
    let kinds: &[Kind] = match focus {
        Focus::Valid | Focus::Atomic => &[Kind::Row, Kind::Vec, Kind::Block, Kind::Acc, Kind::Mask, Kind::Pn, Kind::Pnb, Kind::Vec, Kind::Block],
        Focus::Vecs => &[Kind::Vec],
        Focus::Blocks => &[Kind::Block],
        Focus::Bufs => &[Kind::Row, Kind::Row, Kind::Acc],
        Focus::Masks => &[Kind::Mask],
    };
    let steps = [4, 8, 16, 30][pick(4)].min(if ctx().big > 0 { 12 } else { 30 });
    let mut ops = 0;
    for _ in 0..steps {
        span(|| {
            let k = *pick_ref(kinds);
            if focus == Focus::Valid && pick(12) == 11 {
                let n = 2 + pick(4);
                let gens = gen_rows(n, 2);
                return super::groups::shifting(n, &gens);
            }
            if pick(5) == 0 || h.find(k).is_none() {
                h.make(k);
            } else {
                match k {
                    Kind::Row => h.row_op(),
                    Kind::Vec => h.vec_op(),
                    Kind::Block => h.block_op(),
                    Kind::Acc => h.acc_op(),
                    Kind::Mask => h.mask_op(),
                    _ => h.pn_op(),
                }
                ops += 1;
            }
        });
    }
    if ops >= 3 && (h.failed || focus != Focus::Atomic) {
        nontrivial();
    }
    // everything is dropped while still valid
    for i in 0..h.pool.len() {
        h.deep(i);
    }
    let pool = std::mem::take(&mut h.pool);
    let r = guard(move || drop(pool));
    if let Err(p) = r {
        violate!("invalid-value", "dropping the values panicked: {} at {}", p.msg, p.loc);
    }
}
pub fn c11() {
    run(Focus::Valid)
}
pub fn c12() {
    run(Focus::Atomic)
}
pub fn c13() {
    run(Focus::Vecs)
}
pub fn c14() {
    run(Focus::Blocks)
}
pub fn c16() {
    run(Focus::Bufs)
}
pub fn c18() {
    run(Focus::Masks)
}
