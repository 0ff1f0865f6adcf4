//! Groups, closures and products (C17): the same answer in every process, whatever the hash seeds, the
//! order and the repetitions of the input, and no wrong-stage row from an iterator that changes.
use super::libs::{preempt_off, preempt_on, simple_world};
use crate::core::*;
use crate::vals::*;
use crate::{check, ev, violate};
use bellframe::{Row, RowBuf};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

const CAP: usize = 800;
/// All products of some rows; None if there are too many.
fn m_group(gens: &[R]) -> Option<BTreeSet<R>> {
    let mut set: BTreeSet<R> = gens.iter().cloned().collect();
    let mut todo: Vec<R> = set.iter().cloned().collect();
    while let Some(r) = todo.pop() {
        for g in gens {
            let p = mul(&r, g);
            if set.insert(p.clone()) {
                if set.len() > CAP {
                    return None;
                }
                todo.push(p);
            }
        }
    }
    Some(set)
}
fn m_is_group(rows: &[R]) -> bool {
    let set: BTreeSet<&R> = rows.iter().collect();
    !set.is_empty() && rows.iter().all(|a| rows.iter().all(|b| set.contains(&mul(a, b))))
}
/// The same rows in another order, some of them repeatedly.
fn scramble(rows: &[R], times: usize) -> Vec<R> {
    let mut v: Vec<R> = rows.to_vec();
    for _ in 0..pick(times + 1) {
        if !rows.is_empty() {
            v.push(pick_ref(rows).clone());
        }
    }
    for i in (1..v.len()).rev() {
        let j = pick(i + 1);
        v.swap(i, j);
    }
    v
}
fn reals(v: &[R]) -> Vec<RowBuf> {
    v.iter().map(|r| real(r)).collect()
}
fn show(v: &[R]) -> String {
    let s: Vec<String> = v.iter().take(30).map(|r| text(r)).collect();
    format!("{{{}}}{}", s.join(" "), if v.len() > 30 { " .." } else { "" })
}
/// An iterable whose passes and clones yield different rows.
#[derive(Clone)]
struct Shift<'a> {
    passes: &'a [Vec<RowBuf>],
    n: Rc<Cell<usize>>,
}
impl<'a> IntoIterator for Shift<'a> {
    type Item = &'a Row;
    type IntoIter = ShiftIter<'a>;
    fn into_iter(self) -> ShiftIter<'a> {
        tick();
        let n = self.n.get();
        self.n.set(n + 1);
        if n > 0 {
            fault("iterator-changed-between-passes");
        }
        ShiftIter { rows: self.passes[n % self.passes.len()].iter() }
    }
}
struct ShiftIter<'a> {
    rows: std::slice::Iter<'a, RowBuf>,
}
impl<'a> Iterator for ShiftIter<'a> {
    type Item = &'a Row;
    fn next(&mut self) -> Option<&'a Row> {
        tick();
        self.rows.next().map(|r| r.as_row())
    }
}
/// An iterator whose clones go on with something else.
struct Fork<'a> {
    passes: &'a [Vec<RowBuf>],
    pass: usize,
    at: usize,
    clones: Rc<Cell<usize>>,
}
impl Clone for Fork<'_> {
    fn clone(&self) -> Self {
        tick();
        let n = self.clones.get() + 1;
        self.clones.set(n);
        fault("iterator-changed-when-cloned");
        Fork { passes: self.passes, pass: n % self.passes.len(), at: self.at, clones: self.clones.clone() }
    }
}
impl<'a> Iterator for Fork<'a> {
    type Item = &'a Row;
    fn next(&mut self) -> Option<&'a Row> {
        tick();
        let r = self.passes[self.pass].get(self.at)?;
        self.at += 1;
        Some(r.as_row())
    }
}

fn gen_gens() -> (usize, Vec<R>) {
    let n = [1, 2, 3, 3, 4, 4, 4, 5, 5, 6, 8, 12, 16, 20][pick(14)];
    let mut gens: Vec<R> = match pick(6) {
        0 => vec![rounds(n)],
        1 => vec![],
        _ => (0..1 + pick(3)).map(|_| gen_row(n)).collect(),
    };
    if pick(3) == 2 && n >= 3 {
        // cyclic part heads, or something that keeps a bell fixed
        let mut r = rounds(n);
        r[1..].rotate_right(1 + pick(n - 2));
        gens = vec![r];
        if pick(3) == 2 {
            gens.push(rounds(n));
        }
    }
    while m_group(&gens).is_none() {
        gens.pop();
    }
    (n, gens)
}
/// What a call may do: the given text exactly, or (None) only fail.
fn same_stage_rows(set: &[RowBuf], stages: &[usize], what: &str) -> Vec<R> {
    let rows: Vec<R> = set.iter().map(|r| of(r)).collect();
    for r in &rows {
        check!(is_perm(r), "not-a-row", "{what} holds {r:?}, which is no row");
        check!(r.len() == rows[0].len(), "mixed-stages", "{what} holds rows of {} and {} bells", r.len(), rows[0].len());
        check!(stages.contains(&r.len()), "mixed-stages", "{what} holds a row of {} bells, which were never given", r.len());
    }
    rows
}
/// One process' questions about the same rows.  Returns what must not depend on the process.
fn questions(n: usize, gens: &[R], sets: &[Vec<R>]) -> String {
    let Some(group) = m_group(gens) else { return String::new() };
    let group: Vec<R> = group.into_iter().collect();
    for _ in 0..1 + pick(4) {
        span(|| {
            let kind = pick(7);
            shape(kind as u64);
            match kind {
                0 => {
                    let input = if pick(24) == 23 && group.len() > 20 { probe("a group given several times over"); scramble(&group, 400) } else { scramble(gens, 5) };
                    let rows = reals(&input);
                    let fuse = [0, 300][pick(2)];
                    match call(fuse, || Row::least_group_containing(rows.iter().map(|r| { tick(); r.as_row() }))) {
                        Out::Ok(g) => {
                            let got: BTreeSet<R> = g.iter().map(|r| of(r)).collect();
                            check!(got.len() == g.len() && got.iter().cloned().collect::<Vec<_>>() == group, "wrong-group", "the least group containing {} has {} rows {} instead of {} {}", show(&input), g.len(), show(&got.into_iter().collect::<Vec<_>>()), group.len(), show(&group));
                            ev!("least group of {} rows: {}", input.len(), group.len());
                            shape(group.len() as u64);
                            if group.len() > 2 {
                                probe("a group of more than two rows");
                            }
                        }
                        Out::Panic(p) if p.injected => {}
                        o => violate!("wrong-group", "the least group containing {} gave {}", show(&input), o.kind()),
                    }
                }
                1 => {
                    // nearly groups
                    let mut set = if pick(4) == 3 { gens.to_vec() } else { group.clone() };
                    if set.len() > if pick(16) == 15 { 400 } else { 130 } {
                        set.truncate(40);
                    }
                    match pick(4) {
                        0 if !set.is_empty() => {
                            set.remove(pick(set.len()));
                        }
                        1 => set.push(gen_row(n)),
                        _ => {}
                    }
                    let want = m_is_group(&set);
                    let input = scramble(&set, 4);
                    let rows = reals(&input);
                    match call([0, 300][pick(2)], || Row::is_group(Feed::new(rows.iter().map(|r| r.as_row()).collect()))) {
                        Out::Ok(g) => check!(g == want, "wrong-group-test", "{} is {}a group, but the test says otherwise", show(&input), if want { "" } else { "not " }),
                        Out::Panic(p) if p.injected => {}
                        o => violate!("wrong-group-test", "testing {} gave {}", show(&input), o.kind()),
                    }
                    probe(if want { "a group was tested" } else { "something that is not a group was tested" });
                }
                2 => {
                    let r = if pick(8) == 7 { long_order() } else { gen_row(n) };
                    let n = r.len();
                    let mut want = vec![r.clone()];
                    while *want.last().unwrap() != rounds(n) {
                        want.push(mul(want.last().unwrap(), &r));
                    }
                    let got: Vec<R> = must("closure", || real(&r).closure()).iter().map(|r| of(r)).collect();
                    check!(got == want, "wrong-closure", "the closure of {} is {} instead of {}", text(&r), show(&got), show(&want));
                    want.rotate_right(1);
                    let got: Vec<R> = must("closure_from_rounds", || real(&r).closure_from_rounds()).iter().map(|r| of(r)).collect();
                    check!(got == want, "wrong-closure", "the closure of {} from rounds is {} instead of {}", text(&r), show(&got), show(&want));
                    shape(want.len() as u64);
                    ev!("closure of {} rows", want.len());
                }
                3 | 4 => product(n, kind == 4),
                5 => mixed(n, gens),
                _ => shifting(n, gens),
            }
        });
    }
    let sets: Vec<Vec<RowBuf>> = sets.iter().map(|s| reals(s)).collect();
    match must("multi_cartesian_product", || Row::multi_cartesian_product(sets)) {
        Ok(v) => format!("{v:?}"),
        Err(e) => e.to_string(),
    }
}
/// A row of many disjoint cycles, so that it takes hundreds or thousands of steps back to rounds.
fn long_order() -> R {
    let cycles: &[usize] = [&[3usize, 4, 5][..], &[3, 5, 7, 4], &[5, 7, 8, 9], &[4, 3, 5, 7, 11]][pick(4)];
    let mut r = vec![];
    for c in cycles {
        let at = r.len();
        r.extend((0..*c).map(|i| at + (i + 1) % c));
    }
    let p = gen_row(r.len());
    probe("a row of large order");
    mul(&mul(&p, &r), &inv(&p))
}
fn product(n: usize, mixed: bool) {
    let max = if pick(32) == 31 { 9 } else { 4 };
    let sets: Vec<Vec<R>> = (0..pick(4)).map(|_| (0..small(max)).map(|_| gen_row(if mixed { near_stage(n, 250) } else { n })).collect()).collect();
    let stages: BTreeSet<usize> = sets.iter().flatten().map(|r| r.len()).collect();
    let real_sets: Vec<Vec<RowBuf>> = sets.iter().map(|s| reals(s)).collect();
    let out = call([0, 300][pick(2)], || Row::multi_cartesian_product(real_sets.iter().map(|s| s.iter().inspect(|_| tick()))));
    let all = || sets.iter().map(|s| show(s)).collect::<Vec<_>>().join(" x ");
    let fits = stages.len() <= 1;
    let empty = sets.is_empty() || sets.iter().any(|s| s.is_empty());
    if !fits {
        fault("wrong-stage-in-the-stream");
    }
    match out {
        Out::Panic(p) if p.injected => {}
        Out::Panic(p) => violate!("wrong-product", "the products {} panicked: {} at {}", all(), p.msg, p.loc),
        Out::Err(e) => check!(!fits, "wrong-product", "the products {} failed: {e}", all()),
        Out::Ok(v) => {
            // (if there are no products at all, the stages need not have been compared)
            check!(fits || empty, "wrong-product", "the products {} of different stages gave {} rows", all(), v.len());
            let mut got: Vec<R> = v.iter().map(|r| of(r)).collect();
            let mut want: Vec<R> = vec![];
            if !empty {
                want = sets[0].clone();
                for s in &sets[1..] {
                    want = want.iter().flat_map(|a| s.iter().map(|b| mul(a, b))).collect();
                }
            }
            got.sort();
            want.sort();
            check!(got == want, "wrong-product", "the products {} are {} ({}) instead of {} ({})", all(), show(&got), got.len(), show(&want), want.len());
            shape(want.len() as u64);
            probe("products listed");
        }
    }
}
/// Rows of different stages: only ever an error.
fn mixed(n: usize, gens: &[R]) {
    let mut v = scramble(gens, 3);
    let w = near_stage(n, 1000);
    let at = pick(v.len() + 1);
    v.insert(at, gen_row(w));
    let mixed = v.iter().any(|r| r.len() != v[0].len());
    if mixed {
        fault("wrong-stage-in-the-stream");
    } else {
        return;
    }
    let rows = reals(&v);
    match call(0, || Row::is_group(rows.iter().map(|r| r.as_row()))) {
        Out::Err(_) => {}
        Out::Ok(b) => violate!("stages-mixed", "the group test of {} answered {b}", show(&v)),
        Out::Panic(p) => violate!("stages-mixed", "the group test of {} panicked: {}", show(&v), p.msg),
    }
    match call(0, || Row::least_group_containing(rows.iter().map(|r| r.as_row()))) {
        Out::Err(_) => {}
        Out::Ok(g) => violate!("stages-mixed", "the least group containing {} has {} rows", show(&v), g.len()),
        Out::Panic(p) => violate!("stages-mixed", "the least group containing {} panicked: {}", show(&v), p.msg),
    }
    probe("stages mixed");
}
pub fn shifting(n: usize, gens: &[R]) {
    let passes: Vec<Vec<R>> = (0..2 + pick(2))
        .map(|i| {
            let mut v = scramble(gens, 2);
            if i > 0 && pick(3) > 0 {
                let w = near_stage(n, 600);
                let k = 1 + pick(3);
                for _ in 0..k {
                    let at = pick(v.len() + 1);
                    v.insert(at, gen_row(w));
                }
            }
            if pick(3) == 2 {
                let keep = pick(v.len() + 1);
                v.truncate(keep);
            }
            v
        })
        .collect();
    // (a union of all passes that generates a large group would only waste time)
    for a in &passes {
        for b in &passes {
            let both: Vec<R> = a.iter().chain(b).cloned().collect();
            if both.iter().all(|r| r.len() == n) && m_group(&both).is_none() {
                return;
            }
        }
    }
    let real_passes: Vec<Vec<RowBuf>> = passes.iter().map(|p| reals(p)).collect();
    let stages: Vec<usize> = passes.iter().flatten().map(|r| r.len()).collect();
    let fuse = [0, 200][pick(2)];
    let which = pick(4);
    fault("changing-iterator-offered");
    let told = || passes.iter().map(|s| show(s)).collect::<Vec<_>>().join(" then ");
    let out = match which {
        0 => call(fuse, || Row::least_group_containing(Shift { passes: &real_passes, n: Rc::new(Cell::new(0)) })).map(|g| g.into_iter().collect()),
        1 => call(fuse, || Row::least_group_containing(Fork { passes: &real_passes, pass: 0, at: 0, clones: Rc::new(Cell::new(0)) })).map(|g| g.into_iter().collect()),
        2 => call(fuse, || Row::is_group(Fork { passes: &real_passes, pass: 0, at: 0, clones: Rc::new(Cell::new(0)) })).map(|_| vec![]),
        _ => {
            // things that convert to another row each time they are asked
            let sets: Vec<Vec<Shifty>> = (0..1 + pick(3))
                .map(|_| (0..pick(4)).map(|_| real_passes.iter().flatten().skip(pick(3)).take(1 + pick(3)).cloned().collect::<Vec<_>>()).filter(|v| !v.is_empty()).map(Shifty::new).collect::<Vec<Shifty>>())
                                .collect();
            call(fuse, || Row::multi_cartesian_product(sets))
        }
    };
    match out {
        Out::Ok(v) => {
            same_stage_rows(&v, &stages, &format!("the result of call {which} on {}", told()));
            probe("answered in spite of a changing iterator");
        }
        Out::Err(_) => probe("refused a changing iterator"),
        Out::Panic(p) if p.injected => {}
        Out::Panic(p) => violate!("panic", "call {which} on rows that change ({}) panicked: {} at {}", told(), p.msg, p.loc),
    }
}
pub fn c17() {
    let wd = simple_world([0, 100, 400][pick(3)]);
    let (n, gens) = span(gen_gens);
    if gens.iter().any(|g| *g != rounds(n)) {
        nontrivial();
    }
    shape(n as u64);
    ev!("{n} bells, {}", show(&gens));
    let sets: Vec<Vec<R>> = (0..pick(4)).map(|_| scramble(&gens, 3)).collect();
    let sets: Vec<Vec<R>> = sets.into_iter().map(|mut s| { s.truncate(6); s }).collect();
    // processes with hash seeds of their own
    let seen: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    for _ in 0..1 + pick(3) {
        let p = wd.new_proc(&[], None, false);
        let (gens, sets, seen) = (gens.clone(), sets.clone(), seen.clone());
        wd.spawn(p, 0, move || {
            let a = questions(n, &gens, &sets);
            let _g = SimGuard::new();
            seen.lock().unwrap().push(a);
        });
        probe("a process with hash seeds of its own");
    }
    preempt_on();
    wd.run();
    preempt_off();
    // the same products must be listed the same way in every process
    let seen = seen.lock().unwrap();
    for a in seen.iter() {
        check!(*a == seen[0], "order-depends", "the same products were listed as {} and as {a}", seen[0]);
    }
}
