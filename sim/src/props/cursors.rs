//! Cursors over row collections and blocks (C15): any interleaving of calls on any number of live
//! cursors, on any number of threads.
use super::libs::{preempt_off, preempt_on, simple_world};
use crate::core::*;
use crate::vals::*;
use crate::{check, ev, violate};
use bellframe::block::{AnnotRow, RepeatIter};
use bellframe::row::same_stage_vec::Iter;
use bellframe::{Row, RowBuf, SameStageVec};

const C: &str = "cursor-out-of-step";

/// The model of what is iterated over.
struct Src {
    n: usize,
    rows: Vec<R>,
    anns: Vec<usize>,
    vec: SameStageVec,
    block: Block,
}
trait Annots {
    fn next(&mut self) -> Option<AnnotRow<'static, Ann>>;
    fn nth(&mut self, k: usize) -> Option<AnnotRow<'static, Ann>>;
    fn hint(&self) -> (usize, Option<usize>);
    fn copy(&self) -> Box<dyn Annots>;
}
struct AnnotsOf<I>(I);
impl<I: Iterator<Item = AnnotRow<'static, Ann>> + Clone + 'static> Annots for AnnotsOf<I> {
    fn next(&mut self) -> Option<AnnotRow<'static, Ann>> {
        self.0.next()
    }
    fn nth(&mut self, k: usize) -> Option<AnnotRow<'static, Ann>> {
        self.0.nth(k)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn copy(&self) -> Box<dyn Annots> {
        Box::new(AnnotsOf(self.0.clone()))
    }
}
enum Cur {
    /// Rows `lo..hi` are left.
    Rows(Iter<'static>, usize, usize),
    Annots(Box<dyn Annots>, usize, usize),
    /// Position; the row the repetition starts from.
    Repeat(RepeatIter<'static, Ann>, usize, R, R),
}
type Item = (R, usize, usize);

fn annot_item(r: AnnotRow<'static, Ann>) -> (R, usize) {
    (of(r.row()), r.annot().id)
}
/// What a repeating cursor must yield at a position, given the head of that repetition.
fn repeat_at(s: &Src, start: &R, p: usize) -> Option<Item> {
    let k = s.anns.len();
    if k == 0 {
        return None;
    }
    let head = mul(start, &pow(&s.rows[k], (p / k) as isize));
    Some((mul(&head, &s.rows[p % k]), p % k, s.anns[p % k]))
}
fn gen_src() -> Src {
    let n = gen_stage();
    let k = match pick(4) {
        0 => 0,
        1 => 1,
        _ => 1 + pick(7),
    };
    let (rows, anns): (Vec<R>, Vec<usize>) = match big_len(n) {
        Some(b) => (many_rows(n, b), (0..b - 1).collect()),
        None => ((0..k + 1).map(|_| gen_row(n)).collect(), (0..k).map(|_| pick(1000)).collect()),
    };
    let k = anns.len();
    let Some(block) = Block::with_annots_from_indices(to_vec(n, &rows), |i| Ann::new(anns[i])) else { violate!(C, "{} rows make no block", k + 1) };
    // now and then nothing at all to iterate over
    let vec = if k == 0 && pick(2) == 1 { to_vec(n, &[]) } else { to_vec(n, &rows) };
    Src { n, rows, anns, vec, block }
}
fn new_cursor(s: &'static Src) -> Cur {
    let k = s.anns.len();
    match pick(8) {
        0 => Cur::Rows(s.vec.iter(), 0, s.vec.len()),
        1 => Cur::Rows((&s.vec).into_iter(), 0, s.vec.len()),
        2 => Cur::Rows(s.block.rows(), 0, k),
        3 => Cur::Rows(s.block.all_rows(), 0, k + 1),
        4 => Cur::Annots(Box::new(AnnotsOf(s.block.annot_rows())), 0, k),
        _ => {
            let start = gen_row(near_stage(s.n, 100));
            match call(0, || s.block.repeat_iter(real(&start))) {
                Out::Ok(it) => {
                    check!(start.len() == s.n, C, "repeating a block of {} bells from {} was accepted", s.n, text(&start));
                    Cur::Repeat(it, 0, start.clone(), start)
                }
                Out::Err(e) => {
                    check!(start.len() != s.n, C, "repeating a block of {} bells from {} failed: {e}", s.n, text(&start));
                    fault("wrong-stage-start-row");
                    Cur::Rows(s.vec.iter(), 0, s.vec.len())
                }
                Out::Panic(p) => violate!(C, "repeating a block from {} panicked: {} at {}", text(&start), p.msg, p.loc),
            }
        }
    }
}
fn copy(c: &Cur) -> Cur {
    match c {
        Cur::Rows(it, lo, hi) => Cur::Rows(it.clone(), *lo, *hi),
        Cur::Annots(it, lo, hi) => Cur::Annots(it.copy(), *lo, *hi),
        Cur::Repeat(it, p, s, h) => Cur::Repeat(it.clone(), *p, s.clone(), h.clone()),
    }
}
fn step_rows(s: &'static Src, it: &mut Iter<'static>, lo: &mut usize, hi: &mut usize) {
    let left = *hi - *lo;
    let eq = |got: Option<&Row>, want: Option<usize>, what: &str, a: usize| {
        let got = got.map(of);
        let want = want.map(|i| s.rows[i].clone());
        check!(got == want, C, "{what}({a}) with rows {lo}..{hi} of {} left gave {got:?} instead of {want:?}", s.rows.len());
    };
    let k = small(left + 2);
    let kind = pick(18);
    shape(kind as u64);
    match kind {
        0..=2 => {
            let w = (left > 0).then_some(*lo);
            eq(it.next(), w, "next", 0);
            *lo += w.is_some() as usize;
        }
        3..=5 => {
            let w = (left > 0).then(|| *hi - 1);
            eq(it.next_back(), w, "next_back", 0);
            *hi -= w.is_some() as usize;
        }
        6 => {
            let w = (k < left).then(|| *lo + k);
            eq(it.nth(k), w, "nth", k);
            *lo = (*lo + k + 1).min(*hi);
        }
        7 => {
            let w = (k < left).then(|| *hi - 1 - k);
            eq(it.nth_back(k), w, "nth_back", k);
            *hi = hi.saturating_sub(k + 1).max(*lo);
        }
        8 => {
            // (the loop's cursor is this one)
            let got: Vec<R> = it.by_ref().take(k).map(of).collect();
            check!(got == s.rows[*lo..*lo + k.min(left)], C, "taking {k} of rows {lo}..{hi} gave {got:?}");
            *lo += k.min(left);
        }
        9 => {
            // a caller that gives up half-way: the cursor goes on behind the rows it has handed out
            let mut n = 0;
            let out = plain(600, || {
                it.by_ref().for_each(|r| {
                    check!(of(r) == s.rows[*lo + n], C, "looping over rows {lo}..{hi} gave {} as number {n}", text(&of(r)));
                    n += 1;
                    tick();
                })
            });
            match out {
                Out::Panic(p) if !p.injected => violate!(C, "looping panicked: {}", p.msg),
                Out::Ok(()) => check!(n == left, C, "looping over {left} rows gave {n}"),
                _ => {}
            }
            *lo += n;
        }
        10 => {
            let mut n = 0;
            let out = plain(600, || {
                it.by_ref().rev().for_each(|r| {
                    check!(of(r) == s.rows[*hi - 1 - n], C, "looping backwards over rows {lo}..{hi} gave {} as number {n}", text(&of(r)));
                    n += 1;
                    tick();
                })
            });
            match out {
                Out::Panic(p) if !p.injected => violate!(C, "looping panicked: {}", p.msg),
                Out::Ok(()) => check!(n == left, C, "looping backwards over {left} rows gave {n}"),
                _ => {}
            }
            *hi -= n;
        }
        11 => {
            let stop = pick(left + 1);
            let mut n = 0;
            let got = it.by_ref().position(|_| {
                n += 1;
                n == stop + 1
            });
            check!(got == (stop < left).then_some(stop), C, "position of number {stop} of {left} is {got:?}");
            *lo += (stop + 1).min(left);
        }
        12 => {
            let stop = pick(left + 1);
            let mut n = 0;
            let got = it.by_ref().rposition(|_| {
                n += 1;
                n == stop + 1
            });
            check!(got == (stop < left).then(|| left - 1 - stop), C, "position of number {stop} from the back of {left} is {got:?}");
            *hi -= (stop + 1).min(left);
        }
        13 => {
            let c = it.clone();
            check!(it.clone().count() == left, C, "{} rows counted, {left} are left", it.clone().count());
            eq(it.clone().last(), (left > 0).then(|| *hi - 1), "last", 0);
            let got: Vec<R> = c.rev().map(of).collect();
            let want: Vec<R> = s.rows[*lo..*hi].iter().rev().cloned().collect();
            check!(got == want, C, "a reversed copy of rows {lo}..{hi} gave {got:?}");
        }
        14 => {
            let step = 1 + k;
            let got: Vec<R> = it.clone().step_by(step).map(of).collect();
            let want: Vec<R> = s.rows[*lo..*hi].iter().step_by(step).cloned().collect();
            check!(got == want, C, "every {step}th of rows {lo}..{hi} gave {got:?}");
        }
        15 => {
            let got: Vec<R> = it.clone().skip(k).map(of).collect();
            check!(got == s.rows[(*lo + k).min(*hi)..*hi], C, "skipping {k} of rows {lo}..{hi} gave {got:?}");
        }
        16 => {
            // pairs, from both ends
            let mut z = it.clone().zip(s.rows[*lo..*hi].iter());
            let n = guard(|| z.len());
            check!(matches!(n, Ok(n) if n == left), C, "pairs from {left} rows report the length {:?}", n.map_err(|p| p.msg));
            let both = (z.next(), z.next_back());
            for (a, b) in [both.0, both.1].into_iter().flatten() {
                check!(of(a) == *b, C, "a pair holds {} and {}", text(&of(a)), text(b));
            }
        }
        _ => {
            let got: Vec<(usize, R)> = it.clone().map(of).enumerate().rev().collect();
            let want: Vec<(usize, R)> = s.rows[*lo..*hi].iter().cloned().enumerate().rev().collect();
            check!(got == want, C, "numbering rows {lo}..{hi} backwards gave {got:?}");
        }
    }
    let left = *hi - *lo;
    check!(it.len() == left, C, "{left} rows are left but the length is {}", it.len());
    check!(it.size_hint() == (left, Some(left)), C, "{left} rows are left but the size is given as {:?}", it.size_hint());
}
fn step_annots(s: &'static Src, it: &mut Box<dyn Annots>, lo: &mut usize, hi: usize) {
    let left = hi - *lo;
    let k = if pick(3) == 0 { small(left + 2) } else { 0 };
    let got = if k == 0 { it.next() } else { it.nth(k) }.map(annot_item);
    let want = (k < left).then(|| (s.rows[*lo + k].clone(), s.anns[*lo + k]));
    check!(got == want, C, "the annotated row {k} further of {lo}..{hi} is {got:?} instead of {want:?}");
    *lo = (*lo + k + 1).min(hi);
    let h = it.hint();
    let left = hi - *lo;
    check!(h.0 <= left && h.1.map_or(true, |h| h >= left), C, "{left} annotated rows are left but the size is given as {h:?}");
}
fn step_repeat(s: &'static Src, it: &mut RepeatIter<'static, Ann>, p: &mut usize, start: &R, buf: &mut RowBuf) {
    let empty = s.anns.is_empty();
    let item = |x: (RowBuf, usize, &Ann)| (of(&x.0), x.1, x.2.id);
    let kind = pick(8);
    shape(100 + kind as u64);
    match kind {
        0..=1 => {
            let got = it.next().map(item);
            let want = repeat_at(s, start, *p);
            check!(got == want, C, "repetition number {p} from {} is {got:?} instead of {want:?}", text(start));
            *p += 1;
        }
        2..=4 => {
            // into a buffer that held anything, of any stage
            let before = of(buf);
            if before.len() != s.n {
                fault("a-buffer-of-another-stage");
            }
            let got = it.next_into(buf).map(|(i, a)| (of(buf), i, a.id));
            let want = repeat_at(s, start, *p);
            check!(got == want, C, "repetition number {p} from {} into {} is {got:?} instead of {want:?}", text(start), text(&before));
            if empty {
                check!(of(buf) == before, C, "a cursor without rows changed the buffer");
            }
            *p += 1;
        }
        5 => {
            let k = small(if ctx().big > 0 { 2 * s.anns.len() + 2 } else { 12 });
            let got = it.nth(k).map(item);
            let want = repeat_at(s, start, *p + k);
            check!(got == want, C, "skipping {k} repetitions at {p} gave {got:?} instead of {want:?}");
            *p += k + 1;
        }
        6 => {
            let k = pick(12);
            let got: Vec<Item> = it.by_ref().take(k).map(item).collect();
            let want: Vec<Item> = (0..k).filter_map(|i| repeat_at(s, start, *p + i)).collect();
            check!(got == want, C, "{k} repetitions from {p} on are {got:?} instead of {want:?}");
            *p += k;
        }
        _ => {
            // a caller that gives up half-way
            let mut n = 0;
            let out = plain(700, || {
                for x in it.by_ref().take(15) {
                    n += 1;
                    check!(Some(item(x)) == repeat_at(s, start, *p + n - 1), C, "looping from repetition {p} went wrong at number {n}");
                    tick();
                }
            });
            if let Out::Panic(p) = &out {
                check!(p.injected, C, "looping panicked: {}", p.msg);
            }
            *p += n;
        }
    }
    if empty {
        *p = 0;
        check!(it.size_hint().0 == 0, C, "an empty block's cursor promises {:?} rows", it.size_hint());
        probe("an empty block was repeated");
    } else if *p >= s.anns.len() {
        probe("repeated past the end of the block");
    }
}
fn history(s: &'static Src) -> usize {
    let mut curs = vec![new_cursor(s)];
    let mut buf = real(&gen_row(near_stage(s.n, 400)));
    let mut steps = 0;
    for _ in 0..[5, 12, 30][pick(3)] {
        span(|| {
            if pick(8) == 7 && curs.len() < 8 {
                let c = new_cursor(s);
                curs.push(c);
                return;
            }
            let i = pick(curs.len());
            if pick(6) == 5 && curs.len() < 8 {
                let c = copy(&curs[i]);
                curs.push(c);
                probe("a cursor was copied half-way");
                return;
            }
            if pick(20) == 19 && curs.len() > 1 {
                curs.remove(i);
                return;
            }
            let r = guard(|| match &mut curs[i] {
                Cur::Rows(it, lo, hi) => step_rows(s, it, lo, hi),
                Cur::Annots(it, lo, hi) => step_annots(s, it, lo, *hi),
                Cur::Repeat(it, p, start, _) => {
                    if pick(6) == 5 {
                        buf = real(&gen_row(near_stage(s.n, 700)));
                    }
                    step_repeat(s, it, p, start, &mut buf)
                }
            });
            if let Err(p) = r {
                check!(p.loc.starts_with("src/"), C, "a step of a cursor panicked: {} at {}", p.msg, p.loc);
                harness_error(&format!("panicked: {} at {}", p.msg, p.loc));
            }
            steps += 1;
        });
    }
    // whatever is left comes out
    for c in curs {
        match c {
            Cur::Rows(it, lo, hi) => {
                let got: Vec<R> = it.map(of).collect();
                check!(got == s.rows[lo..hi], C, "the rows left over are {got:?} instead of {:?}", &s.rows[lo..hi]);
            }
            Cur::Annots(mut it, lo, hi) => {
                for i in lo..hi {
                    let got = it.next().map(annot_item);
                    check!(got == Some((s.rows[i].clone(), s.anns[i])), C, "annotated row {i} is {got:?}");
                }
                check!(it.next().is_none(), C, "more annotated rows than there are");
            }
            Cur::Repeat(mut it, p, start, _) => {
                for i in 0..3 {
                    let got = it.next().map(|x| (of(&x.0), x.1, x.2.id));
                    let want = repeat_at(s, &start, p + i);
                    check!(got == want, C, "repetition number {} is {got:?} instead of {want:?}", p + i);
                }
            }
        }
    }
    steps
}
pub fn c15() {
    maybe_big();
    let src: &'static Src = Box::leak(Box::new(span(gen_src)));
    shape((src.n * 100 + src.anns.len()) as u64);
    ev!("{} bells, {} annotated rows", src.n, src.anns.len());
    let before = format!("{:?} {:?}", src.vec, src.block);
    if pick(3) < 2 {
        if history(src) >= 3 {
            nontrivial();
        }
    } else {
        // cursors of several threads on the same collection
        let wd = simple_world([50, 200, 700][pick(3)]);
        let p = wd.new_proc(&[], None, false);
        for t in 0..2 + pick(2) {
            wd.spawn(p, 0, move || {
                let n = history(src);
                ev!("thread {t}: {n} steps");
                if n >= 3 {
                    nontrivial();
                }
            });
        }
        preempt_on();
        wd.run();
        preempt_off();
        probe("cursors on several threads");
    }
    check!(format!("{:?} {:?}", src.vec, src.block) == before, C, "iterating changed {before}");
}
