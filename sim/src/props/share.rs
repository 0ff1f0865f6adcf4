//! Values shared between threads (C10): every call returns what it returns when the threads run one
//! after another.
use super::libs::{preempt_closely, preempt_off, preempt_on, simple_world};
use crate::core::*;
use crate::lib_gen::*;
use crate::vals::{self, bell, gen_row, real, stage, text, to_pn, R};
use crate::{check, ev, violate};
use bellframe::method::class::{Class, FullClass};
use bellframe::method_lib::QueryError;
use bellframe::music::Regex;
use bellframe::row::{DbgRow, RowAccumulator};
use bellframe::{AnnotBlock, Call, Mask, Method, MethodLib, PlaceNot, PnBlock, Row, RowBuf, SameStageVec};
use std::fmt::{Debug, Write};
use std::sync::{Arc, Condvar, Mutex};

/// What everything is built from, so that the reference can build its own.
struct Spec {
    ed: Edition,
    n: usize,
    rows: Vec<R>,
    odd: R,
    anns: Vec<String>,
    changes: Vec<Change>,
    notation: String,
    masks: [String; 2],
    pattern: String,
}
struct Shared {
    lib: MethodLib,
    row: RowBuf,
    row2: RowBuf,
    odd: RowBuf,
    arc: Arc<Row>,
    vec: SameStageVec,
    block: AnnotBlock<String>,
    pn: PlaceNot,
    pnb: PnBlock,
    method: Method,
    call: Call,
    masks: [Mask; 2],
    re: Regex,
}
fn gen_spec() -> Spec {
    let n = [4, 5, 6, 8, 12][pick(5)];
    let rows: Vec<R> = (0..2 + pick(6)).map(|_| gen_row(n)).collect();
    let (notation, changes) = gen_pn_block(n, 4);
    let mask = || -> String { gen_row(n).into_iter().map(|b| if pick(2) == 0 { "x".into() } else { bell_name(b) }).collect() };
    Spec {
        ed: gen_edition(None, 0, [2, 8, 24][pick(3)]),
        n,
        odd: gen_row(vals::near_stage(n, 500)),
        anns: (1..rows.len()).map(|_| gen_word()).collect(),
        rows,
        changes,
        notation,
        masks: [mask(), mask()],
        pattern: (0..1 + pick(6)).map(|_| ["*", "x", "1", "2", "3", "4"][pick(6)]).collect(),
    }
}
fn build(s: &Spec) -> Shared {
    let fail = |what: &str| -> ! { violate!("not-built", "building {what} failed: {} / {}", s.notation, s.ed.text) };
    let rows = || {
        let mut v = SameStageVec::new(stage(s.n));
        for r in &s.rows {
            if v.push(&real(r)).is_err() {
                fail("rows");
            }
        }
        v
    };
    let Ok(lib) = MethodLib::from_json(&s.ed.text) else { fail("the library") };
    let Ok(pnb) = PnBlock::parse(&s.notation, stage(s.n)) else { fail("place notation") };
    let Some(block) = AnnotBlock::with_annots_from_indices(rows(), |i| s.anns[i].clone()) else { fail("a block") };
    let mut first_lead: AnnotBlock<Option<String>> = pnb.to_block_from_rounds();
    for i in 0..first_lead.len() {
        if i % 3 == 0 {
            *first_lead.get_annot_mut(i).unwrap() = Some(["LE", "HL", "B"][i % 2 + i / 3 % 2].to_string());
        }
    }
    Shared {
        lib,
        row: real(&s.rows[0]),
        row2: real(&s.rows[1]),
        odd: real(&s.odd),
        arc: real(&s.rows[1]).to_arc(),
        vec: rows(),
        block,
        pn: to_pn(s.n, &s.changes[0]),
        method: Method::new("A Method".into(), "A".into(), FullClass::new(false, false, false, Class::Hybrid), first_lead),
        call: Call::le_bob(pnb.clone()),
        pnb,
        masks: [Mask::parse(&s.masks[0]), Mask::parse(&s.masks[1])],
        re: Regex::parse(&s.pattern),
    }
}
fn sorted(mut v: Vec<String>) -> String {
    v.sort();
    v.join(" ")
}
fn res<T: Debug, E: std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error: {e}"),
    }
}
/// A sink that refuses or panics after a number of bytes.
struct Bad {
    got: String,
    left: usize,
    panics: bool,
}
impl Write for Bad {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            fault(if self.panics { "sink-panicked" } else { "sink-refused" });
            if self.panics {
                std::panic::panic_any(Injected)
            }
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn show(s: &Shared, k: usize, f: &mut dyn Write) -> std::fmt::Result {
    match k % 12 {
        0 => write!(f, "{}", s.row),
        1 => write!(f, "{:?}", s.row),
        2 => write!(f, "{:?}", s.vec),
        3 => write!(f, "{:?}", s.block),
        4 => write!(f, "{}", s.masks[0]),
        5 => write!(f, "{:?}", s.masks[1]),
        6 => write!(f, "{}", s.pn),
        7 => write!(f, "{:?}", s.pnb),
        8 => write!(f, "{:?}", s.method),
        9 => write!(f, "{}/{}", s.re, s.row.stage()),
        10 => write!(f, "{:?} {:?}", DbgRow(&s.arc), s.call),
        _ => write!(f, "{} {:?}", s.arc, s.vec.iter().collect::<Vec<_>>()),
    }
}
const QUERIES: usize = 34;
/// One call (or a few), as a text.  Everything it writes to is its own.
fn query(q: usize, a: [usize; 4], s: &Shared, spec: &Spec) -> String {
    let n = spec.n;
    let at = a[0] % s.vec.len();
    let r = &s.vec[at];
    let r2 = &s.vec[a[1] % s.vec.len()];
    let d = |r: &Row| text(&vals::of(r));
    match q {
        0 => {
            let t = &spec.ed.methods[a[0] % spec.ed.methods.len()].title;
            match s.lib.get_by_title(&if a[1] % 2 == 0 { t.to_lowercase() } else { t.clone() }) {
                Ok(m) => format!("{} {:?} {}", m.title(), m.first_lead(), m.stage()),
                Err(QueryError::PnParseErr { pn, error }) => format!("{pn} {error}"),
                Err(QueryError::NotFound(())) => "not found".into(),
            }
        }
        1 => {
            let t = format!("{} Minor", ["Plain Bob", "x", "", "Kent Treble"][a[0] % 4]);
            match s.lib.get_by_title_with_suggestions(&t, a[1] % 6) {
                Err(QueryError::NotFound(v)) => {
                    // (which of equally near titles come last depends on the hash seed)
                    let last = v.last().map_or(0, |x| x.1);
                    let near = v.iter().filter(|x| x.1 < last).map(|x| x.0.to_string()).collect();
                    format!("{:?} {}", v.iter().map(|x| x.1).collect::<Vec<_>>(), sorted(near))
                }
                o => format!("{:?}", o.map(|m| m.title().to_string())),
            }
        }
        2 => match s.lib.to_json() {
            Ok(t) => match MethodLib::from_json(&t).ok().and_then(|l| all_titles(&l, spec.ed.methods.len() + 8)) {
                Some(t) => sorted(t.into_iter().collect()),
                None => "does not load".into(),
            },
            Err(e) => format!("{e}"),
        },
        3 => format!("{} {} {}", &s.row * &s.row2, r.inv(), r.pow_i(a[1] as isize % 7 - 3)),
        4 => format!("{:?}", r.closure()),
        5 => format!("{} {:?} {} {:?}", r.fast_hash(), r.effective_stage(), r.is_rounds(), r.fixed_bells().collect::<Vec<_>>()),
        6 => format!("{} {} {}", res(r.mul_result(&s.odd)), res(Row::solve_ax_equals_b(r, r2)), res(Row::solve_xa_equals_b(&s.odd, r2))),
        7 => {
            let keep: Vec<RowBuf> = r.closure();
            let g = Row::least_group_containing(keep.iter().take(3).map(|r| r.as_row()));
            match g {
                Ok(g) => sorted(g.iter().map(|r| r.to_string()).collect()),
                Err(e) => e.to_string(),
            }
        }
        // (which of two stages a mismatch names first may depend on the hash seed)
        8 => format!("{} {:?}", res(Row::is_group(s.vec.iter())), Row::is_group([r, r2, &s.odd]).ok()),
        9 => res(Row::multi_cartesian_product([vec![r.to_owned(), s.row2.clone()], vec![r2.to_owned(), s.row.clone()]])),
        10 => {
            let mut out = real(&spec.odd);
            let e = res(r.mul_into(r2, &mut out));
            let mut o2 = real(&spec.odd);
            r.inv_into_buf(&mut o2);
            format!("{e} {out} {o2}")
        }
        11 => {
            let mut acc = RowAccumulator::new(s.row.clone());
            for r in &s.vec {
                let _ = acc.accumulate(r);
                let _ = acc.pre_accumulate(&s.odd);
            }
            format!("{}", acc.total())
        }
        12 => {
            let c = s.arc.clone();
            let x = c.to_arc();
            let mut own: RowBuf = Row::to_owned(&x);
            own.swap(a[0] % n, a[1] % n);
            format!("{} {} {} {:?}", d(&c), d(&x), own.to_string(), own.parity())
        }
        13 => s.vec.iter().rev().chain(s.vec.iter()).map(d).collect::<Vec<_>>().join(" "),
        14 => format!("{:?} {:?}", s.vec.path_of(bell(a[0] % (n + 1))), s.vec.get(a[1] % 12).map(d)),
        15 => res(s.vec.pre_multiplied(if a[1] % 3 == 0 { &s.odd } else { r2 })),
        16 => {
            // an own collection fed from the shared one
            let mut v = SameStageVec::from_row_buf(r.to_owned());
            let x = [
                res(v.extend_from_buf(&s.vec)),
                res(v.extend_transposed(r2, &s.vec)),
                res(v.extend(s.vec.iter().map(|r| r.to_owned()))),
                res(v.push(&s.odd)),
                res(v.extend_transposed_from_within(0..1, r)),
                res(v.pre_multiply(r2)),
            ];
            format!("{x:?} {v:?}")
        }
        17 => s.block.annot_rows().map(|r| format!("{} {}", d(r.row()), r.annot())).collect::<Vec<_>>().join(" "),
        18 => match s.block.repeat_iter(s.row2.clone()) {
            Ok(it) => it.take(a[0] % 20).map(|(r, i, x)| format!("{r} {i} {x}")).collect::<Vec<_>>().join(" "),
            Err(e) => e.to_string(),
        },
        19 => {
            let mut b = s.block.clone();
            let e = res(b.extend(&s.block));
            b.extend_from_within(0..a[0] % (s.block.len() + 1));
            format!("{e} {b:?} {:?}", s.block.path_of(bell(a[1] % n)))
        }
        20 => format!("{:?}", s.block.clone_map_annots_with_index(|i, x| format!("{i}{x}"))),
        21 => format!("{} {:?}", s.pn.transposition(), res(s.pn.permute_new(if a[0] % 3 == 0 { &s.odd } else { r }))),
        22 => res(s.pnb.to_rows(r.to_owned())),
        23 => res(PnBlock::parse(&spec.notation, stage(n)).map(|b| b.to_block_from_rounds::<()>())),
        24 => {
            let c = s.method.plain_course();
            let t: Vec<String> = c.annot_rows().map(|r| format!("{} {} {:?}", d(r.row()), r.annot().sub_lead_idx(), r.annot().label())).collect();
            format!("{} {}", t.join(" "), c.leftover_row())
        }
        25 => format!("{} {} {:?}", s.method.row_in_plain_course(a[0] * 7), s.method.lead_head(), s.method.label_indices("LE").collect::<Vec<_>>()),
        26 => {
            let mut m = s.method.clone();
            m.set_label(a[0] % m.lead_len(), Some("X".into()));
            m.set_lead_end_label();
            format!("{:?} {:?} {:?}", m.label_indices("X").collect::<Vec<_>>(), m.get_label(0), s.method.get_label(a[1] % s.method.lead_len()))
        }
        27 => format!("{:?} {} {}", s.masks[0].combine(&s.masks[1]), s.masks[0].matches(r), s.masks[1].is_subset_of(&s.masks[0])),
        28 => {
            let mut m = s.masks[a[2] % 2].clone();
            let e = m.set_bell(bell(a[0] % n), a[1] % n).is_ok();
            format!("{e} {m} {} {:?}", &m * r2, m.as_row())
        }
        29 => format!("{} {:?} {:?} {}", s.re.matches(r), s.re.match_pattern(r2), s.re.num_matching_rows(stage(n)), Regex::from(s.masks[0].clone())),
        30 => format!("{:?} {} {} {}", s.call.block(), s.call.transposition(), s.call.location(), s.call.effective_stage()),
        31 => format!("{:?} {:?} {:?}", RowBuf::parse(&text(&spec.rows[0])), SameStageVec::parse("1234\n2143\n12"), RowBuf::parse_with_stage("21", stage(n))),
        _ => {
            // a sink that fails
            let mut b = Bad { got: String::new(), left: a[1] % 40 * (1 + a[2] % 4), panics: q == 33 };
            let e = guard(|| show(s, a[0], &mut b));
            let e = match e {
                Ok(Ok(())) => "whole",
                Ok(Err(_)) => "refused",
                Err(p) if p.injected => "interrupted",
                Err(p) => return format!("panic {} {}", p.msg, p.loc),
            };
            format!("{e} {}", b.got)
        }
    }
}
/// A sink that waits half-way until everybody else is done.
struct Slow {
    gate: Arc<(Mutex<usize>, Condvar)>,
    got: String,
    after: usize,
}
impl Write for Slow {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.got.push_str(t);
        if self.after == 0 {
            fault("sink-stalled");
            let (m, c) = &*self.gate;
            let mut g = m.lock().unwrap();
            while *g > 0 {
                g = c.wait(g).unwrap();
            }
        }
        self.after = self.after.wrapping_sub(1);
        Ok(())
    }
}
type Plan = Vec<(usize, [usize; 4])>;

pub fn c10() {
    let wd = simple_world([0, 200, 700][pick(3)]);
    let spec = Arc::new(span(gen_spec));
    let shared = Arc::new(build(&spec));
    let twin = build(&spec);
    let threads = 2 + pick(3);
    // often everybody makes the same few calls, with the same few arguments
    let focus: Vec<usize> = (0..[1, 1, 2, 3, 0, 0][pick(6)]).map(|_| pick(QUERIES)).collect();
    let pool: Vec<[usize; 4]> = (0..2 + pick(2)).map(|i| [pick(21) * 3 + i, pick(21) * 3 + i, pick(64), pick(64)]).collect();
    let plans: Arc<Vec<Plan>> = Arc::new(
        (0..threads)
            .map(|_| {
                if !focus.is_empty() {
                    return (0..2 + pick(6)).map(|_| (*pick_ref(&focus), *pick_ref(&pool))).collect();
                }
                (0..1 + pick(6)).map(|_| (pick(QUERIES), [pick(64), pick(64), pick(64), pick(64)])).collect()
            })
            .collect(),
    );
    let plans = if focus.is_empty() && pick(3) == 2 { Arc::new(vec![plans[0].clone(); threads]) } else { plans };
    let run = |q: usize, a: [usize; 4], s: &Shared| match guard(|| query(q, a, s, &spec)) {
        Ok(t) => t,
        Err(p) => format!("panic: {} at {}", p.msg, p.loc),
    };
    let reference = |twin: &Shared| -> Vec<Vec<String>> { plans.iter().map(|p| p.iter().map(|(q, a)| run(*q, *a, twin)).collect()).collect() };
    let before = pick(2) == 0;
    let mut want = if before { Some(reference(&twin)) } else { None };
    let results: Arc<Mutex<Vec<Vec<String>>>> = Arc::new(Mutex::new(vec![vec![]; threads]));
    let stalled = pick(3) == 2;
    let slow_text = Arc::new(Mutex::new(None));
    let gate = Arc::new((Mutex::new(threads), Condvar::new()));
    let p = wd.new_proc(&[], None, false);
    if focus.is_empty() { preempt_on() } else { preempt_closely() }
    if stalled {
        let (shared, gate, slow_text) = (shared.clone(), gate.clone(), slow_text.clone());
        let k = pick(12);
        let after = pick(6);
        wd.spawn(p, 0, move || {
            let mut s = Slow { gate, got: String::new(), after };
            let r = show(&shared, k, &mut s);
            check!(r.is_ok(), "sharing-visible", "formatting into a slow sink failed");
            *slow_text.lock().unwrap() = Some((k, s.got));
        });
    }
    for t in 0..threads {
        let (shared, spec, plans, results, gate) = (shared.clone(), spec.clone(), plans.clone(), results.clone(), gate.clone());
        wd.spawn(p, 0, move || {
            for (q, a) in &plans[t] {
                let got = span(|| match guard(|| query(*q, *a, &shared, &spec)) {
                    Ok(t) => t,
                    Err(p) => format!("panic: {} at {}", p.msg, p.loc),
                });
                shape(*q as u64 + 1000);
                ev!("thread {t} call {q} {a:?} -> {} bytes", got.len());
                let _g = SimGuard::new();
                results.lock().unwrap()[t].push(got);
            }
            // the last use of the values may be on any thread
            drop(shared);
            let (m, c) = &*gate;
            *m.lock().unwrap() -= 1;
            c.notify_all();
        });
    }
    let weak = Arc::downgrade(&shared);
    let kept = if pick(2) == 0 { Some(shared) } else { drop(shared); None };
    wd.run();
    preempt_off();
    let want = want.take().unwrap_or_else(|| reference(&twin));
    let got = results.lock().unwrap();
    let mut n = 0;
    for t in 0..threads {
        check!(got[t].len() == plans[t].len(), "sharing-visible", "thread {t} finished {} of {} calls", got[t].len(), plans[t].len());
        for (i, (q, a)) in plans[t].iter().enumerate() {
            n += 1;
            // (a call that panics alone as well is no matter of sharing)
            if want[t][i].starts_with("panic") {
                probe("a call that panics alone");
            }
            check!(got[t][i] == want[t][i], "sharing-visible", "call {q} {a:?} returned {:?} on thread {t} of {threads}, but {:?} when the calls run one after another", got[t][i], want[t][i]);
        }
    }
    if let Some((k, s)) = slow_text.lock().unwrap().take() {
        let mut w = String::new();
        let _ = show(&twin, k, &mut w);
        check!(s == w, "sharing-visible", "formatting into a slow sink gave {s:?} instead of {w:?}");
    } else if stalled {
        violate!("sharing-visible", "formatting into a slow sink never finished");
    }
    // nothing anybody did shows in the values afterwards
    if let Some(s) = kept {
        for k in 0..12 {
            let (mut x, mut y) = (String::new(), String::new());
            let _ = show(&s, k, &mut x);
            let _ = show(&twin, k, &mut y);
            check!(x == y, "sharing-visible", "afterwards a shared value reads {x:?} instead of {y:?}");
        }
    } else {
        check!(weak.upgrade().is_none(), "sharing-visible", "the shared values were not dropped");
    }
    if n >= 3 {
        nontrivial();
    }
}
