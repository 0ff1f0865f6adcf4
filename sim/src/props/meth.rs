//! Methods (C19): leads, courses, labels and calls stay consistent under every history, alone or shared
//! behind a lock.
use super::libs::{preempt_off, preempt_on, simple_world};
use crate::core::*;
use crate::lib_gen::{emit_changes, gen_change, gen_pn_block, gen_word, Change};
use crate::vals::*;
use crate::{check, ev, violate};
use bellframe::method::class::{Class, FullClass};
use bellframe::{AnnotBlock, Block as PlainBlock, Call, Method, PnBlock};
use std::sync::{Arc, RwLock};

const C: &str = "method-inconsistent";

#[derive(Clone)]
struct M {
    name: String,
    title: Option<String>,
    /// The lead's rows and the next lead's head.
    rows: Vec<R>,
    labels: Vec<Option<String>>,
}
type Pair = (Method, M);

fn gen_label() -> Option<String> {
    match pick(6) {
        0 => None,
        1 => Some("LE".into()),
        2 => Some("".into()),
        3 => Some("le".into()),
        4 => Some(gen_word()),
        _ => Some(["H", "1", "LE ", "B"][pick(4)].into()),
    }
}
fn all_rows(b: &AnnotBlock<Option<String>>) -> Vec<R> {
    b.all_rows().map(of).collect()
}
fn gen_notation(n: usize) -> (String, Vec<R>, PnBlock) {
    let (text, changes) = if n <= 8 && pick(48) == 47 {
        probe("a lead of more than 256 rows");
        let base = [gen_change(n), gen_change(n), gen_change(n)];
        let k = 257 + pick(80);
        let cs: Vec<Change> = (0..k).map(|i| base[(i * i + i / 7) % 3].clone()).collect();
        (emit_changes(n, &cs), cs)
    } else {
        gen_pn_block(n, [1, 3, 8, 20][pick(4)])
    };
    let rows = changes_rows(&rounds(n), &changes);
    match must("PnBlock::parse", || PnBlock::parse(&text, stage(n))) {
        Ok(b) => (text, rows, b),
        Err(e) => violate!(C, "the notation {text:?} on {n} bells was rejected: {e}"),
    }
}
fn gen_method() -> Pair {
    let n = [3, 4, 5, 6, 8, 10, 12, 16, 33][pick(9)];
    let (text, rows, pnb) = gen_notation(n);
    let k = rows.len() - 1;
    let name = gen_word();
    let mut labels = vec![None; k];
    let how = pick(4);
    let (m, title) = match how {
        0 => {
            for l in labels.iter_mut() {
                if pick(3) == 2 {
                    *l = gen_label();
                }
            }
            let lead = must("with_annots_from_indices", || AnnotBlock::with_annots_from_indices(to_vec(n, &rows), |i| labels[i].clone()));
            let Some(lead) = lead else { violate!(C, "{k} changes make no block") };
            let title = gen_word();
            (Method::new(title.clone(), name.clone(), FullClass::new(false, false, false, Class::Hybrid), lead), Some(title))
        }
        1 => match must("from_place_not_string", || Method::from_place_not_string(name.clone(), stage(n), &text)) {
            Ok(m) => (m, None),
            Err(e) => violate!(C, "a method of {text:?} on {n} bells was rejected: {e}"),
        },
        2 => {
            labels[k - 1] = Some("LE".into());
            (must("with_lead_end", || Method::with_lead_end(name.clone(), &pnb)), None)
        }
        _ => (must("with_name", || Method::with_name(name.clone(), pnb.to_block_from_rounds())), None),
    };
    ev!("a method of {k} rows on {n} bells ({how})");
    shape((n * 1000 + k * 10 + how) as u64);
    (m, M { name, title, rows, labels })
}
fn lead(m: &Method) -> (Vec<R>, Vec<Option<String>>) {
    (all_rows(m.first_lead()), m.first_lead().annots().cloned().collect())
}
/// Everything but the labels and rows.
fn parts(p: &Pair) {
    let (m, w) = p;
    let k = w.labels.len();
    check!(m.lead_len() == k && m.stage() == stage(w.rows[0].len()), C, "a lead of {k} rows on {} bells has length {} and stage {}", w.rows[0].len(), m.lead_len(), m.stage());
    check!(of(m.lead_head()) == w.rows[k], C, "the lead head is {} instead of {}", m.lead_head(), text(&w.rows[k]));
    check!(m.name() == w.name, C, "the name is {:?} instead of {:?}", m.name(), w.name);
    if let Some(t) = &w.title {
        check!(m.title() == t, C, "the title is {:?} instead of {t:?}", m.title());
    }
}
fn same_lead(p: &Pair, when: &str) {
    let (rows, labels) = lead(&p.0);
    check!(rows == p.1.rows, C, "{when} the lead's rows are {rows:?} instead of {:?}", p.1.rows);
    check!(labels == p.1.labels, C, "{when} the labels are {labels:?} instead of {:?}", p.1.labels);
}
fn course(p: &Pair) {
    let (m, w) = p;
    let k = w.labels.len();
    let n = w.rows[0].len();
    let c = must("plain_course", || m.plain_course());
    let mut head = rounds(n);
    let mut i = 0;
    let mut annots = c.annots();
    let rows: Vec<R> = c.all_rows().map(of).collect();
    let mut leads = 0;
    loop {
        for j in 0..k {
            let want = mul(&head, &w.rows[j]);
            let a = annots.next();
            let got = a.map(|a| (a.sub_lead_idx(), a.label()));
            check!(rows.get(i) == Some(&want), C, "row {i} of the plain course is {:?} instead of {}", rows.get(i).map(|r| text(r)), text(&want));
            check!(got == Some((j, w.labels[j].as_deref())), C, "row {i} of the plain course is annotated {got:?} instead of {:?}", (j, &w.labels[j]));
            i += 1;
        }
        head = mul(&head, &w.rows[k]);
        leads += 1;
        if head == rounds(n) {
            break;
        }
    }
    check!(c.len() == i && annots.next().is_none(), C, "the plain course of {leads} leads has {} rows instead of {i}", c.len());
    check!(of(c.leftover_row()) == rounds(n), C, "the plain course ends in {}", c.leftover_row());
    if leads > 1 {
        probe("a course of several leads");
    }
    shape(leads);
    // (the infinite course repeats the closed one)
    for _ in 0..3 {
        let at = if chance(20) { pick(70_000) * k + pick(k) } else if chance(100) { pick(50_000) } else { pick(2 * i + 2) };
        let r = of(&must("row_in_plain_course", || m.row_in_plain_course(at)));
        check!(r == rows[at % i], C, "row {at} of the infinite course is {} instead of {}", text(&r), text(&rows[at % i]));
    }
}
fn read(p: &Pair) {
    let (m, w) = p;
    let k = w.labels.len();
    let kind = pick(7);
    shape(kind as u64);
    match kind {
        0 | 1 => course(p),
        2 => {
            let i = pick(k + 3);
            match guard(|| m.get_label(i).map(|s| s.to_string())) {
                Ok(l) => check!(i < k && l == w.labels[i], C, "label {i} of {k} is {l:?} instead of {:?}", w.labels.get(i)),
                Err(p) => check!(i >= k, C, "reading label {i} of {k} panicked: {}", p.msg),
            }
        }
        3 => {
            let l = gen_label().unwrap_or("x".into());
            let got: Vec<usize> = must("label_indices", || m.label_indices(&l).collect());
            let want: Vec<usize> = (0..k).filter(|i| w.labels[*i].as_deref() == Some(&l)).collect();
            check!(got == want, C, "the label {l:?} is listed at {got:?} instead of {want:?}");
            if !want.is_empty() {
                probe("a label was listed");
            }
        }
        4 => {
            let i = pick(k + 1);
            match guard(|| of(m.row_in_plain_lead(i))) {
                Ok(r) => check!(r == w.rows[i], C, "row {i} of the lead is {} instead of {}", text(&r), text(&w.rows[i])),
                Err(p) => check!(i == k, C, "reading row {i} of a lead of {k} rows panicked: {}", p.msg),
            }
        }
        5 => parts(p),
        _ => same_lead(p, "afterwards"),
    }
}
fn write(p: &mut Pair) {
    let k = p.1.labels.len();
    if pick(6) == 5 {
        must("set_lead_end_label", || p.0.set_lead_end_label());
        p.1.labels[0] = Some("LE".into());
    } else {
        let i = if pick(4) == 3 { k + [0, 1, 5, usize::MAX - k][pick(4)] } else { pick(k) };
        let l = gen_label();
        shape(20 + (i >= k) as u64);
        let m = &mut p.0;
        match guard(|| m.set_label(i, l.clone())) {
            Ok(()) => {
                check!(i < k, C, "setting label {i} of {k} was accepted");
                p.1.labels[i] = l;
            }
            Err(e) => {
                check!(i >= k, C, "setting label {i} of {k} panicked: {}", e.msg);
                fault("label-out-of-range");
            }
        }
    }
    same_lead(p, "after setting a label");
}
fn calls() {
    let n = [3, 4, 5, 6, 8, 12, 20][pick(7)];
    let (text_, rows, pnb) = gen_notation(n);
    let k = rows.len() - 1;
    let kind = pick(3);
    let (c, want) = match kind {
        0 => (must("le_bob", || Call::le_bob(pnb)), ('-', "LE".to_string(), k)),
        1 => (must("le_single", || Call::le_single(pnb)), ('s', "LE".to_string(), k)),
        _ => {
            let covers = pick(9);
            let loc = gen_word();
            let b: PlainBlock = pnb.to_block_from_rounds();
            (Call::new('x', loc.clone(), covers, b), ('x', loc, covers))
        }
    };
    let c = if pick(2) == 1 { c.clone() } else { c };
    let got: Vec<R> = c.block().all_rows().map(of).collect();
    check!(got == rows, C, "a call of {text_:?} on {n} bells has the rows {got:?} instead of {rows:?}");
    check!((c.notation(), c.location().to_string(), c.cover_len()) == want, C, "a call reports {:?} instead of {want:?}", (c.notation(), c.location(), c.cover_len()));
    check!(c.len() == k && c.stage() == stage(n) && of(c.transposition()) == rows[k], C, "a call of {k} changes has length {}, stage {} and transposition {}", c.len(), c.stage(), c.transposition());
    let eff = rows.iter().map(|r| (0..n).rev().find(|i| r[*i] != *i).map_or(1, |i| i + 1)).max().unwrap();
    check!(c.effective_stage() == stage(eff), C, "a call of {text_:?} on {n} bells has effective stage {} instead of {eff}", c.effective_stage());
    probe("a call was made");
}
fn alone() -> usize {
    let mut pool = vec![gen_method()];
    let mut n = 0;
    for _ in 0..[4, 10, 20][pick(3)] {
        span(|| {
            let i = pick(pool.len());
            match pick(10) {
                0 if pool.len() < 4 => pool.push(gen_method()),
                1 if pool.len() < 4 => {
                    let c = pool[i].clone();
                    pool.push(c);
                    probe("a method was copied");
                }
                2 => calls(),
                3..=6 => {
                    write(&mut pool[i]);
                    n += 1;
                }
                _ => read(&pool[i]),
            }
        });
        for p in &pool {
            same_lead(p, "after a call on some method");
        }
    }
    for p in &pool {
        parts(p);
        course(p);
    }
    n
}
pub fn c19() {
    if pick(3) < 2 {
        if alone() >= 2 {
            nontrivial();
        }
        return;
    }
    // readers and writers of one method; writers may fail while they hold the lock
    let wd = simple_world([50, 200, 700][pick(3)]);
    let p = wd.new_proc(&[], None, false);
    let shared = Arc::new(RwLock::new(span(gen_method)));
    for t in 0..2 + pick(3) {
        let shared = shared.clone();
        wd.spawn(p, 0, move || {
            for _ in 0..1 + pick(5) {
                span(|| {
                    let r = if pick(3) == 2 {
                        guard(|| {
                            let mut g = shared.write().unwrap_or_else(|e| e.into_inner());
                            write(&mut g);
                            if pick(6) == 5 {
                                fault("lock-poisoned");
                                // a label out of range, not caught while the lock is held
                                let k = g.1.labels.len();
                                g.0.set_label(k + pick(3), gen_label());
                                violate!(C, "setting a label out of range was accepted");
                            }
                        })
                    } else {
                        guard(|| {
                            let g = shared.read().unwrap_or_else(|e| e.into_inner());
                            read(&g);
                        })
                    };
                    if let Err(p) = r {
                        if p.loc.starts_with("src/") {
                            harness_error(&format!("panicked: {} at {}", p.msg, p.loc));
                        }
                    }
                    ev!("thread {t} done with a step");
                });
            }
        });
    }
    preempt_on();
    wd.run();
    preempt_off();
    let g = shared.read().unwrap_or_else(|e| e.into_inner());
    same_lead(&g, "after all threads are done");
    parts(&g);
    course(&g);
    nontrivial();
    probe("a method shared by threads");
}
