//! Libraries as values: saving and reloading (C07), suggestions (C08), lookup (C09).
use crate::core::*;
use crate::lib_gen::*;
use crate::world::{self, w, World};
use crate::{check, ev, violate};
use bellframe::method::class::{Class, FullClass};
use bellframe::method_lib::QueryError;
use bellframe::MethodLib;
use std::io::Write;
use std::sync::Arc;

const CLASSES: [Class; 9] = [
    Class::Principle,
    Class::Place,
    Class::Bob,
    Class::TrebleBob,
    Class::Delight,
    Class::Surprise,
    Class::TreblePlace,
    Class::Alliance,
    Class::Hybrid,
];

pub fn simple_world(switch: usize) -> &'static mut World {
    let wd = World::install();
    wd.rates.switch = switch;
    wd.fs.setup_dir(b"/data");
    wd
}
/// Threads lose the processor at seeded points inside the code under test.
pub fn preempt_on() {
    match pick(6) {
        0 => {}
        1 => world::alloc_yield([2, 5, 40][pick(3)]),
        2 => crate::cov::block_yield(20),
        3 => crate::cov::block_yield(150),
        4 => crate::cov::block_yield(1000),
        _ => {
            world::alloc_yield(10);
            crate::cov::block_yield(300)
        }
    }
}
/// The same, much more often: threads that do the same thing at the same time run in near lock-step.
pub fn preempt_closely() {
    let w = w();
    w.rates.switch = [200, 400, 600, 900][pick(4)];
    match pick(8) {
        0 => preempt_on(),
        1 => world::alloc_yield([1, 2, 5][pick(3)]),
        _ => crate::cov::block_yield([8, 40, 80, 150, 300][pick(5)]),
    }
}
pub fn preempt_off() {
    world::alloc_yield(0);
    crate::cov::block_yield(0);
}
pub fn load(text: &str) -> MethodLib {
    match must("MethodLib::from_json", || MethodLib::from_json(text)) {
        Ok(l) => l,
        Err(e) => violate!("valid-document-rejected", "a valid library document was rejected: {e}; document: {}", clip(text)),
    }
}
pub fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}
/// Class flags are only visible in a method's debug output.
fn diff_class(lib: &MethodLib, s: &MSpec) -> Option<String> {
    if !s.findable() {
        return None;
    }
    let m = guard(|| lib.get_by_title(&s.title).ok()).ok().flatten()?;
    let d = format!("{m:?}");
    let c = format!("{:?}", FullClass::new(s.flags.0, s.flags.1, s.flags.2, CLASSES[s.class as usize]));
    if d.contains("is_differential:") && !d.contains(&c) {
        return Some(format!("{:?} is no longer {c}: {}", s.title, clip(&d)));
    }
    None
}
pub fn diff_all(lib: &MethodLib, e: &Edition, uni: &[String]) -> Option<String> {
    diff_lib(lib, e, uni).or_else(|| {
        for m in &e.methods {
            if let Some(d) = diff_class(lib, m) {
                return Some(d);
            }
        }
        match all_titles(lib, e.methods.len() + 64) {
            Some(t) if t.len() == e.methods.len() => None,
            Some(t) => Some(format!("{} methods are stored instead of {}", t.len(), e.methods.len())),
            None => Some("its titles could not be listed".into()),
        }
    })
}
pub fn size() -> usize {
    [2, 4, 8, 16, 40, 120][pick(6)]
}

// ---- C07 --------------------------------------------------------------------------------------------
pub struct Saves {
    pub eds: Vec<Edition>,
    pub uni: Vec<String>,
    /// Texts that were produced by saving edition 0 / 1.
    pub last: [Option<String>; 2],
    /// Every text that was produced by saving.
    pub all: Vec<String>,
    crashed: bool,
}
impl Saves {
    pub fn saved(&mut self, i: usize, text: &str) {
        self.last[i] = Some(text.to_string());
        if !self.all.iter().any(|t| t == text) {
            self.all.push(text.to_string());
        }
    }
    /// What is left of one saved text, and not a blend of the pages of two: nothing but a checksum tells a
    /// blend of two texts of one length from a document.
    fn of_one_text(&self, b: &[u8]) -> bool {
        self.all.iter().any(|t| b.len() <= t.len() && b.iter().zip(t.bytes()).all(|(x, y)| *x == y || *x == 0))
    }
}
static mut SAVES: *mut Saves = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn saves() -> &'static mut Saves {
    unsafe { &mut *SAVES }
}
#[cfg(feature = "gen")]
pub fn set_saves(eds: Vec<Edition>, uni: Vec<String>) {
    unsafe { SAVES = Box::into_raw(Box::new(Saves { eds, uni, last: [None, None], all: vec![], crashed: false })) };
}
#[cfg(feature = "gen")]
pub fn set_crashed(c: bool) {
    saves().crashed = c;
}
const PATH: &str = "/data/saved.json";

pub fn save_with(style: usize, text: &str) -> std::io::Result<()> {
    save_to(PATH, style, text)
}
pub fn save_to(path: &str, style: usize, text: &str) -> std::io::Result<()> {
    match style {
        0 => std::fs::write(path, text),
        1 => {
            let tmp = &format!("{path}.new");
            let mut f = std::fs::File::create(tmp)?;
            f.write_all(text.as_bytes())?;
            f.sync_all()?;
            std::fs::rename(tmp, path)
        }
        2 => {
            let mut f = std::io::BufWriter::with_capacity(64, std::fs::File::create(path)?);
            f.write_all(text.as_bytes())?;
            f.flush()
        }
        _ => {
            let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(path)?;
            for c in text.as_bytes().chunks(100) {
                f.write_all(c)?;
            }
            Ok(())
        }
    }
}
/// Reads what is on disk and judges it.
pub fn judge_stored() -> Option<(MethodLib, bool, bool)> {
    let s = saves();
    let b = std::fs::read(PATH).ok()?;
    shape(b.len() as u64);
    match std::str::from_utf8(&b).ok().map(|t| must("loading a saved document", || MethodLib::from_json(t))) {
        Some(Ok(l)) => {
            let d0 = diff_all(&l, &s.eds[0], &s.uni);
            let d1 = diff_all(&l, &s.eds[1], &s.uni);
            checked();
            if let (Some(d0), Some(d1)) = (&d0, &d1) {
                if !s.of_one_text(&b) {
                    probe("pages of two saved documents blended");
                    return None;
                }
                violate!("not-a-whole-saved-library", "the stored document ({} bytes) loads as a library that was never saved: {d0}; {d1}", b.len());
            }
            if s.crashed {
                probe("save survived the crash whole");
            }
            ev!("a whole saved library ({} bytes) is stored", b.len());
            Some((l, d0.is_none(), d1.is_none()))
        }
        _ => {
            ev!("the stored document ({} bytes) is rejected", b.len());
            probe("damaged save rejected");
            let intact = s.last.iter().flatten().any(|t| t.as_bytes() == &b[..]);
            check!(!intact, "saved-document-rejected", "a complete saved document was rejected: {}", clip(&String::from_utf8_lossy(&b)));
            None
        }
    }
}
/// One process: read what is on disk, judge it, save an edition (again).
fn generation(which: usize, style: usize) {
    let s = saves();
    let lib = judge_stored().filter(|(_, d0, d1)| [*d0, *d1][which]).map(|x| x.0);
    let lib = lib.unwrap_or_else(|| load(s.last[which].as_ref().unwrap_or(&s.eds[which].text)));
    let text = match must("MethodLib::to_json", || lib.to_json()) {
        Ok(t) => t,
        Err(e) => violate!("save-failed", "saving a loaded library failed: {e}"),
    };
    ev!("saving edition {which} as {} bytes", text.len());
    let back = load(&text);
    if let Some(d) = diff_all(&back, &s.eds[which], &s.uni) {
        violate!("round-trip", "after saving and loading again: {d}; saved document: {}", clip(&text));
    }
    checked();
    s.saved(which, &text);
    if save_with(style, &text).is_err() {
        ev!("saving failed");
    }
}
pub fn c07() {
    let wd = simple_world([0, 100, 500][pick(3)]);
    let max = size();
    let e0 = span(|| gen_edition(None, 0, max));
    let e1 = span(|| gen_edition(Some(&e0), 1, max));
    let uni = universe(&[e0.clone(), e1.clone()]);
    if e0.methods.len() >= 3 {
        nontrivial();
    }
    unsafe { SAVES = Box::into_raw(Box::new(Saves { eds: vec![e0, e1], uni, last: [None, None], all: vec![], crashed: false })) };
    let r = &mut wd.rates;
    if pick(3) > 0 {
        r.short_write = [0, 300][pick(2)];
        r.short_read = [0, 300][pick(2)];
        r.write_err = [0, 60][pick(2)];
        r.enospc = [0, 60][pick(2)];
        r.kill = [0, 30, 120][pick(3)];
        r.power = [0, 20, 60][pick(3)];
        r.eintr = [0, 100][pick(2)];
    }
    // generations, one process after another, each with its own hash seeds; a reader may look on while a
    // writer that replaces the file in one step is at work
    let f = |k: &str| ctx().faults.get(k).copied().unwrap_or(0);
    for _ in 0..1 + pick(5) {
        span(|| {
            let which = pick(2);
            let style = pick(4);
            let p = wd.new_proc(&[], None, true);
            wd.spawn(p, 0, move || generation(which, style));
            if style == 1 && pick(2) == 1 {
                let p = wd.new_proc(&[], None, true);
                wd.spawn(p, 0, || {
                    judge_stored();
                });
            }
            wd.run();
            saves().crashed = f("power-loss") + f("process-kill") > 0;
        });
    }
    saves().crashed = f("power-loss") + f("process-kill") > 0;
    // quiet end: two more generations without faults, and the stored document judged once more
    wd.faults_on = false;
    for which in [pick(2), pick(2)] {
        let p = wd.new_proc(&[], None, false);
        wd.spawn(p, 0, move || generation(which, 1));
        wd.run();
    }
    // cut short: no proper prefix of a saved document is a library
    let text = saves().last.iter().flatten().last().cloned().unwrap();
    for _ in 0..4 {
        let mut k = match pick(3) {
            0 => pick(text.len()),
            1 => text.len() - 1 - pick(8.min(text.len())),
            _ => pick(40.min(text.len())),
        };
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        let r = must("loading a document cut short", || MethodLib::from_json(&text[..k]));
        check!(r.is_err(), "cut-document-accepted", "the first {k} of {} bytes of a saved document were accepted as a library: {}", text.len(), clip(&text[..k]));
    }
    // any document that loads, however odd or damaged, survives saving
    for _ in 0..2 {
        let d = if pick(2) == 0 { gen_odd_doc() } else { world::corrupt(saves().eds[pick(2)].text.as_bytes()) };
        let Ok(t) = String::from_utf8(d) else { continue };
        let p = wd.new_proc(&[], None, false);
        wd.spawn(p, 0, move || {
            let uni = &saves().uni;
            let Ok(lib) = must("MethodLib::from_json", || MethodLib::from_json(&t)) else { return };
            probe("odd document loaded");
            let a = describe(&lib, uni);
            let s = match must("MethodLib::to_json", || lib.to_json()) {
                Ok(s) => s,
                Err(e) => violate!("save-failed", "saving a loaded library failed: {e}; it was loaded from {}", clip(&t)),
            };
            let b = describe(&load(&s), uni);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if let Some(d) = a.iter().find(|x| !b.contains(x)).or(b.iter().find(|x| !a.contains(x))) {
                        violate!("round-trip", "saving and loading changed {d}; loaded from {} saved as {}", clip(&t), clip(&s));
                    }
                    checked();
                }
                (Err(p), _) | (_, Err(p)) => violate!("panic", "querying a loaded library panicked: {} at {}", p.msg, p.loc),
            }
        });
        wd.run();
    }
    // threads saving one shared library at once
    if pick(3) == 2 {
        let e = &saves().eds[0];
        let lib = Arc::new(load(&e.text));
        let p = wd.new_proc(&[], None, false);
        preempt_on();
        for _ in 0..2 + pick(2) {
            let lib = lib.clone();
            wd.spawn(p, 0, move || {
                let t = must("MethodLib::to_json", || lib.to_json());
                let Ok(t) = t else { violate!("save-failed", "saving a shared library failed") };
                let e = &saves().eds[0];
                if let Some(d) = diff_all(&load(&t), e, &saves().uni) {
                    violate!("round-trip", "a library saved by two threads at once: {d}");
                }
                checked();
            });
        }
        wd.run();
        preempt_off();
    }
}

// ---- C08 --------------------------------------------------------------------------------------------
fn lev(a: &str, b: &str) -> usize {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for (i, x) in a.iter().enumerate() {
        let mut diag = row[0];
        row[0] = i + 1;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = (diag + (x != y) as usize).min(up + 1).min(row[j] + 1);
            diag = up;
        }
    }
    row[b.len()]
}
/// A title near a stored one, or far from all.
pub fn near_title(e: &Edition) -> String {
    let base = pick_ref(&e.methods).title.clone();
    let mut c: Vec<char> = base.chars().collect();
    match pick(8) {
        0 => return gen_word(),
        1 => return format!("{} {}", gen_word(), pick_ref(&STAGE_NAMES)),
        2 => return pick_ref(&["", " ", "Minor", "No Stage Name", "caters", "x", "  Minor", "Plain Bob Minor "]).to_string(),
        3 if pick(6) == 5 => {
            // far away from every title
            let n = [60, 255, 256, 300, 700][pick(5)];
            probe("very long title asked for");
            return format!("{} {}", pick_ref(&["z", "Plain ", "\u{e9}"]).repeat(n), if pick(2) == 0 { base.as_str() } else { "Minor" });
        }
        _ => {}
    }
    for _ in 0..pick(4) {
        let i = pick(c.len() + 1);
        match pick(4) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.insert(i, *pick_ref(&['e', ' ', 'M', '\u{e9}', 's'])),
            2 if i < c.len() => c[i] = *pick_ref(&['o', 'R', '-']),
            _ if i + 1 < c.len() => c.swap(i, i + 1),
            _ => {}
        }
    }
    toggle_case(&c.into_iter().collect::<String>())
}
fn stored<'a>(e: &'a Edition, t: &str) -> Option<&'a MSpec> {
    let t = t.to_lowercase();
    e.methods.iter().find(|m| m.findable() && m.title.to_lowercase() == t)
}
fn suggest(lib: &MethodLib, e: &Edition, t: &str, n: usize) {
    let what = format!("asking for {n} suggestions for {t:?} in a library of {}", e.methods.len());
    let r = must(&what, || lib.get_by_title_with_suggestions(t, n));
    checked();
    match (r, stored(e, t)) {
        (Ok(m), Some(s)) => {
            if let Some(d) = diff_method(&m, s) {
                violate!("wrong-method", "{what}: {d}");
            }
        }
        (Err(QueryError::PnParseErr { pn, .. }), Some(s)) if s.rows.is_none() => check!(pn == s.pn, "wrong-notation", "{what}: the error quotes {pn:?}"),
        (Ok(m), None) => violate!("wrong-method", "{what}: returned {:?} though this title is not stored", m.title()),
        (Err(QueryError::PnParseErr { pn, .. }), _) => violate!("wrong-notation", "{what}: reported the notation {pn:?} as invalid"),
        (Err(QueryError::NotFound(_)), Some(s)) => violate!("not-found", "{what}: {:?} is stored but was not found", s.title),
        (Err(QueryError::NotFound(v)), None) => {
            let want = n.min(e.methods.len());
            check!(v.len() == want, "wrong-count", "{what}: {} returned instead of {want}: {v:?}", v.len());
            let lower = t.to_lowercase();
            let mut seen = std::collections::BTreeSet::new();
            let mut last = 0;
            for (s, d) in &v {
                check!(e.methods.iter().any(|m| m.title == *s), "not-stored", "{what}: {s:?} is not a stored title");
                check!(seen.insert(s.to_string()), "duplicate", "{what}: {s:?} was suggested twice: {v:?}");
                let true_d = lev(&lower, &s.to_lowercase());
                check!(*d == true_d, "wrong-distance", "{what}: {s:?} is {true_d} edits away, not {d}");
                check!(*d >= last, "not-sorted", "{what}: not sorted nearest first: {v:?}");
                last = *d;
            }
            let mut ties = 0;
            for m in &e.methods {
                if !seen.contains(&m.title) && !v.is_empty() {
                    let d = lev(&lower, &m.title.to_lowercase());
                    check!(d >= last, "nearer-omitted", "{what}: {:?} is {d} edits away but was left out of {v:?}", m.title);
                    ties += (d == last) as usize;
                }
            }
            if ties > 0 {
                probe("tie at the cut");
            }
            if n == 0 {
                probe("zero suggestions asked");
            }
            if n > e.methods.len() {
                probe("more suggestions asked than stored");
            }
            shape(hash_bytes(want as u64, &v.iter().map(|x| x.1 as u8).collect::<Vec<_>>()));
            ev!("{what} -> {:?}", v.iter().map(|x| x.1).collect::<Vec<_>>());
        }
    }
}
fn how_many(len: usize) -> usize {
    match pick(12) {
        0 => 0,
        1 => 1,
        2 => len,
        3 => len + 1,
        4 => len.saturating_sub(1),
        5 => *pick_ref(&[usize::MAX, 1 << 40, usize::MAX / 2, 1 << 60, isize::MAX as usize]),
        6 => 1000,
        _ => pick(len + 3),
    }
}
/// A library shared by some threads of one process, each running `f` a few times.
fn shared_lib(max: usize, f: fn(&MethodLib, &Edition)) {
    let wd = simple_world([0, 200, 700][pick(3)]);
    let e = Arc::new(span(|| gen_edition(None, 0, max)));
    if e.methods.len() >= 3 {
        nontrivial();
    }
    // loaded afresh in processes with different hash seeds
    for _ in 0..1 + pick(2) {
        let p = wd.new_proc(&[], None, false);
        let lib: Arc<std::sync::OnceLock<MethodLib>> = Default::default();
        {
            let (lib, e) = (lib.clone(), e.clone());
            wd.spawn(p, 0, move || {
                let l = load(&e.text);
                let mut l = if pick(3) == 2 { must("MethodLib::clone", || l.clone()) } else { l };
                if pick(3) == 2 {
                    // saved and loaded again
                    let t = must("MethodLib::to_json", || l.to_json());
                    let Ok(t) = t else { violate!("save-failed", "saving a loaded library failed") };
                    l = load(&t);
                }
                let _ = lib.set(l);
            });
        }
        wd.run();
        let threads = 1 + pick(3);
        if pick(3) > 0 {
            preempt_on();
        }
        for _ in 0..threads {
            let (lib, e) = (lib.clone(), e.clone());
            let n = 1 + pick(8);
            wd.spawn(p, 0, move || {
                for _ in 0..n {
                    span(|| f(lib.get().unwrap(), &e));
                }
            });
        }
        wd.run();
        preempt_off();
    }
}
pub fn c08() {
    let max = [0, 3, 6, 12, 40][pick(5)];
    shared_lib(max, |lib, e| {
        let t = near_title(e);
        let n = how_many(e.methods.len());
        suggest(lib, e, &t, n);
    });
    // an empty library
    if pick(8) == 7 {
        let lib = load("{\"groups\":[]}");
        let e = Edition { methods: vec![], text: String::new() };
        let n = how_many(0);
        suggest(&lib, &e, "Plain Bob Minor", n);
    }
}

// ---- C09 --------------------------------------------------------------------------------------------
pub fn c09() {
    let max = size();
    shared_lib(max, |lib, e| {
        let t = match pick(4) {
            0 => near_title(e),
            1 => pick_ref(&e.methods).title.clone(),
            _ => toggle_case(&pick_ref(&e.methods).title),
        };
        let s = stored(e, &t);
        shape(hash_bytes(s.map_or(0, |s| s.stage as u64), &[s.map_or(0, |s| 1 + s.class + 16 * s.rows.is_none() as u8)]));
        match s {
            None => probe("absent title looked up"),
            Some(s) if s.rows.is_none() => probe("invalid notation looked up"),
            Some(s) if !s.explicit => probe("implicit title looked up"),
            _ => {}
        }
        checked();
        if let Some(d) = diff_lookup(lib, &t, s) {
            violate!("lookup", "looking up {t:?}: {d}");
        }
        if let Some(d) = s.and_then(|s| diff_class(lib, s)) {
            violate!("lookup", "looking up {t:?}: {d}");
        }
        ev!("looked up {t:?}");
    });
}
