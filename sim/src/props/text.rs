//! Text (C20): the same through every sink, a prefix when a sink gives up, and read back as exactly what
//! it says however storage has treated it.
use super::libs::simple_world;
use crate::core::*;
use crate::lib_gen::{bell_name, gen_pn_block, gen_word, stage_name, BELL_NAMES};
use crate::vals::*;
use crate::world::{self, w};
use crate::{check, ev, violate};
use bellframe::method::class::{Class, FullClass};
use bellframe::music::Regex;
use bellframe::row::{DbgRow, RowAccumulator};
use bellframe::{AnnotBlock, Bell, Block as PlainBlock, Call, Mask, Method, PlaceNot, PnBlock, Row, RowBuf, SameStageVec, Stage};
use std::cell::RefCell;
use std::fmt::{self, Write as _};
use std::io::{self, Write as _};

// ---- models of reading ------------------------------------------------------------------------------
fn m_lines(t: &str) -> Option<Vec<R>> {
    let mut lines: Vec<&str> = t.lines().collect();
    if lines.is_empty() {
        lines.push("");
    }
    let rows: Vec<R> = lines.iter().map(|l| parse_names(l)).collect();
    rows.iter().all(|r| is_perm(r) && r.len() == rows[0].len()).then_some(rows)
}
fn m_with_stage(r: &[usize], n: usize) -> Option<R> {
    // (a row of the first bells, to which the others are added in order)
    if r.len() > n || (!r.is_empty() && !is_perm(r)) {
        return None;
    }
    let mut v = r.to_vec();
    v.extend(r.len()..n);
    Some(v)
}
/// Places of one change, if the text is unambiguous.
fn m_places(mut p: Vec<usize>, n: usize) -> Option<Vec<usize>> {
    p.sort();
    let last = *p.last()?;
    if last >= n {
        return None;
    }
    let mut v = vec![];
    if p[0] % 2 == 1 {
        v.push(0);
    }
    for (i, &x) in p.iter().enumerate() {
        if i > 0 {
            let gap = x.checked_sub(p[i - 1] + 1)?;
            if gap == 1 {
                v.push(x - 1);
            } else if gap % 2 == 1 {
                return None;
            }
        }
        v.push(x);
    }
    if (n - 1 - last) % 2 == 1 {
        v.push(n - 1);
    }
    Some(v)
}
fn m_pn(t: &str, n: usize) -> Option<Vec<usize>> {
    if ["x", "X", "-"].contains(&t) {
        return (n % 2 == 0).then(Vec::new);
    }
    m_places(parse_names(t), n)
}
fn m_pn_block(t: &str, n: usize) -> Option<Vec<Vec<usize>>> {
    let parts: Vec<&str> = t.split(',').collect();
    let mut all = vec![];
    for part in &parts {
        let mut asym = false;
        let mut begun = false;
        let mut block = vec![];
        let mut places: Vec<usize> = vec![];
        for c in part.chars().chain(std::iter::once(' ')) {
            if let Some(b) = BELL_NAMES.find(c) {
                begun = true;
                places.push(b);
                continue;
            }
            match c {
                '+' if !begun => {
                    asym = true;
                    begun = true;
                }
                '+' => return None,
                'x' | 'X' | '-' | ' ' | '.' => {
                    if !places.is_empty() {
                        block.push(m_places(std::mem::take(&mut places), n)?);
                    }
                    if c != ' ' && c != '.' {
                        begun = true;
                        if n % 2 == 1 {
                            return None;
                        }
                        block.push(vec![]);
                    }
                }
                _ => {}
            }
        }
        all.extend(block.iter().cloned());
        if parts.len() > 1 && !asym {
            all.extend(block.into_iter().rev().skip(1));
        }
    }
    (!all.is_empty()).then_some(all)
}
fn m_mask(t: &str) -> Vec<Option<usize>> {
    t.chars()
        .filter_map(|c| match c {
            'x' | 'X' | '.' => Some(None),
            c => BELL_NAMES.find(c).map(Some),
        })
        .collect()
}
fn m_regex(t: &str) -> String {
    let mut s = String::new();
    let (mut any, mut glob) = (0, false);
    for c in t.chars().map(Some).chain(std::iter::once(None)) {
        match c {
            Some('x') | Some('.') => any += 1,
            Some('*') => glob = true,
            Some(c) if BELL_NAMES.find(c).is_none() => {}
            c => {
                s.extend(std::iter::repeat('x').take(any));
                if glob {
                    s.push('*');
                }
                (any, glob) = (0, false);
                s.extend(c);
            }
        }
    }
    s
}

// ---- values -----------------------------------------------------------------------------------------
const KINDS: [&str; 9] = ["a row", "rows", "a block", "a change", "a block of changes", "a mask", "a pattern", "a row of a given stage", "bells and stages"];
/// Something written as text: what it is, its bells, the text it must have.
struct Written {
    kind: usize,
    n: usize,
    want: String,
    value: Box<dyn fmt::Display + Send + Sync>,
}
/// Joined by a separator, each formatted by its own call.
struct Joined<T>(Vec<T>, &'static str);
impl<T: fmt::Display> fmt::Display for Joined<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, x) in self.0.iter().enumerate() {
            if i > 0 {
                f.write_str(self.1)?;
            }
            write!(f, "{x}")?;
        }
        Ok(())
    }
}
/// A block's rows as text.
struct Lines<'a>(&'a PlainBlock);
impl fmt::Display for Lines<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, r) in self.0.all_rows().enumerate() {
            if i > 0 {
                writeln!(f)?;
            }
            write!(f, "{r}")?;
        }
        Ok(())
    }
}
fn named_stage() -> usize {
    [3, 4, 4, 5, 6, 8, 10, 11, 12, 16, 20, 33][pick(12)]
}
fn change_text(c: &[usize]) -> String {
    if c.is_empty() { "-".into() } else { text(c) }
}
fn gen_written() -> Written {
    let kind = pick(KINDS.len());
    let n = named_stage();
    let (want, value): (String, Box<dyn fmt::Display + Send + Sync>) = match kind {
        0 => {
            let r = gen_row(n);
            let v = real(&r);
            (text(&r), match pick(3) {
                0 => Box::new(v),
                1 => Box::new(v.to_arc()),
                // (reference-counted, but not to be sent elsewhere)
                _ => Box::new(must("Rc", || v.to_rc().to_string())),
            })
        }
        7 => {
            let r = gen_row(n);
            (text(&r), Box::new(real(&r)))
        }
        1 | 2 => {
            let rows: Vec<R> = if n <= 8 && pick(64) == 63 {
                probe("more than 256 rows were written");
                many_rows(n, 257 + pick(40))
            } else {
                (0..1 + pick(5)).map(|_| gen_row(n)).collect()
            };
            let want = rows.iter().map(|r| text(r)).collect::<Vec<_>>().join("\n");
            let v = to_vec(n, &rows);
            if kind == 1 {
                (want, Box::new(Joined(v.iter().map(|r| r.to_owned()).collect::<Vec<_>>(), "\n")))
            } else {
                let b: &'static PlainBlock = Box::leak(Box::new(PlainBlock::with_default_annots(v)));
                (want, Box::new(Lines(b)))
            }
        }
        3 => {
            let c = crate::lib_gen::gen_change(n);
            (change_text(&c), Box::new(to_pn(n, &c)))
        }
        4 => {
            let (t, cs) = gen_pn_block(n, 5);
            let Ok(b) = PnBlock::parse(&t, stage(n)) else { violate!("reads-as-something-else", "{t:?} on {n} bells was rejected") };
            let want = cs.iter().map(|c| change_text(c)).collect::<Vec<_>>().join(".");
            (want, Box::new(Joined(b.place_nots().cloned().collect::<Vec<_>>(), ".")))
        }
        5 => {
            let m: Vec<Option<usize>> = gen_row(n).into_iter().map(|b| (pick(2) == 0).then_some(b)).collect();
            let want: String = m.iter().map(|b| b.map_or("x".into(), bell_name)).collect();
            let mut mask = Mask::empty(stage(n));
            for (p, b) in m.iter().enumerate() {
                if let Some(b) = b {
                    if mask.set_bell(bell(*b), p).is_err() {
                        violate!("reads-as-something-else", "bell {b} cannot be placed in an empty place");
                    }
                }
            }
            (want, Box::new(mask))
        }
        6 => {
            let t: String = (0..pick(8)).map(|_| ["*", "x", ".", "1", "2", "3", "E"][pick(7)]).collect();
            (m_regex(&t), Box::new(Regex::parse(&t)))
        }
        _ => {
            let v: Vec<usize> = (0..1 + pick(5)).map(|_| pick(33)).collect();
            let s = 1 + pick(30);
            let stage_text = stage_name(s).map_or(format!("{s} bells"), |s| s.to_string());
            (
                format!("{}\n{stage_text}", text(&v)),
                Box::new(Joined(
                    vec![
                        Box::new(Joined(v.iter().map(|b| bell(*b)).collect(), "")) as Box<dyn fmt::Display + Send + Sync>,
                        Box::new(stage(s)),
                    ],
                    "\n",
                )),
            )
        }
    };
    Written { kind, n, want, value }
}
/// What a text reads as; checked against the model, and against the value it was written from.
fn read_back(kind: usize, n: usize, t: &str, whole: Option<&Written>) {
    let cls = "reads-as-something-else";
    let what = KINDS[kind];
    macro_rules! agree {
        ($how:expr, $got:expr, $want:expr) => {{
            let (got, want) = (&$got, &$want);
            match want {
                Some(v) => {
                    probe("a text that can be read");
                    check!(got.as_ref() == Some(v), cls, "{:?} ({n} bells) read as {what} by {} is {got:?} instead of {v:?}", t, $how);
                }
                None => {
                    probe("a text that cannot be read");
                    check!(got.is_none(), cls, "{:?} ({n} bells) read as {what} by {} is {got:?} instead of an error", t, $how);
                }
            }
            if whole.is_some() {
                check!(got.is_some(), cls, "{:?} ({n} bells), written from {what}, cannot be read by {}", t, $how);
                probe("a value read back");
            }
        }};
    }
    fn told<T, E: fmt::Display + fmt::Debug>(r: Result<T, E>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                must("describing an error", || format!("{e} {e:?} {e:#?}"));
                None
            }
        }
    }
    let must_parse = |f: &mut dyn FnMut()| must("reading a text", f);
    match kind {
        0 => {
            let mut got = (None, None);
            must_parse(&mut || got = (told(RowBuf::parse(t)), told(t.parse::<RowBuf>())));
            let want = Some(parse_names(t)).filter(|r| is_perm(r));
            agree!("RowBuf::parse", got.0.map(|r| of(&r)), want);
            agree!("from_str", got.1.map(|r| of(&r)), want);
        }
        7 => {
            let mut got = None;
            must_parse(&mut || got = told(RowBuf::parse_with_stage(t, stage(n))));
            agree!("RowBuf::parse_with_stage", got.map(|r| of(&r)), m_with_stage(&parse_names(t), n));
        }
        1 => {
            let mut got = None;
            must_parse(&mut || got = told(SameStageVec::parse(t)));
            agree!("SameStageVec::parse", got.map(|v| v.iter().map(of).collect::<Vec<R>>()), m_lines(t));
        }
        2 => {
            let mut got = None;
            must_parse(&mut || got = told(PlainBlock::parse(t)));
            agree!("Block::parse", got.map(|v| v.all_rows().map(of).collect::<Vec<R>>()), m_lines(t));
        }
        3 => {
            let mut got = None;
            must_parse(&mut || got = told(PlaceNot::parse(t, stage(n)).map_err(|e| e.to_string())));
            let got = got.map(|p| (0..n).filter(|i| p.contains(*i)).collect::<Vec<usize>>());
            agree!("PlaceNot::parse", got, m_pn(t, n));
        }
        4 => {
            let mut got = None;
            must_parse(&mut || got = told(PnBlock::parse(t, stage(n))));
            let got = got.map(|b| b.place_nots().map(|p| (0..n).filter(|i| p.contains(*i)).collect::<Vec<usize>>()).collect::<Vec<_>>());
            agree!("PnBlock::parse", got, m_pn_block(t, n));
        }
        5 => {
            let mut got = None;
            must_parse(&mut || got = Some(Mask::parse(t)));
            agree!("Mask::parse", got.map(|m| mask_of(&m)), Some(m_mask(t)));
        }
        6 => {
            let mut got = None;
            must_parse(&mut || got = Some(Regex::parse(t)));
            agree!("Regex::parse", got.map(|m| m.to_string()), Some(m_regex(t)));
        }
        _ => {
            for c in t.chars() {
                let mut got = None;
                must_parse(&mut || got = Bell::from_name(c).map(|b| b.index()));
                let want = BELL_NAMES.find(c);
                check!(got == want, cls, "the bell {c:?} reads as {got:?} instead of {want:?}");
            }
            let line = t.lines().last().unwrap_or("");
            let mut got = None;
            must_parse(&mut || got = Stage::from_lower_case_name(line).map(|s| s.num_bells()));
            let want = (1..=22).find(|n| stage_name(*n).map_or(false, |s| s.to_lowercase() == line));
            check!(got == want, cls, "the stage {line:?} reads as {got:?} instead of {want:?}");
        }
    }
}
/// Text that is not quite what was written.
pub fn maul(t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + pick(3) {
        let at = pick(c.len() + 1);
        let noise: Vec<char> = match pick(12) {
            0 => "\u{e9}".chars().collect(),
            1 => "\u{200b}".chars().collect(),
            2 => "\r".chars().collect(),
            3 => "\n".chars().collect(),
            4 => ",".chars().collect(),
            5 => "+".chars().collect(),
            6 => "\u{fffd}".chars().collect(),
            7 => "<34>".chars().collect(),
            8 => "\u{1F514}".chars().collect(),
            _ => vec![*pick_ref(b"x-.X 1234567890ETABCDFIOetz*&|~<>\0\t") as char],
        };
        match pick(7) {
            0 => c.truncate(at),
            1 if at < c.len() => {
                c.remove(at);
            }
            2 if at < c.len() => c[at] = noise[0],
            3 if c.len() > 1 => {
                let j = pick(c.len());
                let i = at.min(c.len() - 1);
                c.swap(i, j);
            }
            4 => {
                let j = (at + pick(6)).min(c.len());
                let p: Vec<char> = c[at..j].to_vec();
                let k = pick(c.len() + 1);
                c.splice(k..k, p);
            }
            5 => c = c.into_iter().map(|x| if pick(6) == 5 { x.to_ascii_lowercase() } else { x }).collect(),
            _ => {
                c.splice(at..at, noise);
            }
        }
    }
    c.into_iter().collect()
}

// ---- sinks ------------------------------------------------------------------------------------------
/// Everything that can be formatted.
struct Gallery {
    row: RowBuf,
    vec: SameStageVec,
    block: AnnotBlock<String>,
    mask: Mask,
    pn: PlaceNot,
    pnb: PnBlock,
    re: Regex,
    method: Method,
    call: Call,
    acc: RowAccumulator,
    stage: Stage,
    bell: Bell,
    errors: Vec<Box<dyn fmt::Display>>,
}
fn gen_gallery() -> Gallery {
    // (also bells without names)
    let n = [1, 3, 4, 5, 6, 8, 12, 33, 35, 40][pick(10)];
    let rows: Vec<R> = if n <= 6 && pick(80) == 79 { many_rows(n, 257 + pick(40)) } else { (0..2 + pick(4)).map(|_| gen_row(n)).collect() };
    let changes = gen_changes(n, 4);
    let pns: Vec<PlaceNot> = changes.iter().map(|c| to_pn(n, c)).collect();
    let Ok(pnb) = PnBlock::from_vec(pns.clone()) else { violate!("reads-as-something-else", "changes of one stage make no block") };
    let words: Vec<String> = (1..rows.len()).map(|_| gen_word()).collect();
    let Some(block) = AnnotBlock::with_annots_from_indices(to_vec(n, &rows), |i| words[i].clone()) else { violate!("reads-as-something-else", "rows make no block") };
    let mut errors: Vec<Box<dyn fmt::Display>> = vec![];
    for _ in 0..3 {
        let t = maul(&text(&rows[0]));
        if let Err(e) = RowBuf::parse(&t) {
            errors.push(Box::new(e));
        }
        if let Err(e) = RowBuf::parse_with_stage(&t, stage(n)) {
            errors.push(Box::new(e));
        }
        if let Err(e) = PnBlock::parse(&t, stage(n)) {
            errors.push(Box::new(e));
        }
        if let Err(e) = SameStageVec::parse(&t) {
            errors.push(Box::new(e));
        }
    }
    if let Err(e) = real(&rows[0]).mul_result(&real(&gen_row(n + 1))) {
        errors.push(Box::new(e));
    }
    Gallery {
        row: real(&rows[0]),
        mask: Mask::full_row(&real(&rows[1])),
        pn: pns[0].clone(),
        re: Regex::from(Mask::full_row(&real(&rows[1]))),
        method: Method::new(gen_word(), gen_word(), FullClass::new(pick(2) == 1, pick(2) == 1, false, Class::Surprise), pnb.to_block_from_rounds()),
        call: Call::le_single(pnb.clone()),
        acc: RowAccumulator::new(real(&rows[0])),
        pnb,
        vec: to_vec(n, &rows),
        block,
        stage: stage(n),
        bell: bell(pick(40)),
        errors,
    }
}
const SHOWS: usize = 32;
fn show(g: &Gallery, k: usize, f: &mut dyn fmt::Write) -> fmt::Result {
    match k {
        0 => write!(f, "{}", g.row),
        1 => write!(f, "{:?}", g.row),
        2 => write!(f, "{:#?}", g.row),
        3 => write!(f, "{}", Row::to_arc(&g.row)),
        4 => write!(f, "{:?}", DbgRow(&g.row)),
        5 => write!(f, "{:?}", g.vec),
        6 => write!(f, "{:#?}", g.vec),
        7 => write!(f, "{:?}", g.block),
        8 => write!(f, "{:#?}", g.block),
        9 => write!(f, "{}", g.mask),
        10 => write!(f, "{:?}", g.mask),
        11 => write!(f, "{:#?}", g.mask),
        12 => write!(f, "{}", g.pn),
        13 => write!(f, "{:?}", g.pn),
        14 => write!(f, "{:#?}", g.pnb),
        15 => write!(f, "{:?}", g.pnb),
        16 => write!(f, "{}", g.re),
        17 => write!(f, "{:?}", g.re),
        18 => write!(f, "{:?}", g.method),
        19 => write!(f, "{:#?}", g.method),
        20 => write!(f, "{:?}", g.call),
        21 => write!(f, "{:?}", g.acc),
        22 => write!(f, "{}", g.stage),
        23 => write!(f, "{:?}", g.stage),
        24 => write!(f, "{}", g.bell),
        25 => write!(f, "{:?}", g.bell),
        26 => write!(f, "{:?}", g.vec.iter().collect::<Vec<_>>()),
        27 => write!(f, "{:?}", g.method.plain_course()),
        28 => write!(f, "{} {} {}", g.row, g.mask, g.pn),
        29 => write!(f, "{:?}", g.block.annot_rows().map(|r| r.row().to_owned()).collect::<Vec<_>>()),
        30 => write!(f, "{:?} {:?}", g.row.closure().first(), g.row.is_rounds()),
        _ => {
            for e in &g.errors {
                write!(f, "{e};")?;
            }
            Ok(())
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Whole,
    /// Takes what fits and refuses from then on.
    Full,
    /// Refuses one piece, then takes others again.
    Once,
    Panics,
}
pub struct Sink {
    pub got: Vec<u8>,
    pub left: usize,
    pub mode: Mode,
    pub refused: bool,
    /// (io) takes at most so many bytes at a time
    pub at_most: usize,
    pub interrupts: bool,
}
impl Sink {
    fn take(&mut self, s: &[u8], partly: bool) -> Result<usize, ()> {
        if self.mode != Mode::Whole && s.len() > self.left && !(self.mode == Mode::Once && self.refused) {
            let k = self.left;
            match self.mode {
                Mode::Panics => {
                    fault("sink-panicked");
                    std::panic::panic_any(Injected)
                }
                Mode::Full if partly && k > 0 => {
                    self.left = 0;
                    self.got.extend_from_slice(&s[..k]);
                    return Ok(k);
                }
                Mode::Full => {
                    if partly {
                        self.left = 0;
                    }
                    fault("sink-full");
                }
                _ => {
                    // it would take the rest again
                    fault("sink-refused-once");
                    self.left = usize::MAX;
                }
            }
            self.refused = true;
            return Err(());
        }
        self.left = self.left.saturating_sub(s.len());
        self.got.extend_from_slice(s);
        Ok(s.len())
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.as_bytes(), false).map(|_| ()).map_err(|_| fmt::Error)
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupts && pick(4) == 3 {
            fault("interrupted-write");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = if self.at_most > 0 { b.len().min(1 + pick(self.at_most)) } else { b.len() };
        if k < b.len() {
            fault("sink-took-a-part");
        }
        self.take(&b[..k], true).map_err(|_| io::Error::new(io::ErrorKind::Other, "sink full"))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct ShowIt<'a>(&'a Gallery, usize);
impl fmt::Display for ShowIt<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(self.0, self.1, f)
    }
}
fn judge(kind: &str, full: &str, s: &Sink, out: Result<Result<(), String>, Panicked>) {
    let cls = "sink-visible";
    let got = String::from_utf8_lossy(&s.got).into_owned();
    match out {
        Ok(Ok(())) => {
            check!(!s.refused, cls, "{kind}: the sink refused something, but no error was reported; it holds {got:?} of {full:?}");
            check!(got == full, cls, "{kind}: the sink holds {got:?} instead of {full:?}");
        }
        Ok(Err(e)) => {
            check!(s.refused, cls, "{kind}: the sink refused nothing, but an error was reported: {e}");
            check!(full.as_bytes().starts_with(&s.got), cls, "{kind}: the sink holds {got:?}, which {full:?} does not begin with");
        }
        Err(p) if p.injected => check!(full.as_bytes().starts_with(&s.got), cls, "{kind}: the sink holds {got:?}, which {full:?} does not begin with"),
        Err(p) => violate!("panic", "{kind}: formatting {full:?} panicked: {} at {}", p.msg, p.loc),
    }
}
fn sinks() -> usize {
    let g = span(gen_gallery);
    let mut n = 0;
    for _ in 0..2 + pick(6) {
        span(|| {
            let k = pick(SHOWS);
            shape(k as u64);
            let mut full = String::new();
            if must("formatting", || show(&g, k, &mut full)).is_err() {
                violate!("sink-visible", "formatting value {k} into a string reported an error");
            }
            let mode = [Mode::Full, Mode::Once, Mode::Panics, Mode::Whole][pick(4)];
            let left = if pick(2) == 0 { pick(full.len() + 2) } else { pick(full.len().min(30) + 1) };
            let how = pick(4);
            let mut s = Sink {
                got: vec![],
                left,
                mode,
                refused: false,
                at_most: if how > 0 { [0, 1, 5][pick(3)] } else { 0 },
                interrupts: how > 0 && pick(2) == 1,
            };
            shape(how as u64 * 100 + s.at_most as u64);
            let kind = format!("value {k}, sink {how} {mode:?} after {left} bytes");
            let io = |e: io::Error| e.to_string();
            let out = match how {
                0 => guard(|| show(&g, k, &mut s).map_err(|e| e.to_string())),
                1 => guard(|| io::Write::write_fmt(&mut s, format_args!("{}", ShowIt(&g, k))).map_err(io)),
                2 => {
                    let mut b = io::BufWriter::with_capacity([0, 1, 7, 64][pick(4)], &mut s);
                    let r = guard(|| {
                        write!(b, "{}", ShowIt(&g, k)).map_err(io)?;
                        b.flush().map_err(io)
                    });
                    // (no second attempt at writing what was refused)
                    drop(b.into_parts());
                    r
                }
                _ => {
                    let b = RefCell::new(io::LineWriter::with_capacity([1, 16][pick(2)], &mut s));
                    let r = guard(|| {
                        write!(b.borrow_mut(), "{}", ShowIt(&g, k)).map_err(io)?;
                        b.borrow_mut().flush().map_err(io)
                    });
                    std::mem::forget(b);
                    r
                }
            };
            judge(&kind, &full, &s, out);
            // and once more, as if nothing had been
            let mut again = String::new();
            let r = must("formatting", || show(&g, k, &mut again));
            check!(r.is_ok() && again == full, "sink-visible", "{kind}: afterwards the value reads {again:?} instead of {full:?}");
            n += 1;
        });
    }
    n
}

// ---- storage ----------------------------------------------------------------------------------------
fn store(path: &str, how: usize, v: &dyn fmt::Display) -> io::Result<()> {
    match how {
        0 => write!(std::fs::File::create(path)?, "{v}"),
        1 => {
            let mut f = io::BufWriter::with_capacity(16, std::fs::File::create(path)?);
            write!(f, "{v}")?;
            f.flush()
        }
        2 => {
            let f = std::fs::File::create(path)?;
            write!(&f, "{v}")?;
            f.sync_all()
        }
        _ => {
            let mut f = io::LineWriter::new(std::fs::File::create(path)?);
            write!(f, "{v}")?;
            f.flush()
        }
    }
}
fn storage() -> usize {
    let wd = simple_world(0);
    let r = &mut wd.rates;
    if pick(4) > 0 {
        r.short_write = [0, 400][pick(2)];
        r.short_read = [0, 400][pick(2)];
        r.write_err = [0, 80][pick(2)];
        r.read_err = [0, 40][pick(2)];
        r.enospc = [0, 80][pick(2)];
        r.kill = [0, 30, 100][pick(3)];
        r.power = [0, 30, 80][pick(3)];
        r.eintr = [0, 100][pick(2)];
    }
    let mut done = 0;
    for _ in 0..1 + pick(3) {
        span(|| {
            let v: &'static Written = Box::leak(Box::new(span(gen_written)));
            let full = must("formatting", || v.value.to_string());
            check!(full == v.want, "reads-as-something-else", "{} is written as {full:?} instead of {:?}", KINDS[v.kind], v.want);
            shape(v.kind as u64 * 1000 + full.len() as u64);
            static mut RESULT: Option<bool> = None;
            unsafe { RESULT = None };
            let how = pick(4);
            // (a file of its own: a writer killed early leaves the previous content)
            let path: &'static str = Box::leak(format!("/data/text{done}").into_boxed_str());
            let power = ctx().faults.get("power-loss").copied();
            let killable = pick(2) == 1;
            let p = wd.new_proc(&[], None, killable);
            wd.spawn(p, 0, move || {
                let r = must("writing a value", || store(path, how, &*v.value));
                unsafe { RESULT = Some(r.is_ok()) };
            });
            wd.run();
            let crashed = ctx().faults.get("power-loss").copied() != power;
            let disk = wd.fs.content(path.as_bytes()).map(|c| c.to_vec());
            let result = unsafe { RESULT };
            ev!("{} of {} bytes written: {result:?}", KINDS[v.kind], full.len());
            let disk = disk.unwrap_or_default();
            if !crashed {
                check!(full.as_bytes().starts_with(&disk), "sink-visible", "{:?} was stored for {full:?}", String::from_utf8_lossy(&disk));
                check!(result != Some(true) || disk == full.as_bytes(), "sink-visible", "{full:?} was reported as written, but {:?} is stored", String::from_utf8_lossy(&disk));
            }
            if pick(3) == 2 {
                fault("stored-text-damaged");
                let d = world::corrupt(&disk);
                wd.fs.setup_file(path.as_bytes(), &d);
            }
            // another process reads it
            let p = wd.new_proc(&[], None, false);
            wd.spawn(p, 0, move || {
                let Ok(b) = std::fs::read(path) else { return };
                let t = String::from_utf8_lossy(&b).into_owned();
                let whole = (t == v.want).then_some(v);
                read_back(v.kind, v.n, &t, whole);
                ev!("{} bytes read as {}", b.len(), KINDS[v.kind]);
            });
            wd.run();
            let _ = w();
            done += 1;
        });
    }
    done
}
fn mauled() -> usize {
    let mut n = 0;
    for _ in 0..3 + pick(6) {
        span(|| {
            let v = gen_written();
            let t = match pick(5) {
                0 => v.want.clone(),
                1 if v.kind == 4 || v.kind == 3 => gen_pn_block(v.n, 4).0,
                _ => maul(&v.want),
            };
            let t = if v.kind == 4 && pick(3) == 2 { maul(&gen_pn_block(v.n, 4).0) } else { t };
            // whatever it says, as whatever it is taken for
            let kind = if pick(4) == 3 { pick(KINDS.len()) } else { v.kind };
            let n_ = if pick(5) == 4 { near_stage(v.n, 1000).min(40) } else { v.n };
            shape(kind as u64 * 1000 + t.len() as u64);
            read_back(kind, n_, &t, (t == v.want && kind == v.kind && n_ == v.n).then_some(&v));
            n += 1;
        });
    }
    n
}
pub fn c20() {
    let n = match pick(3) {
        0 => sinks(),
        1 => storage(),
        _ => mauled(),
    };
    if n >= 2 || ctx().faults.len() > 0 {
        nontrivial();
    }
}
