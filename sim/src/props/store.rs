//! Serialised bells and stages (C21): through several formats, failing sinks and sources, damaged storage,
//! crashes, and any number of generations.
use super::libs::simple_world;
use super::text::{Mode, Sink};
use crate::core::*;
use crate::lib_gen::{gen_word, stage_name, BELL_NAMES};
use crate::vals::*;
use crate::world;
use crate::{check, ev, violate};
use bellframe::{Bell, Stage};
use bincode::Options;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::Serialize;
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{self, Read, Write};

// ---- what documents mean ----------------------------------------------------------------------------
trait Model: Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static {
    /// Whether `read` says exactly what every JSON document means.
    const JUDGED: bool = true;
    fn gen() -> Self;
    /// What a JSON value means, if anything.
    fn read(v: &Value) -> Option<Self>;
    /// A JSON value which might mean something.
    fn wild() -> Value;
}
fn wild_number() -> Value {
    match pick(12) {
        0 => Value::from(0),
        1 => Value::from(-1),
        2 => Value::from(i64::MIN),
        3 => Value::from(u64::MAX),
        4 => Value::from(i64::MAX),
        5 => Value::from(1.0),
        6 => Value::from(-(1 + pick(300) as i64)),
        7 => Value::from([255u64, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63][pick(8)]),
        8 => Value::from(1e300),
        _ => Value::from(1 + pick(40)),
    }
}
fn junk() -> Value {
    match pick(9) {
        0 => Value::Null,
        1 => Value::Bool(pick(2) == 1),
        2 => Value::Array(vec![]),
        3 => Value::Object(Default::default()),
        4 => Value::from(""),
        5 => Value::from(gen_word()),
        6 => Value::from(["\u{e9}", "\u{212a}", "\u{130}", "\0", " ", "\u{1F514}", "1 ", "12", "-1"][pick(9)]),
        _ => wild_number(),
    }
}
impl Model for Bell {
    fn gen() -> Self {
        bell(match pick(4) {
            0 => pick(3),
            1 => pick(40),
            2 => [254, 255, 256, 65535, u32::MAX as usize, 1 << 33, usize::MAX / 2, usize::MAX - 1][pick(8)],
            _ => pick(12),
        })
    }
    fn read(v: &Value) -> Option<Self> {
        match v {
            Value::Number(n) => n.as_u64().filter(|n| *n > 0).map(|n| bell(n as usize - 1)),
            Value::String(s) => BELL_NAMES.find(s.as_str()).filter(|_| s.len() == 1).map(bell),
            _ => None,
        }
    }
    fn wild() -> Value {
        match pick(6) {
            0 => junk(),
            1 | 2 => wild_number(),
            3 => Value::from((*pick_ref(b"IOXabeto !0123456789") as char).to_string()),
            _ => Value::from(crate::lib_gen::bell_name(pick(35))),
        }
    }
}
fn any_case(s: &str) -> String {
    match pick(4) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        _ => s.chars().map(|c| if pick(2) == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}
impl Model for Stage {
    fn gen() -> Self {
        stage(Bell::gen().index() + 1)
    }
    fn read(v: &Value) -> Option<Self> {
        match v {
            Value::Number(n) => n.as_u64().filter(|n| *n > 0).map(|n| stage(n as usize)),
            Value::String(s) => (1..=22).find(|n| stage_name(*n).map_or(false, |x| x.to_lowercase() == s.to_lowercase())).map(stage),
            _ => None,
        }
    }
    fn wild() -> Value {
        match pick(6) {
            0 => junk(),
            1 | 2 => wild_number(),
            3 => {
                // (nearly a name)
                let mut s = stage_name(1 + pick(22)).unwrap_or("").to_string();
                match pick(3) {
                    0 => drop(s.pop()),
                    1 => s.push(*pick_ref(&['s', ' ', '-', '\0'])),
                    _ => drop(s.remove(0)),
                }
                Value::from(s)
            }
            _ => Value::from(any_case(stage_name(1 + pick(22)).unwrap_or(""))),
        }
    }
}
impl<T: Model> Model for Vec<T> {
    const JUDGED: bool = T::JUDGED;
    fn gen() -> Self {
        (0..small(12)).map(|_| T::gen()).collect()
    }
    fn read(v: &Value) -> Option<Self> {
        v.as_array()?.iter().map(T::read).collect()
    }
    fn wild() -> Value {
        (0..pick(6)).map(|_| T::wild()).collect()
    }
}
impl<T: Model> Model for Option<T> {
    const JUDGED: bool = T::JUDGED;
    fn gen() -> Self {
        (pick(3) > 0).then(T::gen)
    }
    fn read(v: &Value) -> Option<Self> {
        if v.is_null() { Some(None) } else { T::read(v).map(Some) }
    }
    fn wild() -> Value {
        if pick(4) == 0 { Value::Null } else { T::wild() }
    }
}
impl<A: Model, B: Model> Model for (A, B) {
    const JUDGED: bool = A::JUDGED && B::JUDGED;
    fn gen() -> Self {
        (A::gen(), B::gen())
    }
    fn read(v: &Value) -> Option<Self> {
        match v.as_array()?.as_slice() {
            [a, b] => Some((A::read(a)?, B::read(b)?)),
            _ => None,
        }
    }
    fn wild() -> Value {
        Value::Array(vec![A::wild(), B::wild()])
    }
}
impl<T: Model> Model for BTreeMap<String, T> {
    const JUDGED: bool = T::JUDGED;
    fn gen() -> Self {
        (0..small(5)).map(|_| (gen_word(), T::gen())).collect()
    }
    fn read(v: &Value) -> Option<Self> {
        v.as_object()?.iter().map(|(k, v)| Some((k.clone(), T::read(v)?))).collect()
    }
    fn wild() -> Value {
        Value::Object((0..pick(4)).map(|_| (gen_word(), T::wild())).collect())
    }
}
/// Bells as keys; a document's keys are text, and formats differ in how they read them.
impl<T: Model> Model for BTreeMap<Bell, T> {
    const JUDGED: bool = false;
    fn gen() -> Self {
        (0..small(5)).map(|_| (Bell::gen(), T::gen())).collect()
    }
    fn read(_: &Value) -> Option<Self> {
        None
    }
    fn wild() -> Value {
        Value::Object((0..pick(4)).map(|_| (Bell::wild().to_string(), T::wild())).collect())
    }
}

// ---- reading and writing ----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Json,
    Pretty,
    Bincode,
    Cbor,
}
/// (bounded: otherwise it allocates whatever length a damaged document claims)
fn bin() -> impl bincode::Options {
    bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 20)
}
impl Format {
    fn any() -> Self {
        [Format::Json, Format::Json, Format::Pretty, Format::Bincode, Format::Cbor][pick(5)]
    }
    fn to<T: Serialize>(self, v: &T, to: impl Write) -> Result<(), String> {
        must("serialising", || match self {
            Format::Json => serde_json::to_writer(to, v).map_err(|e| e.to_string()),
            Format::Pretty => serde_json::to_writer_pretty(to, v).map_err(|e| e.to_string()),
            Format::Bincode => bin().serialize_into(to, v).map_err(|e| e.to_string()),
            Format::Cbor => ciborium::into_writer(v, to).map_err(|e| e.to_string()),
        })
    }
    fn bytes<T: Serialize>(self, v: &T) -> Vec<u8> {
        let mut b = vec![];
        if let Err(e) = self.to(v, &mut b) {
            violate!("does-not-read-back", "a value could not be serialised ({self:?}): {e}");
        }
        b
    }
    fn from<T: DeserializeOwned>(self, from: impl Read) -> Result<T, String> {
        must("deserialising", || match self {
            Format::Json | Format::Pretty => serde_json::from_reader(from).map_err(|e| format!("{e} {e:?}")),
            Format::Bincode => bin().deserialize_from(from).map_err(|e| format!("{e} {e:?}")),
            Format::Cbor => ciborium::from_reader(from).map_err(|e| format!("{e} {e:?}")),
        })
    }
    fn text(self) -> bool {
        matches!(self, Format::Json | Format::Pretty)
    }
}
/// Text which is a numeral but not a name may be an error or that number.
fn numeral(s: &str) -> bool {
    s.len() != 1 && s.bytes().all(|b| b.is_ascii_digit()) || s.parse::<usize>().is_ok()
}
fn has_text(v: &Value) -> bool {
    match v {
        Value::String(_) => true,
        Value::Array(a) => a.iter().any(has_text),
        Value::Object(o) => o.values().any(has_text),
        _ => false,
    }
}
fn has_numeral(v: &Value) -> bool {
    match v {
        Value::String(s) => numeral(s),
        Value::Array(a) => a.iter().any(has_numeral),
        Value::Object(o) => o.values().any(has_numeral),
        _ => false,
    }
}
struct Source<'a> {
    b: &'a [u8],
    fails_at: Option<usize>,
    ends_at: usize,
    at: usize,
    at_most: usize,
    interrupts: bool,
    failed: bool,
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.interrupts && pick(5) == 4 {
            fault("interrupted-read");
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fails_at.map_or(false, |f| self.at >= f) {
            fault("source-failed");
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "source failed"));
        }
        let end = self.fails_at.unwrap_or(self.b.len()).min(self.ends_at).max(self.at);
        let mut n = b.len().min(end - self.at);
        if self.at_most > 0 && n > 1 {
            let k = n.min(1 + pick(self.at_most));
            if k < n {
                fault("source-gave-a-part");
            }
            n = k;
        }
        b[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        if n == 0 && !b.is_empty() && self.at < self.b.len() {
            fault("source-ended-early");
        }
        Ok(n)
    }
}
/// Compares what was read from some bytes with what they say.
fn judge<T: Model>(f: Format, b: &[u8], whole: Option<&T>, got: &Result<T, String>) {
    let cls = "does-not-read-back";
    let shown = String::from_utf8_lossy(b);
    if let Some(v) = whole {
        check!(got.as_ref().ok() == Some(v), cls, "{v:?}, serialised as {shown:?} ({f:?}), reads back as {got:?}");
        probe("a value read back");
        return;
    }
    if f.text() && T::JUDGED {
        let value = serde_json::from_slice::<Value>(b).ok();
        let says = value.as_ref().and_then(|v| T::read(v));
        // (a document with a key twice is read by its last entry in both)
        match says {
            Some(v) => {
                check!(got.as_ref().ok() == Some(&v), cls, "{shown:?} means {v:?} but is read as {got:?}");
                probe("a document that means something");
            }
            None if value.as_ref().map_or(false, has_numeral) => {}
            None => {
                check!(got.is_err(), cls, "{shown:?} means nothing but is read as {got:?}");
                probe("a document that means nothing");
            }
        }
    }
    if let Ok(v) = got {
        // whatever it is, it is a value like any other
        let again = f.bytes(v);
        let back: Result<T, String> = f.from(&again[..]);
        check!(back.as_ref().ok() == Some(v), cls, "{shown:?} is read as {v:?}, which serialises as {:?} and reads back as {back:?}", String::from_utf8_lossy(&again));
        must("describing a value", || format!("{v:?}"));
    }
}

fn streams<T: Model>() {
    let v = T::gen();
    let f = Format::any();
    let full = f.bytes(&v);
    shape(full.len() as u64 * 8 + f as u64);
    match pick(4) {
        // a sink that gives up
        0 => {
            let mut s = Sink {
                got: vec![],
                left: pick(full.len() + 2),
                mode: [Mode::Full, Mode::Once, Mode::Whole][pick(3)],
                refused: false,
                at_most: [0, 1, 5][pick(3)],
                interrupts: pick(2) == 1,
            };
            let r = f.to(&v, &mut s);
            let got = String::from_utf8_lossy(&s.got).into_owned();
            match r {
                Ok(()) => check!(!s.refused && s.got == full, "sink-visible", "{v:?} ({f:?}) was reported as written, but the sink holds {got:?}"),
                Err(e) => check!(s.refused && full.starts_with(&s.got), "sink-visible", "{v:?} ({f:?}): {e}, and the sink holds {got:?}"),
            }
        }
        // a source that gives up
        1 | 2 => {
            let b = if pick(4) == 3 { world::corrupt(&full) } else { full.clone() };
            if b != full {
                fault("stored-text-damaged");
            }
            let mut s = Source {
                b: &b,
                fails_at: (pick(3) == 0).then(|| pick(b.len() + 1)),
                ends_at: if pick(2) == 0 { b.len() } else { pick(b.len() + 1) },
                at: 0,
                at_most: [0, 1, 3][pick(3)],
                interrupts: pick(2) == 1,
                failed: false,
            };
            let got: Result<T, String> = f.from(&mut s);
            if s.failed {
                check!(got.is_err() || !f.text(), "does-not-read-back", "the source failed after {} of {} bytes, but {got:?} was read", s.at, b.len());
            } else {
                let seen = &b[..s.ends_at.min(b.len())];
                judge(f, seen, (seen == &full[..]).then_some(&v), &got);
            }
        }
        // generations, from one format to another
        _ => {
            let mut x = v.clone();
            for g in 0..1 + pick(6) {
                let f = Format::any();
                let b = f.bytes(&x);
                let back: Result<T, String> = f.from(&b[..]);
                match back {
                    Ok(y) => {
                        check!(y == v, "does-not-read-back", "after {g} generations {v:?} is {y:?} ({f:?})");
                        x = y;
                    }
                    Err(e) => violate!("does-not-read-back", "after {g} generations {v:?} cannot be read back ({f:?}): {e}"),
                }
            }
            probe("a value read back");
        }
    }
}
fn wild<T: Model>() {
    let f = [Format::Json, Format::Pretty][pick(2)];
    let mut b = f.bytes(&T::wild());
    let damaged = pick(4) == 3;
    if damaged {
        b = world::corrupt(&b);
        fault("stored-text-damaged");
    }
    shape(b.len() as u64);
    let got: Result<T, String> = match (pick(3), std::str::from_utf8(&b)) {
        (0, Ok(t)) => must("deserialising", || serde_json::from_str(t).map_err(|e| e.to_string())),
        (1, _) => must("deserialising", || serde_json::from_slice(&b).map_err(|e| e.to_string())),
        (2, _) if T::JUDGED => match serde_json::from_slice::<Value>(&b) {
            Ok(v) => must("deserialising", || serde_json::from_value(v).map_err(|e| e.to_string())),
            Err(e) => Err(e.to_string()),
        },
        _ => f.from(&b[..]),
    };
    judge(f, &b, None, &got);
    if pick(2) == 0 {
        // as self-describing binary: the same meaning
        if let Ok(v) = serde_json::from_slice::<Value>(&b) {
            let b = Format::Cbor.bytes(&v);
            let got: Result<T, String> = Format::Cbor.from(&b[..]);
            // (damage can make a list too long for its type, which ciborium does not mind)
            if T::JUDGED && !damaged {
                let says = T::read(&v);
                // (binary formats may insist on numbers)
                check!(got.is_err() && has_text(&v) || has_numeral(&v) || got.as_ref().ok() == says.as_ref(), "does-not-read-back", "{v} means {says:?} but is read from CBOR as {got:?}");
            }
        }
    }
}
/// Formats hand over values as whatever type they like.
fn handed_over<T: Model>() {
    type E = serde::de::value::Error;
    let x = match pick(4) {
        0 => [0i128, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, 65535, 65536][pick(12)],
        1 => [i32::MAX as i128, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, u64::MAX as i128, i64::MIN as i128][pick(6)],
        _ => pick(50) as i128 - 5,
    };
    let means = if x > 0 { T::read(&Value::from(x as u64)) } else { None };
    macro_rules! try_as {
        ($($t:ty),*) => {$(
            if let Ok(y) = <$t>::try_from(x) {
                let got: Result<T, E> = must("deserialising", || T::deserialize(y.into_deserializer()));
                check!(got.as_ref().ok() == means.as_ref(), "does-not-read-back", "the {} {y} means {means:?} but is read as {got:?}", stringify!($t));
            }
        )*};
    }
    try_as!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
    let wide: Result<T, E> = must("deserialising", || T::deserialize(x.into_deserializer()));
    check!(wide.is_err() || wide.as_ref().ok() == means.as_ref(), "does-not-read-back", "the i128 {x} means {means:?} but is read as {wide:?}");
    let text: String = match T::wild() {
        Value::String(s) => s,
        v => v.to_string(),
    };
    let means = T::read(&Value::from(text.as_str()));
    let numeral = numeral(&text);
    let got: [Result<T, E>; 3] = must("deserialising", || {
        [
            T::deserialize(text.as_str().into_deserializer()),
            T::deserialize(text.clone().into_deserializer()),
            T::deserialize(std::borrow::Cow::from(text.as_str()).into_deserializer()),
        ]
    });
    for g in got {
        check!(numeral && means.is_none() || g.as_ref().ok() == means.as_ref(), "does-not-read-back", "the text {text:?} means {means:?} but is read as {g:?}");
    }
    for c in text.chars() {
        let got: Result<T, E> = must("deserialising", || T::deserialize(c.into_deserializer()));
        let means = T::read(&Value::from(c.to_string()));
        check!(c.is_ascii_digit() && means.is_none() || got.as_ref().ok() == means.as_ref(), "does-not-read-back", "the character {c:?} means {means:?} but is read as {got:?}");
    }
    let odd: [Result<T, E>; 4] = must("deserialising", || {
        [
            T::deserialize(true.into_deserializer()),
            T::deserialize(1.0f64.into_deserializer()),
            T::deserialize(().into_deserializer()),
            T::deserialize(vec![1u8].into_deserializer()),
        ]
    });
    for (i, g) in odd.iter().enumerate() {
        check!(g.is_err(), "does-not-read-back", "something that is no number and no name (#{i}) is read as {g:?}");
    }
    shape(x as u64);
    probe("a value of another type was handed over");
}
/// Written by a process that may be killed or lose power, and read by another.
fn stored<T: Model>(wd: &'static mut world::World, round: usize) {
    let v: &'static T = Box::leak(Box::new(T::gen()));
    let f = Format::any();
    let full = f.bytes(v);
    shape(full.len() as u64 * 8 + f as u64);
    let path: &'static str = Box::leak(format!("/data/doc{round}").into_boxed_str());
    static mut RESULT: Option<bool> = None;
    unsafe { RESULT = None };
    let how = pick(3);
    let power = ctx().faults.get("power-loss").copied();
    let killable = pick(2) == 1;
    let p = wd.new_proc(&[], None, killable);
    wd.spawn(p, 0, move || {
        let write = || -> Result<(), String> {
            let io = |e: io::Error| e.to_string();
            let file = std::fs::File::create(path).map_err(io)?;
            match how {
                0 => f.to(v, &file)?,
                1 => {
                    let mut b = io::BufWriter::with_capacity(16, &file);
                    f.to(v, &mut b)?;
                    b.flush().map_err(io)?;
                }
                _ => {
                    let mut b = io::LineWriter::new(&file);
                    f.to(v, &mut b)?;
                    b.flush().map_err(io)?;
                }
            }
            file.sync_all().map_err(io)
        };
        let r = write();
        unsafe { RESULT = Some(r.is_ok()) };
    });
    wd.run();
    let crashed = ctx().faults.get("power-loss").copied() != power;
    let disk = wd.fs.content(path.as_bytes()).map(|c| c.to_vec()).unwrap_or_default();
    let result = unsafe { RESULT };
    ev!("{} bytes written: {result:?}", full.len());
    if !crashed {
        check!(full.starts_with(&disk), "sink-visible", "{:?} was stored for {v:?} ({f:?})", String::from_utf8_lossy(&disk));
        check!(result != Some(true) || disk == full, "sink-visible", "{v:?} ({f:?}) was reported as written, but {:?} is stored", String::from_utf8_lossy(&disk));
    }
    if pick(3) == 2 {
        fault("stored-text-damaged");
        let d = world::corrupt(&disk);
        wd.fs.setup_file(path.as_bytes(), &d);
    }
    let stream = pick(2) == 1;
    let p = wd.new_proc(&[], None, false);
    wd.spawn(p, 0, move || {
        let Ok(b) = std::fs::read(path) else { return };
        let whole = (b == f.bytes(v)).then_some(v);
        if stream {
            // while reading, the disk may fail
            let Ok(file) = std::fs::File::open(path) else { return };
            let got: Result<T, String> = f.from(io::BufReader::new(file));
            if let (Ok(x), Some(v)) = (&got, whole) {
                check!(x == v, "does-not-read-back", "{v:?} reads back as {x:?} ({f:?})");
            }
        } else {
            let got: Result<T, String> = f.from(&b[..]);
            judge(f, &b, whole, &got);
        }
    });
    wd.run();
}
fn one<T: Model>(mode: usize, wd: Option<&'static mut world::World>, round: usize) {
    match (mode, wd) {
        (0, _) => wild::<T>(),
        (1, Some(wd)) => stored::<T>(wd, round),
        _ => streams::<T>(),
    }
}
pub fn c21() {
    let mode = pick(4);
    if mode == 1 {
        let r = &mut simple_world(0).rates;
        if pick(4) > 0 {
            r.short_write = [0, 400][pick(2)];
            r.short_read = [0, 400][pick(2)];
            r.write_err = [0, 80][pick(2)];
            r.read_err = [0, 40][pick(2)];
            r.enospc = [0, 80][pick(2)];
            r.kill = [0, 30, 100][pick(3)];
            r.power = [0, 30, 80][pick(3)];
            r.eintr = [0, 100][pick(2)];
        }
    }
    for round in 0..2 + pick(6) {
        span(|| {
            if mode == 2 && pick(2) == 0 {
                if pick(2) == 0 { handed_over::<Bell>() } else { handed_over::<Stage>() }
                return;
            }
            let wd = || (mode == 1).then(world::w);
            match pick(10) {
                0 | 1 => one::<Bell>(mode, wd(), round),
                2 | 3 => one::<Stage>(mode, wd(), round),
                4 => one::<Vec<Bell>>(mode, wd(), round),
                5 => one::<Vec<Stage>>(mode, wd(), round),
                6 => one::<(Bell, Option<Stage>)>(mode, wd(), round),
                7 => one::<BTreeMap<String, (Stage, Bell)>>(mode, wd(), round),
                8 => one::<BTreeMap<Bell, Vec<Stage>>>(mode, wd(), round),
                _ => one::<Vec<(Stage, Vec<Bell>)>>(mode, wd(), round),
            }
        });
    }
    nontrivial();
}
