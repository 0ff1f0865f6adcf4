//! Generated method libraries whose meaning is known by construction, and the comparison of a loaded
//! `MethodLib` with what its document says.
use crate::core::*;
use bellframe::method_lib::QueryError;
use bellframe::{Method, MethodLib};
use std::collections::BTreeSet;

pub const STAGE_NAMES: [&str; 22] = [
    "One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples",
    "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two",
];
pub const CLASS_WORDS: [&str; 9] = ["", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", ""];
pub const BELL_NAMES: &str = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";

pub fn stage_name(n: usize) -> Option<&'static str> {
    STAGE_NAMES.get(n.wrapping_sub(1)).copied()
}
pub fn bell_name(i: usize) -> String {
    match BELL_NAMES.as_bytes().get(i) {
        Some(c) => (*c as char).to_string(),
        None => format!("<{}>", i + 1),
    }
}

// ---- place notation known by construction -------------------------------------------------------
/// A change, as its complete sorted list of places.
pub type Change = Vec<usize>;
pub fn gen_change(stage: usize) -> Change {
    let mut p = vec![];
    let mut i = 0;
    let odd = stage % 2;
    let mut parity_left = odd; // an odd number of places is needed on odd stages
    while i < stage {
        let must = i + 1 >= stage;
        if must || pick(5) == 4 {
            p.push(i);
            parity_left ^= 1;
            i += 1;
        } else {
            i += 2;
        }
    }
    let _ = parity_left;
    p
}
pub fn apply_change(row: &[usize], c: &[usize]) -> Vec<usize> {
    let mut r = row.to_vec();
    let mut i = 0;
    while i < r.len() {
        if c.contains(&i) {
            i += 1;
        } else {
            r.swap(i, i + 1);
            i += 2;
        }
    }
    r
}
/// Rows of a block of changes from rounds, including the final leftover row.
pub fn expand(stage: usize, changes: &[Change]) -> Vec<Vec<usize>> {
    let mut rows = vec![(0..stage).collect::<Vec<_>>()];
    for c in changes {
        let n = apply_change(rows.last().unwrap(), c);
        rows.push(n);
    }
    rows
}
/// Text of one change; implicit places may be left out.
pub fn emit_change(stage: usize, c: &[usize]) -> String {
    if c.is_empty() {
        return ["-", "x", "X"][pick(3)].to_string();
    }
    let mut v = c.to_vec();
    // drop inner places that are implied (exactly one place between two written ones)
    if v.len() >= 3 && pick(3) == 2 {
        if let Some(k) = (1..v.len() - 1).find(|&k| v[k] == v[k - 1] + 1 && v[k + 1] == v[k] + 1) {
            v.remove(k);
        }
    }
    if v.len() > 1 && v[0] == 0 && v[1] % 2 == 1 && pick(3) == 2 {
        v.remove(0);
    }
    if v.len() > 1 && *v.last().unwrap() == stage - 1 && (stage - v[v.len() - 2]) % 2 == 0 && pick(3) == 2 {
        v.pop();
    }
    let mut s: String = v.iter().map(|p| bell_name(*p)).collect();
    if pick(8) == 7 {
        s = s.chars().rev().collect();
    }
    s
}
/// One run of changes with separators.
pub fn emit_changes(stage: usize, cs: &[Change]) -> String {
    let mut s = String::new();
    let mut prev_cross = true;
    for c in cs {
        let t = emit_change(stage, c);
        let cross = c.is_empty();
        if !prev_cross && !cross {
            s.push_str([".", " ", ". ", ".."][pick(4)]);
        } else if pick(10) == 9 {
            s.push('.');
        }
        s.push_str(&t);
        prev_cross = cross;
    }
    s
}
/// Characters without a meaning at the start or the end of a part.
fn noise() -> &'static str {
    if pick(10) == 9 { ["  ", ". ", " . .", "&", "& "][pick(5)] } else { "" }
}
/// A block of place notation: text and the changes it stands for.
pub fn gen_pn_block(stage: usize, max: usize) -> (String, Vec<Change>) {
    let n = |m: usize| 1 + pick(m.max(1));
    match pick(4) {
        0 => {
            let cs: Vec<Change> = (0..n(max)).map(|_| gen_change(stage)).collect();
            (noise().to_string() + &emit_changes(stage, &cs), cs)
        }
        1 => {
            let cs: Vec<Change> = (0..n(max)).map(|_| gen_change(stage)).collect();
            (format!("{}+{}", noise(), emit_changes(stage, &cs)), cs)
        }
        k => {
            // symmetric parts, possibly one asymmetric
            let mut text = String::new();
            let mut all: Vec<Change> = vec![];
            let parts = if k == 2 { 2 } else { 2 + pick(2) };
            for i in 0..parts {
                if i > 0 {
                    text.push(',');
                }
                text.push_str(noise());
                let m = if i == 0 { (max / 2).max(1) } else { 2 };
                let cs: Vec<Change> = (0..n(m)).map(|_| gen_change(stage)).collect();
                if pick(6) == 5 {
                    text.push('+');
                    text.push_str(&emit_changes(stage, &cs));
                    all.extend(cs);
                } else {
                    text.push_str(&emit_changes(stage, &cs));
                    all.extend(cs.iter().cloned());
                    all.extend(cs.iter().rev().skip(1).cloned());
                }
            }
            (text, all)
        }
    }
}

// ---- documents ----------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct MSpec {
    pub title: String,
    pub name: String,
    pub stage: usize,
    pub class: u8,
    pub flags: (bool, bool, bool), // jump, little, differential
    pub pn: String,
    /// All rows including the leftover one; None when the notation is invalid.
    pub rows: Option<Vec<Vec<usize>>>,
    pub explicit: bool,
}
impl MSpec {
    /// Can be found by title (its last word is its stage).
    pub fn findable(&self) -> bool {
        match stage_name(self.stage) {
            Some(n) => {
                let l = self.title.to_lowercase();
                l.rsplit(' ').next() == Some(&n.to_lowercase())
            }
            None => false,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Edition {
    pub methods: Vec<MSpec>,
    pub text: String,
}

pub fn implicit_title(name: &str, class: u8, flags: (bool, bool, bool), stage: usize) -> Option<String> {
    let mut words: Vec<&str> = vec![];
    if !name.is_empty() {
        words.push(name);
    }
    if flags.0 {
        words.push("Jump");
    }
    if flags.2 {
        words.push("Differential");
    }
    let c = CLASS_WORDS[class as usize];
    if !c.is_empty() {
        if flags.1 {
            words.push("Little");
        }
        words.push(c);
    }
    words.push(stage_name(stage)?);
    Some(words.join(" "))
}

pub fn gen_word() -> String {
    match pick(12) {
        0..=6 => pick_ref(&["Plain", "Cambridge", "Double Oxford", "St Clement's", "Yorkshire", "No 3", "Bristol", "Lincolnshire", "Stedman", "Grandsire"]).to_string(),
        7 => String::new(),
        8 => pick_ref(&["\u{c9}toile", "Stra\u{df}e", "\u{2018}quoted\u{2019}", "\u{1f514} bell", "\u{441}\u{42d}", "N\u{303}u", "\u{feff}BOM", "\u{130}stanbul"]).to_string(),
        9 => pick_ref(&["a\"b", "back\\slash", "tab\tbed", "new\nline", "nul\u{0}l", "sl/ash", "\u{7f}\u{1}", "  spaced  out"]).to_string(),
        11 if pick(12) == 11 => {
            let w = pick_ref(&["z", "Plain ", "\u{e9}t\u{e9} "]);
            probe("very long name");
            w.repeat(40 + pick(80)).trim_end().to_string()
        }
        _ => {
            let n = 1 + pick(12);
            (0..n).map(|_| *pick_ref(b"abcdefgXYZ '-.&!?0123456789") as char).collect()
        }
    }
}
/// A library document.  `share`: methods of an earlier edition to keep, alter or drop.
pub fn gen_edition(share: Option<&Edition>, mark: usize, max_methods: usize) -> Edition {
    let mut ms: Vec<MSpec> = vec![];
    let mut seen: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut titles: BTreeSet<String> = BTreeSet::new();
    let mut add = |m: MSpec, ms: &mut Vec<MSpec>| {
        // titles are unique within a library, whatever the letter case or the stage
        let k = m.title.to_lowercase();
        if seen.insert((m.stage, k.clone())) && titles.insert(k) {
            ms.push(m);
        }
    };
    // the mark makes every edition distinguishable
    let (pn, cs) = gen_pn_block(6, 6);
    add(
        MSpec {
            title: format!("Edition {mark} Minor"),
            name: format!("Edition {mark}"),
            stage: 6,
            class: 0,
            flags: (false, false, false),
            pn,
            rows: Some(expand(6, &cs)),
            explicit: pick(2) == 0,
        },
        &mut ms,
    );
    if let Some(e) = share {
        for m in e.methods.iter().skip(1) {
            match pick(4) {
                0 | 1 => add(m.clone(), &mut ms),
                2 => {
                    let mut m = m.clone();
                    if m.stage <= 33 {
                        let (pn, cs) = gen_pn_block(m.stage, 8);
                        m.rows = Some(expand(m.stage, &cs));
                        m.pn = pn;
                    }
                    add(m, &mut ms);
                }
                _ => {}
            }
        }
    }
    let n = pick(max_methods + 1);
    for _ in 0..n {
        let m = span(gen_method);
        add(m, &mut ms);
    }
    if max_methods >= 40 && pick(48) == 47 {
        for m in gen_catalogue(mark) {
            add(m, &mut ms);
        }
        probe("hundreds of groups or methods");
    }
    let text = emit_doc(&ms);
    Edition { methods: ms, text }
}
/// A library without methods is a library.
pub fn empty_edition() -> Edition {
    probe("a library without methods");
    let text = pick_ref(&["{\"groups\":[]}", "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[]}]}", "{ \"groups\" : [ ] }\n"]).to_string();
    Edition { methods: vec![], text }
}
/// More methods of one kind, or more kinds of method, than fit in eight bits.
fn gen_catalogue(mark: usize) -> Vec<MSpec> {
    let kinds = pick(2) == 0;
    let base = pick(22);
    (0..257 + pick(60))
        .map(|i| {
            let (stage, class, flags) = if kinds { (1 + (base + i / 18) % 22, (i % 9) as u8, (i % 2 == 1, false, false)) } else { (4 + base / 2, 8, (false, false, true)) };
            let name = format!("Catalogue {mark} {i}");
            let title = implicit_title(&name, class, flags, stage).unwrap();
            let cs: Vec<Change> = if stage % 2 == 0 { vec![vec![]] } else { vec![vec![0]] };
            MSpec { title, name, stage, class, flags, pn: if stage % 2 == 0 { "x" } else { "1" }.into(), rows: Some(expand(stage, &cs)), explicit: false }
        })
        .collect()
}
pub fn gen_stage() -> usize {
    match pick(8) {
        0 => 6,
        1 => 8,
        2 => 5,
        3 => 4,
        4 => 1 + pick(12),
        5 => 1 + pick(22),
        6 => *pick_ref(&[1, 2, 3, 22, 7, 10]),
        _ => 12,
    }
}
pub fn gen_method() -> MSpec {
    let mut stage = gen_stage();
    let mut explicit = pick(3) == 2;
    if explicit && pick(12) == 11 {
        stage = 23 + pick(20); // stages without a name: only by explicit title
    }
    let class = pick(9) as u8;
    let flags = (pick(8) == 7, pick(4) == 3, pick(5) == 4);
    let name = gen_word();
    let title = if explicit {
        let sn = stage_name(stage);
        match (pick(6), sn) {
            (0..=4, Some(s)) => {
                let s = match pick(4) {
                    0 | 1 => s.to_string(),
                    2 => s.to_uppercase(),
                    _ => s.to_lowercase(),
                };
                let w = gen_word();
                if w.is_empty() { s } else { format!("{w} {s}") }
            }
            _ => format!("{} of {stage} bells", gen_word()),
        }
    } else {
        implicit_title(&name, class, flags, stage).unwrap()
    };
    if implicit_title(&name, class, flags, stage).as_deref() == Some(&title) && pick(2) == 0 {
        explicit = false;
    }
    let (pn, rows) = if pick(8) == 7 {
        let mut bad = vec!["".to_string(), "11".into(), "1+1".into(), "1.+1".into(), " . ".into(), "+".into(), "&".into()];
        if stage % 2 == 1 {
            bad.push("x".into());
            bad.push("1.-".into());
        }
        if stage < 33 {
            bad.push(bell_name(stage));
            bad.push(format!("1.{}", bell_name(stage)));
        }
        if stage >= 6 {
            bad.push("15".into());
        }
        (pick_ref(&bad).clone(), None)
    } else if stage <= 33 {
        let (pn, cs) = gen_pn_block(stage, 12);
        let rows = expand(stage, &cs);
        (pn, Some(rows))
    } else if stage % 2 == 0 {
        ("x".to_string(), Some(expand(stage, &[vec![]])))
    } else {
        // only bells 1 to 33 have names: an odd number of bells with one place, at lead
        ("1".to_string(), Some(expand(stage, &[vec![0]])))
    };
    MSpec { title, name, stage, class, flags, pn, rows, explicit }
}
pub fn json_str(s: &str) -> String {
    let esc = pick(6) == 5;
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if !esc => o.push_str("\\n"),
            '\t' if !esc => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (esc && !c.is_ascii_alphanumeric()) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Fields of an object, in an order of the writer's choice and now and then with one that nobody knows.
fn json_object(mut fields: Vec<String>, order: bool, extra: bool) -> String {
    if extra && pick(4) == 3 {
        let at = pick(fields.len() + 1);
        fields.insert(at, pick_ref(&["\"v\":1", "\"note\":\"\\\"x\\\"\"", "\"tags\":[{\"a\":null}]"]).to_string());
    }
    if order {
        let by = pick(fields.len());
        fields.rotate_left(by);
    }
    format!("{{{}}}", fields.join(","))
}
pub fn emit_doc(ms: &[MSpec]) -> String {
    let sp = if pick(4) == 3 { "\n  " } else { "" };
    let order = pick(8) == 7;
    let extra = pick(16) == 15;
    let mut groups: Vec<(usize, u8, (bool, bool, bool), Vec<&MSpec>)> = vec![];
    for m in ms {
        // a later group of the same stage and class is opened now and then
        let g = groups.iter().position(|g| g.0 == m.stage && g.1 == m.class && g.2 == m.flags);
        match g {
            Some(i) if pick(8) != 7 => groups[i].3.push(m),
            _ => groups.push((m.stage, m.class, m.flags, vec![m])),
        }
    }
    let mut gs = vec![];
    for (st, c, f, v) in &groups {
        let mut fields = vec![format!("\"s\":{st}")];
        for (b, k) in [(f.0, "j"), (f.1, "l"), (f.2, "d")] {
            if b {
                fields.push(format!("\"{k}\":true"));
            } else if pick(16) == 15 {
                fields.push(format!("\"{k}\":false"));
            }
        }
        fields.push(format!("\"c\":{c}"));
        let mut methods = vec![];
        for m in v {
            let mut fields = vec![];
            if m.explicit || implicit_title(&m.name, m.class, m.flags, m.stage).as_deref() != Some(&m.title) {
                fields.push(format!("\"t\":{}", json_str(&m.title)));
            } else if pick(16) == 15 {
                fields.push("\"t\":null".into());
            }
            fields.push(format!("\"n\":{}", json_str(&m.name)));
            fields.push(format!("\"p\":{}", json_str(&m.pn)));
            methods.push(format!("{sp}{}", json_object(fields, order, extra)));
        }
        fields.push(format!("\"m\":[{}]", methods.join(",")));
        gs.push(format!("{sp}{}", json_object(fields, order, extra)));
    }
    let blank = |p: &str| if pick(12) == 11 { p.to_string() } else { String::new() };
    let (before, after) = (blank(pick_ref(&["\n", " ", "\r\n\t"])), blank(pick_ref(&[" ", "\r\n", "\n\n"])));
    let mut s = format!("{before}{}{after}", json_object(vec![format!("{sp}\"groups\":[{}]", gs.join(","))], order, extra));
    if pick(6) == 5 {
        s.push('\n');
    }
    s
}
/// Documents that are complete but are not (or may not be) loadable libraries.
pub fn gen_odd_doc() -> Vec<u8> {
    let fixed: &[&str] = &[
        "",
        "null",
        "[]",
        "{}",
        "{\"groups\":3}",
        "{\"groups\":[]}",
        "{\"groups\":[{}]}",
        "<!DOCTYPE html><html><body>Sign in to the wifi</body></html>",
        "{\"groups\":[{\"s\":6,\"c\":9,\"m\":[{\"n\":\"Future\",\"p\":\"x\"}]}]}",
        "{\"groups\":[{\"s\":6,\"c\":255,\"m\":[]}]}",
        "{\"groups\":[{\"s\":6,\"c\":256,\"m\":[]}]}",
        "{\"groups\":[{\"s\":6,\"c\":-1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":0,\"c\":1,\"m\":[{\"n\":\"Nothing\",\"p\":\"x\"}]}]}",
        "{\"groups\":[{\"s\":0,\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":23,\"c\":1,\"m\":[{\"n\":\"Big\",\"p\":\"1\"}]}]}",
        "{\"groups\":[{\"s\":24,\"c\":1,\"m\":[{\"t\":\"Big 24\",\"n\":\"Big\",\"p\":\"x\"}]}]}",
        "{\"groups\":[{\"s\":18446744073709551615,\"c\":5,\"m\":[{\"t\":\"Huge Minor\",\"n\":\"Huge\",\"p\":\"12\"}]}]}",
        "{\"groups\":[{\"s\":18446744073709551615,\"c\":5,\"m\":[{\"n\":\"Huge\",\"p\":\"12\"}]}]}",
        "{\"groups\":[{\"s\":6.5,\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":-6,\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":\"6\",\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[{\"n\":null,\"p\":\"x\"}]}]}",
        "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[{\"n\":\"A\"}]}]}",
        "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[{\"t\":\"\",\"n\":\"\",\"p\":\"\"}]}]}",
        "{\"version\":2,\"groups\":[{\"s\":6,\"c\":1,\"x\":{},\"m\":[{\"n\":\"A\",\"p\":\"x12\",\"q\":1}]}],\"more\":[]}",
        "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[{\"n\":\"A\",\"p\":\"x\"}]}]} trailing",
        "{\"groups\":[{\"s\":6,\"s\":8,\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":1e999,\"c\":1,\"m\":[]}]}",
        "{\"groups\":[{\"s\":6,\"c\":1,\"m\":[{\"n\":\"\\ud800\",\"p\":\"x\"}]}]}",
        "{\"groups\":[[6,false,false,false,1,[[null,\"A\",\"x\"]]]]}",
        "[[[6,false,false,false,99,[[null,\"A\",\"x\"]]]]]",
        "\u{feff}{\"groups\":[]}",
    ];
    match pick(15) {
        12..=14 => wide_text(),
        0..=8 => pick_ref(fixed).as_bytes().to_vec(),
        9 => {
            let d = 20 + pick(4000);
            let mut s = vec![b'['; d];
            if pick(2) == 0 {
                s = b"{\"groups\":".repeat(d / 8);
            }
            s
        }
        10 => (0..pick(64)).map(|_| pick(256) as u8).collect(),
        _ => {
            let c = pick(14);
            let s = pick(30);
            format!("{{\"groups\":[{{\"s\":{s},\"c\":{c},\"m\":[{{\"n\":\"New\",\"p\":\"x\"}}]}}]}}").into_bytes()
        }
    }
}

/// Text in which most characters take several bytes: error pages in other languages, JSON or not.
pub fn wide_text() -> Vec<u8> {
    let some = ["\u{e9}", "\u{df}", "\u{2019}", "\u{65e5}", "\u{672c}", "\u{1f514}", "\u{44f}", " ", "x", "-", "\u{130}"];
    let n = pick(160);
    let s: String = (0..n).map(|_| *pick_ref(&some)).collect();
    match pick(5) {
        0 => s,
        1 => format!("<!DOCTYPE html><html><head><title>{s}"),
        2 => format!("{{\"message\":\"{s}\"}}"),
        3 => format!("{{\"groups\":\"{s}\"}}"),
        _ => format!("{{\"groups\":[{{\"s\":6,\"c\":1,\"m\":[{{\"n\":\"{s}\",\"p\":\"{s}\"}}]}}]}}"),
    }
    .into_bytes()
}
/// Whether a text cannot possibly be a library document, decided without the code under test.  (What is not
/// certain, such as structs written as arrays or numbers that only some parsers accept, is left to the code.)
pub fn certainly_no_library(doc: &[u8]) -> bool {
    use serde_json::Value;
    let doc = doc.strip_prefix(b"\xef\xbb\xbf").unwrap_or(doc);
    let Ok(text) = std::str::from_utf8(doc) else { return true };
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return serde_json::from_str::<serde::de::IgnoredAny>(text).is_err(),
    };
    let flag = |v: Option<&Value>| v.map_or(true, |v| v.is_boolean());
    let method = |m: &Value| match m {
        Value::Array(a) => !a.is_empty(),
        Value::Object(o) => {
            o.get("n").map_or(false, |n| n.is_string())
                && o.get("p").map_or(false, |n| n.is_string())
                && o.get("t").map_or(true, |t| t.is_null() || t.is_string())
        }
        _ => false,
    };
    let group = |g: &Value| match g {
        Value::Array(a) => !a.is_empty(),
        Value::Object(o) => {
            o.get("s").and_then(|s| s.as_u64()).map_or(false, |s| s > 0)
                && o.get("c").and_then(|c| c.as_u64()).map_or(false, |c| c <= 8)
                && ["j", "l", "d"].iter().all(|k| flag(o.get(*k)))
                && o.get("m").and_then(|m| m.as_array()).map_or(false, |m| m.iter().all(method))
        }
        _ => false,
    };
    let possible = match &v {
        Value::Array(a) => !a.is_empty(),
        Value::Object(o) => o.get("groups").and_then(|g| g.as_array()).map_or(false, |g| g.iter().all(group)),
        _ => false,
    };
    !possible
}

// ---- comparing a loaded library with a document ---------------------------------------------------
pub fn rows_of<A>(b: &bellframe::AnnotBlock<A>) -> Vec<Vec<usize>> {
    b.all_rows().map(|r| r.bell_iter().map(|b| b.index()).collect()).collect()
}
/// Why the looked-up method is not the one specified, if it is not.
pub fn diff_method(m: &Method, s: &MSpec) -> Option<String> {
    if m.title() != s.title {
        return Some(format!("title is {:?}, expected {:?}", m.title(), s.title));
    }
    if m.name() != s.name {
        return Some(format!("{:?}: name is {:?}, expected {:?}", s.title, m.name(), s.name));
    }
    if m.stage().num_bells() != s.stage {
        return Some(format!("{:?}: stage is {}, expected {}", s.title, m.stage().num_bells(), s.stage));
    }
    let Some(rows) = &s.rows else {
        return Some(format!("{:?}: invalid notation {:?} was accepted", s.title, s.pn));
    };
    let same = m.first_lead().all_rows().map(|r| r.bell_iter().map(|b| b.index())).zip(rows).filter(|(r, want)| r.clone().eq(want.iter().copied())).count();
    if same != rows.len() || m.first_lead().all_rows().count() != rows.len() {
        let got = rows_of(m.first_lead());
        return Some(format!("{:?} ({:?}): first lead is {:?}, expected {:?}", s.title, s.pn, show_rows(&got), show_rows(rows)));
    }
    if m.first_lead().annots().any(|a| a.is_some()) {
        return Some(format!("{:?}: unexpected labels", s.title));
    }
    None
}
pub fn show_rows(r: &[Vec<usize>]) -> String {
    let v: Vec<String> = r.iter().take(8).map(|r| r.iter().map(|b| bell_name(*b)).collect()).collect();
    format!("[{}{}]", v.join(" "), if r.len() > 8 { " .." } else { "" })
}
/// Checks one lookup against the expectation (None = the title is not stored).
pub fn diff_lookup(lib: &MethodLib, title: &str, want: Option<&MSpec>) -> Option<String> {
    let r = match guard(|| lib.get_by_title(title)) {
        Ok(r) => r,
        Err(p) => return Some(format!("looking up {title:?} panicked: {} at {}", p.msg, p.loc)),
    };
    match (r, want) {
        (Ok(m), Some(s)) => diff_method(&m, s),
        (Ok(m), None) => Some(format!("{title:?} is not stored but {:?} was returned", m.title())),
        (Err(QueryError::NotFound(())), None) => None,
        (Err(QueryError::NotFound(())), Some(s)) => Some(format!("{:?} was reported as not found", s.title)),
        (Err(QueryError::PnParseErr { pn, .. }), Some(s)) => {
            if s.rows.is_some() {
                Some(format!("{:?}: valid notation {:?} was reported as invalid", s.title, s.pn))
            } else if pn != s.pn {
                Some(format!("{:?}: the error quotes {:?} instead of {:?}", s.title, pn, s.pn))
            } else {
                None
            }
        }
        (Err(QueryError::PnParseErr { pn, .. }), None) => Some(format!("{title:?} is not stored but its notation {pn:?} is reported as invalid")),
    }
}
/// All titles stored in a library, as the public interface reports them.
pub fn all_titles(lib: &MethodLib, at_most: usize) -> Option<BTreeSet<String>> {
    // "\u{1}" is stored by no library here
    let r = guard(|| match lib.get_by_title_with_suggestions("\u{1}\u{1}", at_most) {
        Err(QueryError::NotFound(v)) => Some(v.into_iter().map(|(t, _)| t.to_string()).collect::<BTreeSet<_>>()),
        _ => None,
    });
    r.ok().flatten()
}
/// Compares a library with one edition, given every title that any edition uses.
pub fn diff_lib(lib: &MethodLib, e: &Edition, universe: &[String]) -> Option<String> {
    for m in &e.methods {
        if m.findable() {
            if let Some(d) = diff_lookup(lib, &m.title, Some(m)) {
                return Some(d);
            }
        }
    }
    let mine: BTreeSet<String> = e.methods.iter().map(|m| m.title.to_lowercase()).collect();
    for t in universe {
        if !mine.contains(&t.to_lowercase()) {
            if let Some(d) = diff_lookup(lib, t, None) {
                return Some(d);
            }
        }
    }
    let exact: BTreeSet<&str> = e.methods.iter().map(|m| m.title.as_str()).collect();
    if let Some(ts) = all_titles(lib, e.methods.len() + 8) {
        for t in &ts {
            if !exact.contains(t.as_str()) {
                return Some(format!("the library also contains {t:?}"));
            }
        }
    }
    None
}
pub fn universe(eds: &[Edition]) -> Vec<String> {
    let s: BTreeSet<String> = eds.iter().flat_map(|e| e.methods.iter().map(|m| m.title.clone())).collect();
    s.into_iter().collect()
}
/// The edition this library is exactly, if any; otherwise the difference to the closest candidate.
pub fn identify(lib: &MethodLib, eds: &[Edition], uni: &[String]) -> Result<usize, String> {
    let mut why = String::from("no edition to compare with");
    for (i, e) in eds.iter().enumerate() {
        match diff_lib(lib, e, uni) {
            None => return Ok(i),
            Some(d) => {
                // report against the edition whose mark the library carries
                if why.starts_with("no edition") || e.methods.first().map_or(false, |m| diff_lookup(lib, &m.title, Some(m)).is_none()) {
                    why = format!("compared with edition {i}: {d}");
                }
            }
        }
    }
    Err(why)
}
/// A description of a library through its public interface, for comparing two libraries.
pub fn describe(lib: &MethodLib, extra: &[String]) -> Result<Vec<String>, Panicked> {
    guard(|| {
        let mut titles: BTreeSet<String> = all_titles(lib, 4096).unwrap_or_default();
        titles.extend(extra.iter().cloned());
        titles
            .iter()
            .map(|t| match lib.get_by_title(t) {
                // (writing out tens of thousands of rows would take most of a run's time)
                Ok(m) if m.lead_len() > 1000 => {
                    let h = m.first_lead().row_vec().iter().flat_map(|r| r.bell_iter()).fold(0u64, |h, b| (h.rotate_left(5) ^ b.index() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                    format!("{t:?}: {:?} {:?} {} rows {h:x}", m.title(), m.name(), m.lead_len())
                }
                Ok(m) => format!("{t:?}: {:?} {:?} {:?} {m:?}", m.title(), m.name(), rows_of(m.first_lead())),
                Err(QueryError::NotFound(())) => format!("{t:?}: not found"),
                Err(QueryError::PnParseErr { pn, error }) => format!("{t:?}: {pn:?} {error:?}"),
            })
            .collect()
    })
}
pub fn toggle_case(t: &str) -> String {
    match pick(4) {
        0 => t.to_string(),
        1 => t.to_ascii_lowercase(),
        2 => t.to_ascii_uppercase(),
        _ => t.chars().map(|c| if pick(2) == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}
