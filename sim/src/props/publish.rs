//! Generating an edition from the Central Council's XML (C22): collection -> parse_cc_lib -> JSON -> clients.
use super::libs::*;
use crate::core::*;
use crate::lib_gen::*;
use crate::{ev, violate};
use bellframe::MethodLib;
use std::io::Read;
use std::sync::Arc;

const XML: &str = "/data/collection.xml";
const CLASS_TEXT: [&str; 9] = ["", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"];

struct Pub {
    /// The collections, as published by the Council.
    xml: Vec<String>,
}
static mut PUB: *mut Pub = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn council() -> &'static mut Pub {
    unsafe { &mut *PUB }
}

fn escape(s: &str, attr: bool) -> String {
    let mut o = String::new();
    let numeric = pick(8) == 7;
    for c in s.chars() {
        match c {
            '&' => o.push_str(if pick(4) == 3 { "&#38;" } else { "&amp;" }),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr || pick(2) == 0 => o.push_str("&quot;"),
            '\'' if attr || pick(3) == 2 => o.push_str("&apos;"),
            c if numeric && !c.is_ascii() => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn leaf(tag: &str, text: &str) -> String {
    if text.is_empty() && pick(2) == 0 {
        return format!("<{tag}/>");
    }
    format!("<{tag}>{}</{tag}>", escape(text, false))
}
/// What the Council's files also contain, and nobody asks for.
fn chaff(indent: &str) -> String {
    let mut s = String::new();
    for _ in 0..pick(3) {
        s.push_str(indent);
        s.push_str(&match pick(7) {
            0 => "<symmetry>palindromic double</symmetry>".to_string(),
            1 => "<references><rwRef>1897/30</rwRef><bnRef/></references>".to_string(),
            2 => "<performances><firstTowerbellPeal><date>1900-01-01</date><location><town>Title</town></location></firstTowerbellPeal></performances>".to_string(),
            // (minidom refuses documents with comments)
            3 => "<ghost><method><title>Ghost Minor</title></method></ghost>".to_string(),
            4 => "<notes>a &lt;title&gt; of no method</notes>".to_string(),
            5 => "<leadHeadCode>a</leadHeadCode>".to_string(),
            _ => format!("<extensionConstruction>{}</extensionConstruction>", pick(9)),
        });
    }
    s
}
fn shuffled(mut v: Vec<String>) -> Vec<String> {
    for i in (1..v.len()).rev() {
        if pick(4) == 3 {
            let j = pick(i + 1);
            v.swap(i, j);
        }
    }
    v
}
fn emit_xml(ms: &[MSpec]) -> String {
    let nl = ["", "\n", "\n  ", "\r\n\t"][pick(4)];
    let mut groups: Vec<(usize, u8, (bool, bool, bool), Vec<&MSpec>)> = vec![];
    for m in ms {
        match groups.iter().position(|g| g.0 == m.stage && g.1 == m.class && g.2 == m.flags) {
            Some(i) if pick(8) != 7 => groups[i].3.push(m),
            _ => groups.push((m.stage, m.class, m.flags, vec![m])),
        }
    }
    let mut s = String::new();
    if pick(3) > 0 {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    let mut attrs = vec![
        "xmlns=\"http://www.cccbr.org.uk/methods/schemas/2007/05/methods\"".to_string(),
        format!("date=\"20{:02}-0{}-1{}\"", pick(40), 1 + pick(9), pick(10)),
        "xmlns:db=\"http://methods.ringing.org/NS/database\"".to_string(),
    ];
    if pick(2) == 0 {
        attrs.pop();
    }
    s.push_str(&format!("<collection {}>", shuffled(attrs).join(" ")));
    s.push_str(&chaff(nl));
    for (st, c, f, v) in &groups {
        s.push_str(nl);
        s.push_str("<methodSet>");
        let mut at = String::new();
        for (b, k) in [(f.1, "little"), (f.2, "differential")] {
            match (b, pick(4)) {
                (true, _) => at.push_str(&format!(" {k}=\"true\"")),
                (false, 3) => at.push_str(&format!(" {k}=\"false\"")),
                _ => {}
            }
        }
        match pick(4) {
            2 => at.push_str(" plain=\"true\""),
            3 => at = format!(" trebleDodging=\"true\"{at}"),
            _ => {}
        }
        let cl = CLASS_TEXT[*c as usize];
        let cl = if cl.is_empty() && pick(2) == 0 { format!("<classification{at}/>") } else { format!("<classification{at}>{cl}</classification>") };
        let mut props = vec![format!("<stage>{st}</stage>"), cl, "<lengthOfLead>24</lengthOfLead>".to_string(), "<numberOfHunts>1</numberOfHunts>".to_string()];
        if pick(2) == 0 {
            props.truncate(2);
        }
        let props = shuffled(props).join(nl);
        let note = chaff(nl);
        s.push_str(&format!("{note}{nl}<properties>{nl}{props}{}{nl}</properties>", chaff(nl)));
        for m in v {
            let parts = shuffled(vec![leaf("title", &m.title), leaf("name", &m.name), leaf("notation", &m.pn)]);
            s.push_str(nl);
            s.push_str(&if pick(3) > 0 { format!("<method id=\"m{}\">", pick(99999)) } else { "<method>".to_string() });
            for p in parts {
                s.push_str(nl);
                s.push_str(&p);
                if pick(3) == 0 {
                    s.push_str(&chaff(nl));
                }
            }
            s.push_str(nl);
            s.push_str("</method>");
        }
        s.push_str(nl);
        s.push_str("</methodSet>");
    }
    s.push_str(nl);
    s.push_str("</collection>");
    s
}
/// What XML can carry exactly and the Council's collection can say.
fn sayable(m: &MSpec) -> bool {
    let ok = |s: &str| s.chars().all(|c| c >= ' ' && c != '\u{7f}' && c != '\u{feff}') && s == s.trim();
    !m.flags.0 && ok(&m.title) && ok(&m.name) && ok(&m.pn)
}
fn stdout_trouble() -> bool {
    ctx().faults.contains_key("stdout-refused")
}

/// The Council replaces its collection.
fn write_collection(which: usize, style: usize) {
    ev!("the Council writes collection {which}");
    if save_to(XML, style, &council().xml[which]).is_err() {
        ev!("writing the collection failed");
    }
}
/// The workflow: read the collection, generate the edition, save it.
fn generate(style: usize, how: usize, save: bool) {
    let xml = match how {
        0 => std::fs::read_to_string(XML),
        1 => (|| {
            let mut s = String::new();
            std::io::BufReader::with_capacity(64, std::fs::File::open(XML)?).read_to_string(&mut s)?;
            Ok(s)
        })(),
        _ => std::fs::read(XML).and_then(|b| String::from_utf8(b).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))),
    };
    let Ok(xml) = xml else {
        ev!("the collection could not be read");
        return;
    };
    shape(xml.len() as u64);
    let whole = council().xml.iter().position(|x| *x == xml);
    let Some(lib) = parse(&xml, whole) else { return };
    let json = match must("MethodLib::to_json", || lib.to_json()) {
        Ok(t) => t,
        Err(e) => violate!("save-failed", "saving a generated library failed: {e}"),
    };
    ev!("saving the edition as {} bytes", json.len());
    let back = load(&json);
    if let Some(i) = whole {
        if let Some(d) = diff_all(&back, &saves().eds[i], &saves().uni) {
            violate!("generated-edition-differs", "after saving and loading the generated edition: {d}; saved: {}", clip(&json));
        }
        checked();
    }
    if !save {
        return;
    }
    saves().saved(whole.unwrap_or(0), &json);
    if save_with(style, &json).is_err() {
        ev!("saving failed");
    }
}
/// Parses one text: a whole collection must give exactly its methods, one that was cut short these or none at all.
fn parse(xml: &str, whole: Option<usize>) -> Option<MethodLib> {
    let refused = stdout_trouble();
    match (guard(|| bellframe::parse_cc_lib(xml)), whole) {
        (Ok(lib), Some(i)) => {
            if let Some(d) = diff_all(&lib, &saves().eds[i], &saves().uni) {
                violate!("generated-library-differs", "the library generated from the collection: {d}; collection: {}", clip(xml));
            }
            checked();
            probe("a collection was turned into a library");
            Some(lib)
        }
        (Ok(lib), None) => {
            // cut short: nothing but the very end of the text may be missing
            let of = |i: usize| council().xml[i].starts_with(xml) && diff_all(&lib, &saves().eds[i], &saves().uni).is_none();
            let torn = !council().xml.iter().any(|x| x.starts_with(xml));
            if torn {
                ev!("a torn collection was read as a library");
                return None;
            }
            if !of(0) && !of(1) {
                violate!("partial-collection-accepted", "the first {} bytes of a collection were turned into a library that lacks some of its methods: {}", xml.len(), clip(xml));
            }
            checked();
            None
        }
        (Err(p), Some(_)) => {
            if stdout_trouble() && (refused || p.msg.contains("stdout")) {
                probe("nobody took the output");
                return None;
            }
            violate!("collection-rejected", "a whole collection was rejected: {} at {}; collection: {}", p.msg, p.loc, clip(xml));
        }
        (Err(_), None) => {
            probe("a damaged collection was rejected");
            checked();
            None
        }
    }
}
pub fn c22() {
    let wd = simple_world([0, 100, 500][pick(3)]);
    let max = size();
    let keep = |mut e: Edition| {
        e.methods.retain(sayable);
        e
    };
    let e0 = span(|| keep(gen_edition(None, 0, max)));
    let e1 = span(|| keep(gen_edition(Some(&e0), 1, max)));
    let uni = universe(&[e0.clone(), e1.clone()]);
    if e0.methods.len() >= 3 {
        nontrivial();
    }
    let xml = vec![emit_xml(&e0.methods), emit_xml(&e1.methods)];
    unsafe { PUB = Box::into_raw(Box::new(Pub { xml })) };
    set_saves(vec![e0, e1], uni);
    let r = &mut wd.rates;
    if pick(3) > 0 {
        r.short_write = [0, 300][pick(2)];
        r.short_read = [0, 300][pick(2)];
        r.read_err = [0, 60][pick(2)];
        r.write_err = [0, 60][pick(2)];
        r.enospc = [0, 60][pick(2)];
        r.kill = [0, 30, 120][pick(3)];
        r.power = [0, 20, 60][pick(3)];
        r.eintr = [0, 100][pick(2)];
        r.stdout_err = [0, 0, 200][pick(3)];
        r.stdout_short = [0, 300][pick(2)];
    }
    let crashed = || ["power-loss", "process-kill"].iter().any(|k| ctx().faults.contains_key(k));
    for _ in 0..1 + pick(4) {
        span(|| {
            let (which, ws, gs, how) = (pick(2), pick(4), pick(4), pick(3));
            let p = wd.new_proc(&[], None, true);
            wd.spawn(p, 0, move || write_collection(which, ws));
            // at times the workflow runs while the collection is being replaced, or twice at once
            if pick(4) > 0 {
                wd.run();
            }
            for i in 0..1 + pick(4) / 3 {
                let p = wd.new_proc(&[], None, true);
                wd.spawn(p, 0, move || generate(gs, how, i == 0));
            }
            wd.run();
            set_crashed(crashed());
            let p = wd.new_proc(&[], None, true);
            wd.spawn(p, 0, || {
                judge_stored();
            });
            wd.run();
        });
    }
    set_crashed(crashed());
    // quiet end: the whole pipeline once more without faults
    wd.faults_on = false;
    let which = pick(2);
    let p = wd.new_proc(&[], None, false);
    wd.spawn(p, 0, move || {
        write_collection(which, 1);
        generate(1, 0, true);
        match judge_stored() {
            Some((_, d0, d1)) if [d0, d1][which] => probe("the edition reached a client"),
            _ => violate!("edition-lost", "without any fault, the edition generated from collection {which} did not reach a client"),
        }
    });
    wd.run();
    // cut short or with a part missing: never a library that lacks methods
    let xml = council().xml[which].clone();
    let mut cuts = vec![];
    for _ in 0..4 {
        let mut k = match pick(3) {
            0 => pick(xml.len()),
            1 => xml.len() - 1 - pick(14),
            // between two methods, where what is left looks complete but for the ends
            _ => {
                let end = *pick_ref(&["</method>", "</methodSet>", "</properties>", "</title>", "<methodSet>"]);
                let all: Vec<usize> = xml.match_indices(end).map(|m| m.0 + end.len()).collect();
                if all.is_empty() { 0 } else { *pick_ref(&all) }
            }
        };
        while !xml.is_char_boundary(k) {
            k -= 1;
        }
        cuts.push(k);
    }
    let p = wd.new_proc(&[], None, false);
    let cut = xml.clone();
    wd.spawn(p, 0, move || {
        for k in cuts {
            parse(&cut[..k], None);
        }
    });
    wd.run();
    // the same collection in several threads at once
    if pick(3) == 2 {
        let p = wd.new_proc(&[], None, false);
        let xml = Arc::new(xml);
        preempt_on();
        for _ in 0..2 + pick(2) {
            let xml = xml.clone();
            wd.spawn(p, 0, move || {
                if let Some(lib) = parse(&xml, Some(which)) {
                    let t = must("MethodLib::to_json", || lib.to_json()).unwrap_or_default();
                    if let Some(d) = diff_all(&load(&t), &saves().eds[which], &saves().uni) {
                        violate!("generated-edition-differs", "saved by one of several threads: {d}");
                    }
                }
            });
        }
        wd.run();
        preempt_off();
    }
}
