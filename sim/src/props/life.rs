//! C01 to C06: acquiring the Central Council library in a world of processes, disk, network and crashes.
use crate::core::*;
use crate::lib_gen::*;
use crate::world::{self, w, Rates, World};
use crate::{check, ev, violate};
use bellframe::MethodLib;

pub const URL: &str = "https://raw.githubusercontent.com/kneasle/cc-method-lib/master/cccbr-methods.json";
pub const FILE: &str = "cccbr-methods.json";

#[derive(Debug, Clone)]
pub enum Got {
    Running,
    Dead,
    Panic(String),
    Nothing,
    Edition(usize),
    /// A library that equals what this text loads as (not one of the editions).
    Text(Vec<u8>),
    Unknown(String),
}
pub struct Acq {
    pub proc: usize,
    pub actor_requests: u64,
    pub start: u64,
    pub end: u64,
    pub had_valid_cache: bool,
    pub got: Got,
}
pub struct Life {
    pub eds: Vec<Edition>,
    pub uni: Vec<String>,
    pub published: usize,
    pub cache: Option<Vec<u8>>,
    /// The cache directory exists and can be written to.
    pub usable: bool,
    pub env: Vec<(&'static str, Option<Vec<u8>>)>,
    pub pw: Option<Vec<u8>>,
    pub initial: Option<Vec<u8>>,
    pub others: Vec<(Vec<u8>, Vec<u8>)>,
    pub acqs: Vec<Acq>,
    /// Every content the cache file has had, with the call number from which it held it.
    pub history: Vec<(u64, Option<Vec<u8>>)>,
    pub check_c04: bool,
    pub loadable: std::collections::HashMap<Vec<u8>, bool>,
    pub quiet_from: u64,
}
static mut LIFE: *mut Life = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn life() -> &'static mut Life {
    unsafe { &mut *LIFE }
}

#[derive(PartialEq, Clone, Copy)]
pub enum Cache {
    Any,
    Valid,
    NotValid,
}
pub struct Cfg {
    pub cache: Cache,
    /// Only environments with a usable cache directory.
    pub usable_only: bool,
}

pub fn loads(text: &[u8]) -> bool {
    let _g = SimGuard::new();
    if let Some(b) = life().loadable.get(text) {
        return *b;
    }
    let b = match std::str::from_utf8(text) {
        Ok(s) => matches!(guard(|| MethodLib::from_json(s).is_ok()), Ok(true)),
        Err(_) => false,
    };
    life().loadable.insert(text.to_vec(), b);
    b
}
/// What the client's text decoding makes of a response body.
fn body_text(b: &[u8]) -> Vec<u8> {
    let b = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(b);
    String::from_utf8_lossy(b).into_owned().into_bytes()
}

pub fn setup(cfg: &Cfg) -> &'static mut Life {
    let wd = World::install();
    wd.net.url = URL;
    // editions
    let published = 1 + pick(3);
    let mut eds: Vec<Edition> = vec![];
    let maxm = [2, 4, 10][pick(3)];
    for i in 0..published {
        let prev = eds.last().cloned();
        let mut e = span(|| gen_edition(prev.as_ref(), i, maxm));
        if pick(8) == 7 {
            pad(&mut e);
        }
        eds.push(e);
    }
    // an old edition that this server does not offer (any more)
    let old = span(|| if pick(10) == 9 { empty_edition() } else { gen_edition(Some(&eds[0]), 9, maxm) });
    eds.push(old);
    let uni = universe(&eds);
    for e in &eds[..published] {
        wd.net.editions.push(e.text.clone().into_bytes());
    }
    wd.net.current = pick(published);
    wd.net.max_published = wd.net.current;
    for _ in 0..1 + pick(3) {
        wd.net.garbage.push(gen_odd_doc());
    }
    // the user's environment
    let style = if cfg.usable_only { pick(6) } else { pick(13) };
    let mut env: Vec<(&'static str, Option<Vec<u8>>)> = vec![];
    let mut pw: Option<Vec<u8>> = Some(b"/home/pw".to_vec());
    let s = |x: &str| Some(x.as_bytes().to_vec());
    let mut usable = true;
    let dir: Option<&[u8]> = match style {
        0 => {
            env.push(("HOME", s("/home/u")));
            Some(b"/home/u/.cache")
        }
        1 => {
            env.push(("XDG_CACHE_HOME", s("/var/cache/u")));
            env.push(("HOME", s("/home/u")));
            Some(b"/var/cache/u")
        }
        2 => Some(b"/home/pw/.cache"),
        3 => {
            env.push(("XDG_CACHE_HOME", s("relative/dir")));
            env.push(("HOME", s("/home/u")));
            Some(b"/home/u/.cache")
        }
        4 => {
            env.push(("XDG_CACHE_HOME", s("")));
            env.push(("HOME", s("/home/u v\u{e9}")));
            Some("/home/u v\u{e9}/.cache".as_bytes())
        }
        5 => {
            // a directory name that is not UTF-8
            env.push(("XDG_CACHE_HOME", Some(b"/ca\xffche".to_vec())));
            Some(b"/ca\xffche")
        }
        6 => {
            // ~/.cache does not exist
            env.push(("HOME", s("/home/none")));
            usable = false;
            Some(b"/home/none/.cache")
        }
        7 => {
            env.push(("XDG_CACHE_HOME", s("/deep/er/still")));
            usable = false;
            Some(b"/deep/er/still")
        }
        8 => {
            pw = None;
            usable = false;
            None
        }
        9 => {
            env.push(("HOME", s("")));
            pw = None;
            usable = false;
            None
        }
        10 => {
            // the cache "directory" is a file
            env.push(("XDG_CACHE_HOME", s("/etc/file")));
            usable = false;
            Some(b"/etc/file")
        }
        11 => {
            env.push(("XDG_CACHE_HOME", s("/ro/cache")));
            usable = false;
            Some(b"/ro/cache")
        }
        _ => {
            // the cache file's place is taken by a directory
            env.push(("XDG_CACHE_HOME", s("/odd/cache")));
            usable = false;
            Some(b"/odd/cache")
        }
    };
    let fs = &mut wd.fs;
    for d in [&b"/home/u"[..], b"/home/pw", b"/tmp", b"/cwd", b"/etc"] {
        fs.setup_dir(d);
    }
    let cache: Option<Vec<u8>> = dir.map(|d| [d, b"/", FILE.as_bytes()].concat());
    let linked = if style < 6 { pick(8) } else { 0 };
    if let Some(d) = dir {
        if linked == 6 {
            // the cache directory is a symbolic link to a place with more room
            let up = d.iter().filter(|b| **b == b'/').count() - 1;
            let target = if pick(2) == 0 { "/mnt/big/cache".to_string() } else { format!("{}mnt/big/cache", "../".repeat(up)) };
            fs.setup_dir(b"/mnt/big/cache");
            fs.setup_link(d, target.as_bytes());
            fault("cache-directory-is-a-symlink");
        } else if style < 6 || style >= 11 {
            fs.setup_dir(d);
        }
        if linked == 7 {
            // so is the cache file; what it leads to may not exist
            fs.setup_dir(b"/mnt/lib");
            fs.setup_link(cache.as_ref().unwrap(), b"/mnt/lib/methods.json");
            fault("cache-file-is-a-symlink");
        }
        if style == 6 {
            fs.setup_dir(b"/home/none");
        }
        if style == 10 {
            fs.setup_file(d, b"not a directory");
        }
        if style == 12 {
            let c = cache.as_ref().unwrap();
            fs.setup_dir(c);
            if pick(2) == 1 {
                fs.setup_file(&[c, &b"/notes"[..]].concat(), b"precious contents of a directory");
            }
        }
    }
    // often /tmp and the user's home are file systems of their own
    wd.mounts = match pick(4) {
        0 => vec![b"/tmp".to_vec()],
        1 => vec![],
        2 => vec![b"/tmp".to_vec(), b"/home".to_vec()],
        _ => vec![b"/home".to_vec(), b"/var".to_vec()],
    };
    if linked > 5 && pick(2) == 1 {
        wd.mounts.push(b"/mnt".to_vec());
    }
    // other files of the user, some with names a careless implementation might pick
    if style < 6 || style == 11 {
        let d = dir.unwrap();
        for n in ["cccbr-methods.json.bak", "cccbr-methods.json.old", "cccbr-methods.json.1234.bak", "cccbr-methods.json.tmp.txt", "cccbr-methods.new", "cccbr-methods.json.tmp", "cccbr-methods.tmp", "other.json", "cccbr-methods", "cccbr-methods.json.lock", ".cccbr-methods.json"] {
            if pick(3) == 2 {
                let p = [d, b"/", n.as_bytes()].concat();
                fs.setup_file(&p, format!("precious contents of {n}").as_bytes());
            }
        }
    }
    // files of the same name where a careless implementation might look for them
    let decoy = eds.last().unwrap().text.clone().into_bytes();
    let places: [&[u8]; 7] = [b"/cwd", b"/home/u", b"/home/u/.cache", b"/home/pw/.cache", b"/tmp", b"/cwd/relative/dir", b"/cwd/.cache"];
    for p in places {
        if dir == Some(p) || (p == b"/home/u/.cache" && style == 4) {
            continue;
        }
        match pick(6) {
            0..=2 => {}
            3 => fs.setup_dir(p),
            k => {
                fs.setup_dir(p);
                let f = [p, b"/", FILE.as_bytes()].concat();
                fs.setup_file(&f, if k == 4 { &decoy } else { b"a file of the same name somewhere else" });
            }
        }
    }
    // the initial cache
    let mut initial = None;
    if let (Some(c), true) = (&cache, style < 6 || style == 11) {
        let k = match cfg.cache {
            Cache::Valid => 1,
            Cache::NotValid => [0, 2, 3, 4, 5][pick(5)],
            Cache::Any => pick(6),
        };
        let some = pick_ref(&eds).text.clone().into_bytes();
        let d: Option<Vec<u8>> = match k {
            0 => None,
            1 => Some(some),
            2 => {
                let n = pick(some.len());
                Some(some[..n].to_vec())
            }
            3 => Some(world::corrupt(&some)),
            4 => Some(gen_odd_doc()),
            _ => Some(vec![0; pick(5000)]),
        };
        if let Some(d) = d {
            fs.setup_file(c, &d);
            fs.set_mtime(c, world::wall() - gen_age());
            initial = Some(d);
        }
    }
    if style == 11 {
        let d = dir.unwrap();
        fs.set_ro(d, true);
        fs.set_ro(cache.as_ref().unwrap(), true);
    }
    let at = cache.as_ref().map(|c| fs.real_or(c, true));
    let others = fs.files().into_iter().filter(|(p, _)| Some(p) != cache.as_ref() && Some(p) != at.as_ref()).collect();
    let l = Life {
        eds,
        uni,
        published,
        cache: cache.clone(),
        usable,
        env,
        pw,
        initial: initial.clone(),
        others,
        acqs: vec![],
        history: vec![(0, initial)],
        check_c04: false,
        loadable: Default::default(),
        quiet_from: 0,
    };
    unsafe { LIFE = Box::into_raw(Box::new(l)) };
    wd.watch = Some((cache.clone().unwrap_or_default(), on_change));
    wd.home_hint = cache.unwrap_or_default();
    wd.replacements = life().eds.iter().map(|e| e.text.clone().into_bytes()).collect();
    wd.rates.switch = [100, 0, 300, 700][pick(4)];
    ev!("cache file {:?} ({}), {} editions, server at {}", life().cache.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()), describe_cache(life().initial.as_deref()), published, w().net.current);
    life()
}
fn describe_cache(c: Option<&[u8]>) -> String {
    match c {
        None => "absent".into(),
        Some(t) => match life().eds.iter().position(|e| e.text.as_bytes() == t) {
            Some(i) => format!("edition {i}"),
            None => format!("{} bytes, {}", t.len(), if loads(t) { "loadable" } else { "not loadable" }),
        },
    }
}
/// How old a file is in nanoseconds; sometimes it is from the future.
fn gen_age() -> i64 {
    let day = 86_400_000_000_000i64;
    match pick(6) {
        0 => 0,
        1 => pick(3600) as i64 * 1_000_000_000,
        2 => pick(60) as i64 * day,
        3 => pick(1000) as i64 * day,
        4 => (1000 + pick(19_000) as i64) * day, // as far back as 1970
        _ => -(pick(400) as i64 * day),
    }
}
/// Time in which nothing happens: seconds up to two years.
fn time_passes() {
    if pick(3) != 0 {
        let s = match pick(3) {
            0 => pick(86_400),
            1 => pick(40) * 86_400,
            _ => pick(800) * 86_400,
        };
        ev!("{s} seconds pass");
        fault("time-jump");
        ctx().sim_ns += s as u64 * 1_000_000_000;
    }
}
/// Makes an edition larger than the buffers it passes through on its way.
fn pad(e: &mut Edition) {
    let kind = pick(8);
    let first = e.methods[0].name.clone();
    if kind < 6 {
        // many methods, now and then mostly of characters that take several bytes
        let fill = if kind < 4 { "Padding".to_string() } else { pick_ref(&["\u{e9}", "\u{2019}", "\u{1f514}"]).repeat(20 + pick(40)) };
        for i in 0..60 + pick(60) {
            let t = format!("{fill} {first} method number {i:04} Minor");
            e.methods.push(MSpec {
                title: t.clone(),
                name: t,
                stage: 6,
                class: 8,
                flags: (false, false, false),
                pn: "x16".into(),
                rows: Some(expand(6, &[vec![], vec![0, 5]])),
                explicit: true,
            });
        }
    } else {
        // one method whose notation spells out a very long touch
        let k = [300, 3_000, 33_000][pick(3)] + pick(200);
        let cs: Vec<Change> = (0..k).flat_map(|_| [vec![], vec![0, 5]]).collect();
        let t = format!("Very Long {first} Minor");
        e.methods.push(MSpec { title: t.clone(), name: t, stage: 6, class: 8, flags: (false, false, false), pn: "x16".repeat(k), rows: Some(expand(6, &cs)), explicit: true });
        probe("very long notation");
    }
    e.text = emit_doc(&e.methods);
    if pick(4) == 3 {
        // blank space up to and beyond the usual limits
        let n = [8192, 65536, 1 << 20][pick(3)] + pick(3);
        let blank = " ".repeat(n.saturating_sub(pick(e.text.len().min(n))));
        let at = if pick(2) == 0 { 1 } else { e.text.rfind(']').unwrap() };
        e.text.insert_str(at, &blank);
        probe("blank space in a document");
    }
    probe("large document");
}

/// Called after every change of the file system.
fn on_change(wd: &World) {
    let l = life();
    let Some(c) = &l.cache else { return };
    let now = wd.fs.content(c).map(|d| d.to_vec());
    if l.history.last().map(|h| &h.1) == Some(&now) {
        return;
    }
    ev!("cache file is now: {}", describe_cache(now.as_deref()));
    l.history.push((wd.calls, now.clone()));
    if wd.environment_change {
        return; // the world did it (user, bit rot, power loss), not the code under test
    }
    probe("cache file replaced");
    if l.check_c04 {
        match &now {
            None => violate!("cache-removed", "acquiring removed the cache file"),
            Some(d) => {
                let whole = wd.net.delivered.iter().any(|b| &body_text(&b.body) == d || &b.body == d);
                check!(whole, "partial-cache", "the cache file was changed to {} bytes which are not a completely downloaded document: {:?}", d.len(), head(d));
                check!(loads(d), "unloadable-cache", "the cache file was changed to a document that cannot be loaded: {:?}", head(d));
                check!(!certainly_no_library(d), "no-library-cached", "the cache file was changed to a document that is no library: {:?}", head(d));
            }
        }
    }
}
fn head(d: &[u8]) -> String {
    String::from_utf8_lossy(&d[..d.len().min(60)]).into_owned()
}
fn valid_cache_now() -> bool {
    match &life().cache {
        Some(c) => match w().fs.content(c) {
            Some(t) => loads(&t.to_vec()),
            None => false,
        },
        None => false,
    }
}

/// One acquisition, on the current actor.
pub fn acquire(proc: usize) {
    let idx;
    let before;
    {
        let _g = SimGuard::new();
        if w().procs[proc].dead {
            return;
        }
        idx = life().acqs.len();
        before = world::actor_requests();
        life().acqs.push(Acq { proc, actor_requests: 0, start: w().calls, end: u64::MAX, had_valid_cache: valid_cache_now(), got: Got::Running });
        ev!("pid {} acquires the library", w().procs[proc].pid);
    }
    let r = guard(MethodLib::cc_lib);
    let _g = SimGuard::new();
    let dead = w().procs[proc].dead;
    let got = if dead {
        Got::Dead
    } else {
        match r {
            Err(p) => Got::Panic(format!("{} at {}", p.msg, p.loc)),
            Ok(None) => Got::Nothing,
            Ok(Some(lib)) => what_is(&lib, life().acqs[idx].start),
        }
    };
    ev!("pid {} acquisition {} -> {:?}", w().procs[proc].pid, idx, short(&got));
    let a = &mut life().acqs[idx];
    a.end = w().calls;
    a.actor_requests = world::actor_requests() - before;
    a.got = got;
    shape(match &a.got {
        Got::Edition(i) => *i as u64,
        Got::Nothing => 100,
        _ => 101,
    });
}
fn short(g: &Got) -> String {
    match g {
        Got::Text(t) => format!("library of a {} byte document", t.len()),
        g => format!("{g:?}"),
    }
}
fn what_is(lib: &MethodLib, start: u64) -> Got {
    let l = life();
    match identify(lib, &l.eds, &l.uni) {
        Ok(i) => Got::Edition(i),
        Err(why) => {
            let d = match describe(lib, &l.uni) {
                Ok(d) => d,
                Err(p) => return Got::Unknown(format!("querying it panicked: {} at {}", p.msg, p.loc)),
            };
            let mut cands: Vec<Vec<u8>> = w().net.delivered.iter().filter(|d| d.edition.is_none()).map(|d| body_text(&d.body)).collect();
            for (i, (_, c)) in l.history.iter().enumerate() {
                let last = l.history.get(i + 1).map(|n| n.0).unwrap_or(u64::MAX);
                if last >= start {
                    cands.extend(c.clone());
                }
            }
            let mut bogus = None;
            for c in cands {
                if !loads(&c) {
                    continue;
                }
                let no_lib = certainly_no_library(&c);
                if let Ok(Ok(other)) = guard(|| MethodLib::from_json(std::str::from_utf8(&c).unwrap())) {
                    if describe(&other, &l.uni).ok().as_ref() == Some(&d) {
                        if no_lib {
                            bogus = Some(c);
                            continue;
                        }
                        return Got::Text(c);
                    }
                }
            }
            match bogus {
                Some(c) => Got::Unknown(format!("it was made of a document that is no library: {:?}", head(&c))),
                None => Got::Unknown(why),
            }
        }
    }
}
/// Is this text, or the edition it equals, something a server published or the cache held?
fn legitimate(g: &Got) -> Result<(), String> {
    let l = life();
    match g {
        Got::Edition(i) => {
            let text = l.eds[*i].text.as_bytes();
            let published = *i < l.published && *i <= w().net.max_published;
            // (a damaged or odd document can denote the same library as an edition that was not published yet)
            let held = || l.history.iter().flat_map(|h| &h.1).any(|c| loads(c) && (same_lib(c, text) || looks_like(c, *i)));
            // (so can one that a server sent instead of an edition)
            let sent = || w().net.delivered.iter().filter(|d| d.edition.is_none()).any(|d| same_lib(&body_text(&d.body), text));
            if published || l.history.iter().any(|h| h.1.as_deref() == Some(text)) || held() || sent() {
                Ok(())
            } else {
                Err(format!("edition {i} was never published nor cached"))
            }
        }
        Got::Text(_) => Ok(()),
        Got::Unknown(why) => Err(why.clone()),
        _ => Ok(()),
    }
}
/// A document (say, a damaged copy) whose library cannot be told from edition `i` by what `identify` compares.
fn looks_like(c: &[u8], i: usize) -> bool {
    let l = life();
    guard(|| MethodLib::from_json(std::str::from_utf8(c).ok()?).ok())
        .ok()
        .flatten()
        .map_or(false, |lib| identify(&lib, &l.eds, &l.uni) == Ok(i))
}
fn same_lib(a: &[u8], b: &[u8]) -> bool {
    let f = |t: &[u8]| -> Option<u64> {
        // (the same few texts are asked about again and again)
        static SEEN: std::sync::Mutex<std::collections::BTreeMap<u64, Option<u64>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
        let k = hash_bytes(0, t);
        let known = SEEN.lock().unwrap().get(&k).copied();
        known.unwrap_or_else(|| {
            let lib = guard(|| MethodLib::from_json(std::str::from_utf8(t).ok()?).ok()).ok().flatten();
            let d = lib.and_then(|lib| Some(describe(&lib, &life().uni).ok()?.iter().fold(0, |h, s| hash_bytes(h, s.as_bytes()))));
            SEEN.lock().unwrap().insert(k, d);
            d
        })
    };
    f(a).is_some() && f(a) == f(b)
}

/// Starts a process with some threads, each acquiring a few times.
pub fn start(threads: usize, times: usize, delay: u64, killable: bool) -> usize {
    let l = life();
    let p = w().new_proc(&l.env, l.pw.clone(), killable);
    for t in 0..threads {
        let d = if t == 0 { delay } else { delay + pick([2, 50_000_000][pick(2)]) as u64 };
        w().spawn(p, d, move || {
            for _ in 0..times {
                acquire(p);
            }
        });
    }
    p
}
fn some_delay() -> u64 {
    match pick(4) {
        0 => 0,
        1 => pick(20_000) as u64,
        2 => pick(80_000_000) as u64,
        _ => pick(400_000_000) as u64,
    }
}
fn rate() -> usize {
    [0, 0, 0, 8, 40, 150, 400][pick(7)]
}
fn disk_rates(r: &mut Rates) {
    r.open_err = rate();
    r.read_err = rate();
    r.write_err = rate();
    r.enospc = rate();
    r.rename_err = rate();
    r.unlink_err = rate();
    r.stat_err = rate();
    r.fsync_err = rate();
    r.close_err = rate();
}
fn benign_rates(r: &mut Rates) {
    r.eintr = rate().min(150);
    r.short_read = [0, 0, 100, 500, 900][pick(5)];
    r.short_write = [0, 0, 100, 500, 900][pick(5)];
}
fn net_rates(r: &mut Rates) {
    r.net_dns = rate();
    r.net_timeout = rate();
    r.net_error_page = rate();
    r.net_garbage = rate();
    r.net_trunc_err = rate();
    r.net_trunc_ok = rate();
    net_benign(r);
}
fn net_benign(r: &mut Rates) {
    r.net_stale = rate();
    r.net_slow = rate();
    r.publish = [0, 0, 10, 60][pick(4)];
}
fn crash_rates(r: &mut Rates) {
    r.kill = [0, 0, 5, 30, 100][pick(5)];
    r.power = [0, 0, 0, 5, 20][pick(5)];
}
fn tamper_rates(r: &mut Rates) {
    r.tamper_delete = [0, 0, 5, 40][pick(4)];
    r.tamper_corrupt = [0, 0, 5, 40][pick(4)];
    r.tamper_replace = [0, 0, 5, 40][pick(4)];
}
fn crowd(max_procs: usize, killable: bool) {
    let n = 1 + small(max_procs - 1);
    let herd = pick(6) == 5;
    for _ in 0..n {
        span(|| {
            let threads = match pick(8) {
                0..=5 => 1,
                6 => 2,
                _ => 2 + pick(3),
            };
            start(threads, 1 + pick(3), if herd { pick(2) as u64 } else { some_delay() }, killable && pick(2) == 1);
        });
    }
}
/// After the crowd has finished: later processes, one after the other.
fn later(n: usize, killable: bool) {
    for _ in 0..n {
        if pick(5) == 4 {
            w().net.up = !w().net.up;
        }
        time_passes();
        span(|| start(1, 1, 0, killable));
        w().run();
    }
}
fn power_cut_between() {
    if pick(6) == 5 {
        world::environment(|| world::power_loss("rest"));
    }
}
fn no_panics() {
    for (i, a) in life().acqs.iter().enumerate() {
        check!(!matches!(a.got, Got::Panic(_)), "panic", "acquisition {i} panicked: {:?}", a.got);
        check!(!matches!(a.got, Got::Running), "hang", "acquisition {i} never returned");
    }
}
fn faults_fired() -> bool {
    ctx().faults.values().any(|v| *v > 0)
}

// ---- C01 ----------------------------------------------------------------------------------------
pub fn c01() {
    if pick(3) == 2 {
        return c01_documents();
    }
    setup(&Cfg { cache: Cache::Any, usable_only: false });
    let r = &mut w().rates;
    benign_rates(r);
    // everything at once, or a few kinds of trouble for those who get further
    match pick(6) {
        0..=2 => {
            disk_rates(r);
            net_rates(r);
            crash_rates(r);
            tamper_rates(r);
        }
        3 => {
            crash_rates(r);
            tamper_rates(r);
        }
        4 => {
            r.kill = [5, 30, 100, 200][pick(4)];
            net_benign(r);
        }
        _ => disk_rates(r),
    }
    if pick(8) == 7 {
        w().fs.capacity = w().fs.files().iter().map(|f| f.1.len()).sum::<usize>() + pick(4000);
    }
    if pick(6) == 5 {
        w().net.up = false;
    }
    crowd(4, true);
    w().run();
    power_cut_between();
    later(pick(3), true);
    no_panics();
    if faults_fired() {
        nontrivial();
    }
}
fn c01_documents() {
    World::install();
    for _ in 0..1 + pick(6) {
        span(|| {
            let base = if pick(4) == 0 {
                gen_odd_doc()
            } else {
                let mut e = gen_edition(None, 0, 6);
                if pick(24) == 23 {
                    pad(&mut e);
                }
                e.text.into_bytes()
            };
            let doc = match pick(4) {
                0 => base,
                1 => {
                    let n = pick(base.len() + 1);
                    base[..n].to_vec()
                }
                2 => world::corrupt(&base),
                _ => structured_damage(&base),
            };
            probe("loaded a damaged document");
            nontrivial();
            let text = match String::from_utf8(doc) {
                Ok(t) => t,
                Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
            };
            ev!("load {} bytes: {:?}", text.len(), text.chars().take(400).collect::<String>());
            shape(hash_bytes(0, text.as_bytes()));
            let r = must("MethodLib::from_json", || MethodLib::from_json(&text));
            checked();
            if let Ok(lib) = r {
                probe("damaged document still loads");
                let saved = must("MethodLib::to_json of a loaded library", || lib.to_json());
                checked();
                if let Ok(s) = saved {
                    let again = must("MethodLib::from_json of a saved library", || MethodLib::from_json(&s));
                    let _ = again;
                }
            }
        });
    }
}
/// Changes values inside a document while keeping it well-formed.
fn structured_damage(doc: &[u8]) -> Vec<u8> {
    let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(doc) else { return world::corrupt(doc) };
    for _ in 0..1 + pick(3) {
        damage_value(&mut v, 0);
    }
    v.to_string().into_bytes()
}
fn damage_value(v: &mut serde_json::Value, depth: usize) {
    use serde_json::{json, Value};
    let go_down = pick(8) != 7 && depth < 8;
    match v {
        Value::Array(a) if go_down && !a.is_empty() => {
            let i = pick(a.len());
            return damage_value(&mut a[i], depth + 1);
        }
        Value::Object(o) if go_down && !o.is_empty() => {
            let k = o.keys().nth(pick(o.len())).unwrap().clone();
            if pick(8) == 7 {
                o.remove(&k);
                return;
            }
            return damage_value(o.get_mut(&k).unwrap(), depth + 1);
        }
        _ => {}
    }
    *v = match pick(16) {
        0 => json!(0),
        1 => json!(pick(30)),
        2 => json!(pick(300)),
        3 => json!(u64::MAX),
        4 => json!(i64::MIN),
        5 => json!(9),
        6 => json!(23),
        7 => json!(null),
        8 => json!(true),
        9 => json!(""),
        10 => json!([]),
        11 => json!({}),
        12 => json!(1.5),
        13 => json!("\u{0}x"),
        14 => json!(" "),
        _ => json!([v.clone(), v.clone()]),
    };
}

// ---- C02 ----------------------------------------------------------------------------------------
pub fn c02() {
    setup(&Cfg { cache: Cache::Any, usable_only: pick(4) != 3 });
    let r = &mut w().rates;
    benign_rates(r);
    match pick(4) {
        0 => {}
        1 => net_rates(r),
        2 => {
            disk_rates(r);
            crash_rates(r);
        }
        _ => {
            disk_rates(r);
            net_rates(r);
            crash_rates(r);
            tamper_rates(r);
        }
    }
    net_benign(r);
    crowd(5, true);
    w().run();
    power_cut_between();
    later(pick(4), true);
    let mut libs = 0;
    for (i, a) in life().acqs.iter().enumerate() {
        if let Got::Edition(_) | Got::Text(_) | Got::Unknown(_) = a.got {
            libs += 1;
            checked();
            if let Err(why) = legitimate(&a.got) {
                violate!("not-an-edition", "acquisition {i} (pid {}) returned a library that is not one whole published or cached edition: {why}", w().procs[a.proc].pid);
            }
        }
    }
    if libs >= 2 || (libs >= 1 && faults_fired()) {
        nontrivial();
    }
}

// ---- C03 ----------------------------------------------------------------------------------------
pub fn c03() {
    let l = setup(&Cfg { cache: Cache::Valid, usable_only: true });
    if pick(6) == 5 {
        // a read-only cache is just as authoritative
        let d = l.cache.as_ref().unwrap();
        let dir = d[..d.len() - FILE.len() - 1].to_vec();
        w().fs.set_ro(&dir, true);
        w().fs.set_ro(d, true);
    }
    let r = &mut w().rates;
    benign_rates(r);
    net_rates(r);
    r.kill = [0, 0, 5, 30][pick(4)];
    r.tamper_replace = [0, 0, 10, 60][pick(4)];
    w().net.up = pick(3) != 2;
    if !w().net.up {
        fault("network-down");
    }
    let files = w().fs.files();
    let at = w().fs.real_or(life().cache.as_ref().unwrap(), true);
    crowd(4, true);
    w().run();
    power_cut_between();
    if pick(3) == 2 {
        later(1 + pick(2), false);
    }
    no_panics();
    for (i, a) in life().acqs.iter().enumerate() {
        if matches!(a.got, Got::Dead) {
            continue;
        }
        nontrivial();
        // every edition that the cache held at some time during this acquisition (one, mostly)
        let h = &life().history;
        let held: Vec<usize> = (0..h.len())
            .filter(|&k| h[k].0 <= a.end && h.get(k + 1).map_or(true, |n| n.0 >= a.start))
            .filter_map(|k| life().eds.iter().position(|e| Some(e.text.as_bytes()) == h[k].1.as_deref()))
            .collect();
        check!(matches!(a.got, Got::Edition(e) if held.contains(&e)), "cache-ignored", "acquisition {i} returned {:?} although the cache holds edition {held:?}", short(&a.got));
        if h.len() > 1 && a.start >= h[1].0 {
            probe("acquired after the cache was replaced");
        }
    }
    check!(w().net.requests == 0, "request-despite-cache", "{} network request(s) although a valid cache was there", w().net.requests);
    let held = w().fs.content(life().cache.as_ref().unwrap()).map(|d| d.to_vec());
    check!(held == life().history.last().unwrap().1, "disk-changed", "the cache file changed although it was valid");
    let at = [&at, &w().fs.real_or(life().cache.as_ref().unwrap(), true)];
    let files: Vec<_> = files.into_iter().filter(|f| !at.contains(&&f.0)).collect();
    let now: Vec<_> = w().fs.files().into_iter().filter(|f| !at.contains(&&f.0)).collect();
    check!(now == files, "disk-changed", "files changed although a valid cache was there: {:?}", changed(&files, &now));
    let m: u64 = w().procs.iter().map(|p| p.mutations).sum();
    check!(m == 0, "disk-written", "{m} change(s) were made on disk although a valid cache was there");
}
fn changed(a: &[(Vec<u8>, Vec<u8>)], b: &[(Vec<u8>, Vec<u8>)]) -> Vec<String> {
    let mut v = vec![];
    for (p, d) in a {
        match b.iter().find(|x| &x.0 == p) {
            None => v.push(format!("{} removed", String::from_utf8_lossy(p))),
            Some(x) if &x.1 != d => v.push(format!("{} changed", String::from_utf8_lossy(p))),
            _ => {}
        }
    }
    for (p, _) in b {
        if !a.iter().any(|x| &x.0 == p) {
            v.push(format!("{} created", String::from_utf8_lossy(p)));
        }
    }
    v
}

// ---- C04 ----------------------------------------------------------------------------------------
pub fn c04() {
    let l = setup(&Cfg { cache: Cache::Any, usable_only: pick(6) != 5 });
    l.check_c04 = true;
    let r = &mut w().rates;
    benign_rates(r);
    match pick(4) {
        0 => r.kill = [5, 30, 100, 200][pick(4)],
        1 => {
            net_rates(r);
            r.kill = [0, 10, 50][pick(3)];
        }
        2 => {
            disk_rates(r);
            r.kill = [0, 10, 50][pick(3)];
        }
        _ => {
            disk_rates(r);
            net_rates(r);
            crash_rates(r);
            tamper_rates(r);
        }
    }
    net_benign(r);
    if pick(8) == 7 {
        w().fs.capacity = w().fs.files().iter().map(|f| f.1.len()).sum::<usize>() + pick(3000);
    }
    crowd(4, true);
    w().run();
    later(pick(3), true);
    // everybody else's files
    let now = w().fs.files();
    for (p, d) in &life().others {
        match now.iter().find(|x| &x.0 == p) {
            None => violate!("other-file-removed", "{} was removed", String::from_utf8_lossy(p)),
            Some(x) => check!(&x.1 == d, "other-file-changed", "{} was changed", String::from_utf8_lossy(p)),
        }
    }
    if ctx().probes.contains_key("cache file replaced") || !w().net.delivered.is_empty() {
        nontrivial();
    }
}

// ---- C05 ----------------------------------------------------------------------------------------
pub fn c05() {
    setup(&Cfg { cache: Cache::NotValid, usable_only: true });
    let r = &mut w().rates;
    benign_rates(r);
    net_benign(r);
    if pick(3) == 2 {
        net_rates(r);
    }
    r.kill = [0, 5, 30, 100][pick(4)];
    crowd(4, true);
    // somebody who is certain to finish
    span(|| start(1, 1 + pick(2), some_delay(), false));
    w().run();
    for _ in 0..pick(4) {
        w().net.up = pick(3) == 0;
        time_passes();
        crowd(2, true);
        w().run();
    }
    w().net.up = false;
    time_passes();
    span(|| start(1, 1 + pick(2), 0, false));
    w().run();
    no_panics();
    // from when on is the library available offline?
    let first = life().acqs.iter().filter(|a| a.actor_requests > 0 && matches!(a.got, Got::Edition(_) | Got::Text(_))).map(|a| a.end).min();
    let Some(first) = first else { return };
    let delivered: Vec<Vec<u8>> = w().net.delivered.iter().map(|d| body_text(&d.body)).collect();
    for (i, a) in life().acqs.iter().enumerate() {
        if a.start <= first || matches!(a.got, Got::Dead) {
            continue;
        }
        nontrivial();
        probe("offline acquisition after a download");
        check!(matches!(a.got, Got::Edition(_) | Got::Text(_)), "unavailable-offline", "acquisition {i} returned {} after an earlier one had downloaded the library", short(&a.got));
        check!(a.actor_requests == 0, "request-after-download", "acquisition {i} went to the network again after an earlier one had downloaded the library");
        let ok = match &a.got {
            Got::Edition(e) => delivered.iter().any(|d| d == life().eds[*e].text.as_bytes() || same_lib(d, life().eds[*e].text.as_bytes())),
            Got::Text(t) => delivered.contains(t),
            _ => false,
        };
        check!(ok, "not-downloaded", "acquisition {i} returned {} which was never downloaded", short(&a.got));
    }
}

// ---- C06 ----------------------------------------------------------------------------------------
pub fn c06() {
    setup(&Cfg { cache: Cache::Any, usable_only: pick(3) != 2 });
    let r = &mut w().rates;
    benign_rates(r);
    net_benign(r);
    if pick(5) != 0 {
        disk_rates(r);
    }
    if pick(3) != 2 {
        crash_rates(r);
        tamper_rates(r);
    } else {
        r.kill = [0, 5, 30, 100][pick(4)];
    }
    // mostly the server answers properly; otherwise only the number of requests is bounded until faults stop
    let proper = pick(4) != 3;
    if !proper {
        net_rates(r);
        if pick(4) == 3 {
            w().net.up = false;
            fault("network-down");
        }
    }
    let cap = w().fs.capacity;
    if pick(6) == 5 {
        w().fs.capacity = w().fs.files().iter().map(|f| f.1.len()).sum::<usize>() + pick(2000);
    }
    crowd(4, true);
    w().run();
    power_cut_between();
    later_healthy(pick(3));
    no_panics();
    let before = life().acqs.len();
    for (i, a) in life().acqs.iter().enumerate() {
        if matches!(a.got, Got::Dead) {
            continue;
        }
        check!(!proper || matches!(a.got, Got::Edition(_) | Got::Text(_) | Got::Unknown(_)), "not-recovered", "acquisition {i} returned {} although the server answered properly", short(&a.got));
        check!(a.actor_requests <= 1, "several-requests", "acquisition {i} made {} requests", a.actor_requests);
    }
    if faults_fired() || !life().initial.as_ref().map(|t| loads(t)).unwrap_or(false) {
        nontrivial();
    }
    // faults stop, the disk works
    w().faults_on = false;
    w().net.up = true;
    w().fs.capacity = cap;
    ev!("faults stop; cache is {}", describe_cache(life().cache.as_ref().and_then(|c| w().fs.content(c))));
    for k in 0..3 {
        time_passes();
        let p = start(1, 1, 0, false);
        w().run();
        let a = &life().acqs[before + k];
        let made = w().procs[p].requests;
        check!(matches!(a.got, Got::Edition(_) | Got::Text(_)), "not-recovered", "after faults had stopped an acquisition returned {}", short(&a.got));
        check!(made <= 1, "several-requests", "after faults had stopped an acquisition made {made} requests");
        if life().usable && k > 0 {
            check!(made == 0, "not-repaired", "the cache was not repaired: acquisition {} after faults had stopped made another request", k + 1);
            probe("recovered and then offline");
        }
    }
}
fn later_healthy(n: usize) {
    for _ in 0..n {
        time_passes();
        span(|| start(1, 1, 0, true));
        w().run();
    }
}
