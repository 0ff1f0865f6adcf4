// (included by hist.rs)

type Out0 = Out<()>;
fn rows_of(v: &[R]) -> Vec<RowBuf> {
    v.iter().map(|r| real(r)).collect()
}
/// What a list of bells extended to a stage is, if it is a row at all.
fn with_stage(r: &[usize], n: usize) -> Option<R> {
    let mut seen = vec![false; n];
    for &b in r {
        if b >= n || std::mem::replace(&mut seen[b], true) {
            return None;
        }
    }
    if seen[..r.len()].iter().any(|s| !s) {
        return None;
    }
    let mut v = r.to_vec();
    v.extend(r.len()..n);
    Some(v)
}
/// Lines of rows; sometimes one of them is no row or of another stage.
fn gen_lines(n: usize, other: usize) -> (String, Option<Vec<R>>) {
    let n = n.min(33);
    let mut lines = vec![];
    let mut rows = Some(vec![]);
    let mut k = small(5);
    if let Some(b) = big_len(n) {
        let many = many_rows(n, b);
        lines.extend(many.iter().map(|r| text(r)));
        rows = Some(many);
        k += b;
    }
    for i in lines.len()..k {
        let (t, r) = if chance(other / 3) { sloppy_text(n, other) } else { let r = gen_row(n); (text(&r), r) };
        let good = is_perm(&r) && (i == 0 || rows.as_ref().map_or(false, |v: &Vec<R>| v[0].len() == r.len()));
        match &mut rows {
            Some(v) if good => v.push(r),
            _ => rows = None,
        }
        lines.push(t);
    }
    if k == 0 {
        rows = None;
    }
    let nl = ["\n", "\r\n"][pick(2)];
    let mut s = lines.join(nl);
    if k > 0 && pick(2) == 1 && !lines[k - 1].is_empty() {
        s.push_str(nl);
    }
    // (a last line that is empty is no line at all)
    if k > 1 && lines[k - 1].is_empty() {
        rows = rows.filter(|_| false);
        s.push_str("11");
    }
    (s, rows)
}
fn mul_all(t: &[usize], rows: &[R]) -> Vec<R> {
    rows.iter().map(|r| mul(t, r)).collect()
}
fn range_text(r: &(std::ops::Bound<usize>, std::ops::Bound<usize>)) -> String {
    use std::ops::Bound::*;
    let a = match r.0 { Included(a) => format!("{a}"), Excluded(a) => format!(">{a}"), Unbounded => String::new() };
    let b = match r.1 { Included(a) => format!("={a}"), Excluded(a) => format!("{a}"), Unbounded => String::new() };
    format!("{a}..{b}")
}
fn res<T>(o: Option<T>, why: &str) -> Result<T, String> {
    o.ok_or(why.to_string())
}
/// The matched set of a mask that could come from real constraints (no bell twice, none out of stage).
fn proper(m: &[Option<usize>]) -> bool {
    let mut seen = vec![false; m.len()];
    m.iter().flatten().all(|&b| b < m.len() && !std::mem::replace(&mut seen[b], true))
}
fn m_matches(m: &[Option<usize>], r: &[usize]) -> bool {
    m.len() == r.len() && m.iter().zip(r).all(|(m, b)| m.map_or(true, |m| m == *b))
}
/// The only row a proper mask matches, if there is only one.
fn m_only(m: &[Option<usize>]) -> Option<R> {
    if !proper(m) || m.iter().filter(|b| b.is_none()).count() > 1 {
        return None;
    }
    let left = (0..m.len()).find(|b| !m.contains(&Some(*b)));
    Some(m.iter().map(|b| b.or(left).unwrap()).collect())
}
fn m_union(a: &[Option<usize>], b: &[Option<usize>]) -> Option<Vec<Option<usize>>> {
    if a.len() != b.len() {
        return None;
    }
    let mut v = vec![];
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let (Some(x), Some(y)) = (x, y) {
            if x != y {
                return None;
            }
        }
        for (p, q) in [(x, b), (y, a)] {
            if let Some(p) = p {
                if q.iter().enumerate().any(|(j, z)| j != i && *z == Some(*p)) {
                    return None;
                }
            }
        }
        v.push(x.or(*y));
    }
    Some(v)
}
fn m_real(m: &[Option<usize>]) -> Mask {
    Mask::parse(&m.iter().map(|b| b.map_or("x".to_string(), bell_name)).collect::<String>())
}
/// A row that a mask matches, if it is proper, otherwise any row.
fn m_row(m: &[Option<usize>]) -> R {
    let n = m.len();
    if !proper(m) {
        return gen_row(n);
    }
    let mut left: Vec<usize> = gen_row(n).into_iter().filter(|b| !m.contains(&Some(*b))).collect();
    m.iter().map(|b| b.unwrap_or_else(|| left.pop().unwrap())).collect()
}
fn gen_mask(n: usize) -> Vec<Option<usize>> {
    let n = n.min(33);
    let r = gen_row(n);
    let dense = pick(3);
    r.into_iter().map(|b| if pick(3) < dense { Some(b) } else { None }).collect()
}
fn bells_of(r: &[usize]) -> Vec<bellframe::Bell> {
    r.iter().map(|b| bell(*b)).collect()
}

impl Hist {
    fn taken_row(&mut self, i: usize) -> (RowBuf, R) {
        match self.take(i) {
            (Val::Row(r), Mod::Row(m)) => (r, m),
            _ => unreachable!(),
        }
    }
    fn taken_vec(&mut self, i: usize) -> (SameStageVec, usize, Vec<R>) {
        match self.take(i) {
            (Val::Vec(v), Mod::Vec(n, r)) => (v, n, r),
            _ => unreachable!(),
        }
    }
    fn taken_block(&mut self, i: usize) -> (Block, Vec<R>, Vec<usize>) {
        match self.take(i) {
            (Val::Block(v), Mod::Block(r, a)) => (v, r, a),
            _ => unreachable!(),
        }
    }
    /// A result that should be a given row (None: the call should not have succeeded).
    fn result(&mut self, op: &str, out: Out<RowBuf>, want: Option<R>) {
        match out {
            Out::Ok(r) => {
                if self.strict() && want.is_none() {
                    violate!(self.class(), "{op} made {r} though it cannot apply");
                }
                self.made(op, Val::Row(r), want.map(Mod::Row));
            }
            Out::Err(e) => {
                if self.strict() {
                    check!(want.is_none(), self.class(), "{op} failed: {e}");
                }
                probe("a constructor refused");
            }
            Out::Panic(p) => {
                if self.strict() && !p.injected {
                    violate!(self.class(), "{op} panicked: {} at {}", p.msg, p.loc);
                }
            }
        }
    }
    /// Drops a value that has become too long to be worth its time.
    fn outgrown(&mut self, i: usize) -> bool {
        let len = match &self.pool[i].1 {
            Mod::Vec(_, r) | Mod::Block(r, _) => r.len(),
            _ => 0,
        };
        let limit = if ctx().big == 2 { 20_000 } else { 1_500 };
        if len > limit {
            self.pool.swap_remove(i);
        }
        len > limit
    }
    fn make(&mut self, kind: Kind) {
        let n = gen_stage();
        let (fuse, other) = (self.fuse, self.other);
        match kind {
            Kind::Row | Kind::Shared => match pick(7) {
                0 => {
                    let r = gen_row(n);
                    self.made("from_vec", Val::Row(real(&r)), Some(Mod::Row(r)));
                }
                1 => {
                    let (s, r) = sloppy_text(n, other);
                    let out = call(0, || if pick(2) == 0 { RowBuf::parse(&s) } else { s.parse() });
                    ev!("parse({s:?}) -> {}", out.kind());
                    self.result(&format!("parse({s:?})"), out, Some(r).filter(|r| is_perm(r)));
                }
                2 => {
                    let (s, mut r) = sloppy_text(n, other);
                    let mut s = s;
                    if chance(300) {
                        let k = pick(r.len() + 1);
                        r.truncate(k);
                        s = text(&r);
                    }
                    let st = near_stage(n, other);
                    let out = call(0, || RowBuf::parse_with_stage(&s, stage(st)));
                    ev!("parse_with_stage({s:?}, {st}) -> {}", out.kind());
                    self.result(&format!("parse_with_stage({s:?}, {st})"), out, with_stage(&r, st));
                }
                3 | 4 => {
                    // bells from a caller's iterator, perhaps no row at all
                    let mut r = gen_row(near_stage(n, other));
                    match pick(8) {
                        6 | 7 => lookalike(&mut r, 256),
                        0 => {
                            r.pop();
                        }
                        1 => {
                            let (a, b) = (pick(r.len()), pick(r.len()));
                            r[a] = r[b];
                        }
                        2 => {
                            let a = pick(r.len());
                            r[a] = [r.len(), r.len() + 1, 70, 255, 300][pick(5)];
                        }
                        3 => r.insert(pick(r.len()), 0),
                        _ => {}
                    }
                    let what = pick(3);
                    let st = near_stage(n, other);
                    let out = call(fuse, || match what {
                        0 => RowBuf::from_bell_iter(Feed::new(bells_of(&r))),
                        1 => RowBuf::from_vec(bells_of(&r)),
                        _ => RowBuf::from_vec_with_stage(bells_of(&r), stage(st)),
                    });
                    let op = format!("{}({r:?}, {st})", ["from_bell_iter", "from_vec", "from_vec_with_stage"][what]);
                    ev!("{op} -> {}", out.kind());
                    let want = if what == 2 { with_stage(&r, st) } else { Some(r.clone()).filter(|r| is_perm(r)) };
                    if want.is_none() {
                        fault("bells-that-are-no-row");
                    }
                    self.result(&op, out, want);
                }
                5 => {
                    let out = call(0, || Ok::<_, String>(match pick(3) {
                        0 => RowBuf::rounds(stage(n)),
                        1 => RowBuf::backrounds(stage(n)),
                        _ => RowBuf::queens(stage(n)),
                    }));
                    // (which of them it is is the arithmetic's business)
                    if let Out::Ok(r) = out {
                        let m = of(&r);
                        self.made("rounds/backrounds/queens", Val::Row(r), Some(Mod::Row(m)));
                    }
                }
                _ => {
                    // a shared copy of a row in the pool
                    let i = self.get(Kind::Row);
                    let (r, m) = self.taken_row(i);
                    let shared = if pick(2) == 0 { plain(0, || Val::Rc(r.to_rc())) } else { plain(0, || Val::Arc(r.to_arc())) };
                    self.back("to_rc/to_arc", i, Val::Row(r), &shared.unit(), vec![ok(Mod::Row(m.clone()))]);
                    if let Out::Ok(s) = shared {
                        self.made("to_rc/to_arc", s, Some(Mod::Row(m)));
                    }
                }
            },
            Kind::Vec => match pick(5) {
                0 => self.made("SameStageVec::new", Val::Vec(SameStageVec::new(stage(n))), Some(Mod::Vec(n, vec![]))),
                1 => {
                    let cap = small(9);
                    self.made("with_capacity", Val::Vec(SameStageVec::with_capacity(stage(n), cap)), Some(Mod::Vec(n, vec![])));
                }
                2 => {
                    let r = gen_row(n);
                    self.made("from_row_buf", Val::Vec(SameStageVec::from_row_buf(real(&r))), Some(Mod::Vec(n, vec![r])));
                }
                3 => {
                    let (s, rows) = gen_lines(n, other.max(120));
                    let out = call(0, || SameStageVec::parse(&s));
                    ev!("SameStageVec::parse({s:?}) -> {}", out.kind());
                    match out {
                        Out::Ok(v) => {
                            if self.strict() && rows.is_none() {
                                violate!(self.class(), "parsing {s:?} succeeded");
                            }
                            let want = rows.map(|r| Mod::Vec(r[0].len(), r));
                            self.made("SameStageVec::parse", Val::Vec(v), want)
                        }
                        Out::Err(e) => {
                            if self.strict() {
                                check!(rows.is_none(), self.class(), "parsing {s:?} failed: {e}");
                            }
                        }
                        Out::Panic(p) => {
                            if self.strict() {
                                violate!(self.class(), "parsing {s:?} panicked: {} at {}", p.msg, p.loc);
                            }
                        }
                    }
                }
                _ => {
                    let cs = gen_changes(n, 6);
                    let start = gen_row(n);
                    let other_start = gen_row(near_stage(n, other));
                    let Ok(b) = PnBlock::from_vec(cs.iter().map(|c| to_pn(n, c)).collect()) else {
                        violate!("differs-from-the-model", "a valid block of place notation was rejected");
                    };
                    let s = if other_start.len() != n { other_start } else { start };
                    let out = call(0, || b.to_rows(real(&s)));
                    ev!("to_rows({}) -> {}", text(&s), out.kind());
                    match out {
                        Out::Ok(v) => {
                            if self.strict() && s.len() != n {
                                violate!(self.class(), "to_rows took a start row of another stage");
                            }
                            self.made("PnBlock::to_rows", Val::Vec(v), Some(Mod::Vec(n, changes_rows(&s, &cs))).filter(|_| s.len() == n));
                        }
                        Out::Err(e) => {
                            if self.focus == Focus::Atomic || self.strict() {
                                check!(s.len() != n, "error-without-a-cause", "to_rows failed: {e}");
                                check!(stage_errs(n, s.len()).contains(&e), "error-misdescribed", "to_rows reported {e}");
                            }
                        }
                        Out::Panic(p) => {
                            if self.strict() {
                                violate!(self.class(), "to_rows panicked: {} at {}", p.msg, p.loc);
                            }
                        }
                    }
                }
            },
            Kind::Block => {
                let rows = { let mut r = gen_rows(n, 7); if r.is_empty() && pick(4) < 3 { r.push(gen_row(n)); } r };
                match pick(5) {
                    0 => self.made("AnnotBlock::empty", Val::Block(Block::empty(stage(n))), Some(Mod::Block(vec![rounds(n)], vec![]))),
                    1 => {
                        let v = to_vec(n, &rows);
                        let out = plain(fuse, || Block::with_default_annots(v));
                        ev!("with_default_annots({} rows) -> {}", rows.len(), out.kind());
                        match out {
                            Out::Ok(b) => {
                                if self.strict() && rows.is_empty() {
                                    violate!(self.class(), "a block of no rows at all was made");
                                }
                                let k = rows.len().max(1) - 1;
                                self.made("with_default_annots", Val::Block(b), Some(Mod::Block(rows, vec![0; k])))
                            }
                            Out::Panic(p) if self.strict() && !p.injected => check!(rows.is_empty(), self.class(), "with_default_annots panicked: {} at {}", p.msg, p.loc),
                            _ => {}
                        }
                    }
                    2 => {
                        let (s, rows) = gen_lines(n, other.max(120));
                        let out = call(fuse, || Block::parse(&s));
                        ev!("AnnotBlock::parse({s:?}) -> {}", out.kind());
                        match out {
                            Out::Ok(b) => {
                                if self.strict() && rows.is_none() {
                                    violate!(self.class(), "parsing {s:?} succeeded");
                                }
                                let want = rows.map(|r| { let k = r.len() - 1; Mod::Block(r, vec![0; k]) });
                                self.made("AnnotBlock::parse", Val::Block(b), want);
                            }
                            Out::Err(e) => {
                                if self.strict() {
                                    check!(rows.is_none(), self.class(), "parsing {s:?} failed: {e}");
                                }
                            }
                            Out::Panic(p) => {
                                if self.strict() && !p.injected {
                                    violate!(self.class(), "parsing {s:?} panicked: {} at {}", p.msg, p.loc);
                                }
                            }
                        }
                    }
                    3 => {
                        let cs = gen_changes(n, 7);
                        let start = gen_row(n);
                        let Ok(b) = PnBlock::from_vec(cs.iter().map(|c| to_pn(n, c)).collect()) else {
                            violate!("differs-from-the-model", "a valid block of place notation was rejected");
                        };
                        let from_rounds = pick(3) == 0;
                        let out: Out<Block> = call(fuse, || if from_rounds { Ok(b.to_block_from_rounds()) } else { b.to_block(real(&start)) });
                        ev!("to_block -> {}", out.kind());
                        let s = if from_rounds { rounds(n) } else { start };
                        match out {
                            Out::Ok(b) => self.made("to_block", Val::Block(b), Some(Mod::Block(changes_rows(&s, &cs), vec![0; cs.len()]))),
                            Out::Panic(p) if p.injected => {}
                            o => {
                                if self.strict() {
                                    violate!(self.class(), "to_block ended in {}", o.kind());
                                }
                            }
                        }
                    }
                    _ => {
                        let v = to_vec(n, &rows);
                        let base = self.next_ann + 1;
                        self.next_ann += rows.len();
                        let out = call(fuse, || res(Block::with_annots_from_indices(v, |i| { tick(); Ann::new(base + i) }), "no rows"));
                        ev!("with_annots_from_indices({} rows) -> {}", rows.len(), out.kind());
                        match out {
                            Out::Ok(b) => {
                                if self.strict() && rows.is_empty() {
                                    violate!(self.class(), "a block of no rows at all was made");
                                }
                                let k = rows.len().max(1) - 1;
                                self.made("with_annots_from_indices", Val::Block(b), Some(Mod::Block(rows, (base..base + k).collect())))
                            }
                            Out::Err(_) => {
                                if self.strict() {
                                    check!(rows.is_empty(), self.class(), "with_annots_from_indices refused {} rows", rows.len());
                                }
                            }
                            Out::Panic(p) => {
                                if self.strict() && !p.injected {
                                    violate!(self.class(), "with_annots_from_indices panicked: {} at {}", p.msg, p.loc);
                                }
                            }
                        }
                    }
                }
            }
            Kind::Acc => {
                let r = gen_row(n);
                if pick(2) == 0 {
                    self.made("RowAccumulator::new", Val::Acc(RowAccumulator::new(real(&r))), Some(Mod::Row(r)));
                } else {
                    self.made("RowAccumulator::rounds", Val::Acc(RowAccumulator::rounds(stage(n))), Some(Mod::Row(rounds(n))));
                }
            }
            Kind::Mask => {
                let n = n.min(33);
                match pick(5) {
                    0 => self.made("Mask::empty", Val::Mask(Mask::empty(stage(n))), Some(Mod::Mask(vec![None; n]))),
                    1 => {
                        let r = gen_row(n);
                        let v = Mask::full_row(&real(&r));
                        self.made("Mask::full_row", Val::Mask(v), Some(Mod::Mask(r.into_iter().map(Some).collect())));
                    }
                    2 => {
                        let bs: Vec<usize> = (0..small(n)).map(|_| pick(n)).collect();
                        let mut m = vec![None; n];
                        for &b in &bs {
                            m[b] = Some(b);
                        }
                        let out = plain(fuse, || Mask::fix_bells(stage(n), Feed::new(bells_of(&bs))));
                        ev!("fix_bells({n}, {bs:?}) -> {}", out.kind());
                        match out {
                            Out::Ok(v) => self.made("Mask::fix_bells", Val::Mask(v), Some(Mod::Mask(m))),
                            Out::Panic(p) if self.strict() && !p.injected => violate!(self.class(), "fix_bells panicked: {} at {}", p.msg, p.loc),
                            _ => {}
                        }
                    }
                    3 => {
                        // possibly unsatisfiable
                        let mut m = gen_mask(n);
                        if chance(other.max(100)) {
                            let p = pick(n);
                            m[p] = Some(pick((n + 2).min(33)));
                        }
                        let mut s = String::new();
                        for b in &m {
                            if pick(8) == 7 {
                                s.push_str([" ", "-", "\t", "/", "\u{e9}"][pick(5)]);
                            }
                            match b {
                                Some(b) => s.push_str(&bell_name(*b)),
                                None => s.push_str(["x", "X", "."][pick(3)]),
                            }
                        }
                        let out = plain(0, || Mask::parse(&s));
                        match out {
                            Out::Ok(v) => self.made(&format!("Mask::parse({s:?})"), Val::Mask(v), Some(Mod::Mask(m))),
                            o => violate!("differs-from-the-model", "Mask::parse({s:?}) ended in {}", o.kind()),
                        }
                    }
                    _ => {
                        let m = gen_mask(n);
                        self.made("Mask::parse", Val::Mask(m_real(&m)), Some(Mod::Mask(m)));
                    }
                }
            }
            Kind::Pn => {
                let c = crate::lib_gen::gen_change(n.min(33));
                let n = n.min(33);
                match pick(4) {
                    0 => {
                        let s = crate::lib_gen::emit_change(n, &c);
                        if let Out::Ok(p) = call(0, || PlaceNot::parse(&s, stage(n))) {
                            self.made("PlaceNot::parse", Val::Pn(p), Some(Mod::Pn(n, c)));
                        }
                    }
                    1 => {
                        // anything at all
                        let s: String = (0..small(6)).map(|_| ["-", "x", "+", ",", "1", "2", "3", "4", "5", "7", "T", " ", "\u{e9}"][pick(13)]).collect();
                        if let Out::Ok(p) = call(0, || PlaceNot::parse(&s, stage(n))) {
                            self.made(&format!("PlaceNot::parse({s:?}, {n})"), Val::Pn(p), None);
                        }
                    }
                    2 => {
                        // between rows that need not be adjacent
                        let a = gen_row(n);
                        let b = if pick(2) == 0 { apply_change(&a, &c) } else { self.arg(n) };
                        if let Out::Ok(p) = call(0, || res(PlaceNot::pn_between(&real(&a), &real(&b)), "not adjacent")) {
                            self.made(&format!("pn_between({}, {})", text(&a), text(&b)), Val::Pn(p), None);
                        }
                    }
                    _ => {
                        if let Some(p) = PlaceNot::cross(stage(n)) {
                            self.made("PlaceNot::cross", Val::Pn(p), None);
                        }
                    }
                }
            }
            Kind::Pnb => {
                let n = n.min(33);
                let cs = gen_changes(n, 5);
                match pick(4) {
                    0 => {
                        let (s, full) = crate::lib_gen::gen_pn_block(n, 5);
                        if let Out::Ok(p) = call(0, || PnBlock::parse(&s, stage(n))) {
                            self.made(&format!("PnBlock::parse({s:?}, {n})"), Val::Pnb(p), Some(Mod::Pnb(n, full)));
                        }
                    }
                    1 => {
                        let s: String = (0..small(9)).map(|_| ["-", "x", "+", ",", "1", "2", "3", "4", "5", "7", "T", " ", ".", "\u{e9}"][pick(14)]).collect();
                        if let Out::Ok(p) = call(0, || PnBlock::parse(&s, stage(n))) {
                            self.made(&format!("PnBlock::parse({s:?}, {n})"), Val::Pnb(p), None);
                        }
                    }
                    _ => {
                        // a caller's iterator, perhaps with a change of another stage in it
                        let mut pns: Vec<PlaceNot> = cs.iter().map(|c| to_pn(n, c)).collect();
                        let m = near_stage(n, other);
                        let odd = pick(pns.len());
                        if m != n {
                            pns[odd] = to_pn(m, &crate::lib_gen::gen_change(m));
                        }
                        let bad = m != n && pns.len() > 1;
                        let out = call(fuse, || if pick(2) == 0 { PnBlock::from_iter(Feed::new(pns)) } else { PnBlock::from_vec(pns) });
                        ev!("PnBlock::from_iter -> {}", out.kind());
                        match out {
                            Out::Ok(p) => self.made("PnBlock::from_iter", Val::Pnb(p), None),
                            Out::Err(e) if self.focus == Focus::Atomic => {
                                check!(bad, "error-without-a-cause", "PnBlock::from_iter failed: {e}");
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }

    fn row_op(&mut self) {
        let i = self.get(Kind::Row);
        let (mut v, m) = self.taken_row(i);
        let n = m.len();
        let before = Mod::Row(m.clone());
        let same = || Mod::Row(m.clone());
        let b = self.arg(n);
        let rb = real(&b);
        let fits = b.len() == n;
        let errs = stage_errs(n, b.len());
        let mut out: Out0;
        let mut made: Option<(Out<RowBuf>, Option<R>)> = None;
        let op;
        let exps;
        match pick(15) {
            0 => {
                op = format!("mul_result({}, {})", text(&m), text(&b));
                let o = call(0, || v.mul_result(&rb));
                out = o.unit();
                exps = if fits { vec![ok(same())] } else { vec![err(same(), errs)] };
                made = Some((o, fits.then(|| mul(&m, &b))));
            }
            1 => {
                // products through the operators, which panic instead
                op = format!("*({}, {})", text(&m), text(&b));
                let o = plain(0, || match pick(4) {
                    0 => &v * &rb,
                    1 => &v * rb.as_row(),
                    2 => v.as_row() * &rb,
                    _ => v.as_row() * rb.as_row(),
                });
                out = o.unit();
                exps = if fits { vec![ok(same())] } else { vec![pan(same())] };
                if let Out::Ok(r) = o {
                    made = Some((Out::Ok(r), fits.then(|| mul(&m, &b))));
                }
            }
            2 | 3 => {
                // the receiver is the buffer written to
                let a = self.arg(n);
                let ra = real(&a);
                op = format!("mul_into({}, {}, buffer {})", text(&a), text(&b), text(&m));
                out = call(0, || ra.mul_into(&rb, &mut v)).unit();
                exps = if a.len() == b.len() { vec![ok(Mod::Row(mul(&a, &b)))] } else { vec![err(same(), stage_errs(a.len(), b.len()))] };
                if a.len() == b.len() && n != a.len() {
                    probe("a buffer of another stage was re-used");
                }
            }
            4 => {
                let a = self.arg(n);
                let ra = real(&a);
                op = format!("mul_into_row({}, {}, row {})", text(&a), text(&b), text(&m));
                out = call(0, || ra.mul_into_row(&rb, &mut v)).unit();
                let s = |x: usize| stage(x).to_string();
                let mut e = vec![];
                for (x, y, w) in [(a.len(), b.len(), "Can't multiply stage {} with {}"), (a.len(), n, "Can't write stage {} into {}"), (b.len(), n, "Can't write stage {} into {}")] {
                    if x != y {
                        for (x, y) in [(x, y), (y, x)] {
                            e.push(w.replacen("{}", &s(x), 1).replacen("{}", &s(y), 1));
                        }
                    }
                }
                exps = if e.is_empty() { vec![ok(Mod::Row(mul(&a, &b)))] } else { vec![err(same(), e)] };
            }
            5 => {
                op = format!("inv_into({}, row {})", text(&b), text(&m));
                out = call(0, || rb.inv_into(&mut v)).unit();
                exps = if fits { vec![ok(Mod::Row(inv(&b)))] } else { vec![err(same(), errs)] };
            }
            6 => {
                op = format!("inv_into_buf({}, buffer {})", text(&b), text(&m));
                out = plain(0, || rb.inv_into_buf(&mut v));
                exps = vec![ok(Mod::Row(inv(&b)))];
                if !fits {
                    probe("a buffer of another stage was re-used");
                }
            }
            7 => {
                op = format!("copy_into({}, buffer {})", text(&b), text(&m));
                out = plain(0, || if pick(2) == 0 { rb.copy_into(&mut v) } else { v.overwrite_from(&rb) });
                exps = vec![ok(Mod::Row(b.clone()))];
                if !fits {
                    probe("a buffer of another stage was re-used");
                }
            }
            8 => {
                let (x, y) = (pick(n + chance(100) as usize), pick(n));
                op = format!("swap({}, {x}, {y})", text(&m));
                out = plain(0, || match pick(3) {
                    0 => v.swap(x, y),
                    1 => v.as_mut_row().swap(x, y),
                    _ => { let r: &mut Row = v.borrow_mut(); r.swap(y, x) }
                });
                let mut w = m.clone();
                exps = if x < n { w.swap(x, y); vec![ok(Mod::Row(w))] } else { vec![pan(same())] };
            }
            9 => {
                let k = if chance(200) { 1 + pick(n) } else { n + small(6) };
                op = format!("extend_to_stage({}, {k})", text(&m));
                out = plain(0, || v.extend_to_stage(stage(k)));
                exps = if k >= n { vec![ok(Mod::Row((0..k).map(|p| *m.get(p).unwrap_or(&p)).collect()))] } else { vec![pan(same())] };
            }
            10 => {
                op = format!("parity({})", text(&m));
                let o = plain(0, || v.parity());
                out = o.unit();
                // documented: whatever is left behind must not be relied upon
                let left = of(&v);
                exps = vec![ok(Mod::Row(if is_perm(&left) && left.len() == n { left } else { m.clone() }))];
            }
            11 => {
                op = format!("inv({})", text(&m));
                let o = plain(0, || match pick(3) { 0 => v.inv(), 1 => !&v, _ => !v.as_row() });
                out = o.unit();
                exps = vec![ok(same())];
                made = Some((o, Some(inv(&m))));
            }
            12 => {
                let e = [0, 1, 2, 3, -1, -2, 5, -7][pick(8)];
                op = format!("pow({}, {e})", text(&m));
                let o = plain(0, || if e >= 0 && pick(2) == 0 { v.pow_u(e as usize) } else { v.pow_i(e) });
                out = o.unit();
                exps = vec![ok(same())];
                made = Some((o, Some(pow(&m, e))));
            }
            13 => {
                let xa = pick(2) == 0;
                op = format!("solve({}, {}, xa={xa})", text(&m), text(&b));
                let o = call(0, || if xa { Row::solve_xa_equals_b(&v, &rb) } else { Row::solve_ax_equals_b(&v, &rb) });
                out = o.unit();
                exps = if fits { vec![ok(same())] } else { vec![err(same(), errs)] };
                made = Some((o, fits.then(|| if xa { mul(&b, &inv(&m)) } else { mul(&inv(&m), &b) })));
            }
            _ => {
                // a change applied to the row
                let k = near_stage(n, self.other);
                let c = crate::lib_gen::gen_change(k);
                let pn = to_pn(k, &c);
                op = format!("permute({}, stage {k} places {c:?})", text(&m));
                let want = if k == n { Some(apply_change(&m, &c)) } else { None };
                if pick(2) == 0 {
                    out = call(0, || pn.permute(&mut v)).unit();
                    exps = match &want { Some(w) => vec![ok(Mod::Row(w.clone()))], None => vec![err(same(), stage_errs(n, k))] };
                } else {
                    let o = call(0, || pn.permute_new(&v));
                    out = o.unit();
                    exps = if want.is_some() { vec![ok(same())] } else { vec![err(same(), stage_errs(n, k))] };
                    made = Some((o, want));
                }
            }
        }
        let _ = &before;
        if let (Some((Out::Ok(_), None)), true) = (&made, self.strict()) {
            violate!(self.class(), "{op} succeeded though its stages do not match");
        }
        self.back(&op, i, Val::Row(v), &out, exps);
        if let Some((Out::Ok(r), want)) = made {
            self.made(&op, Val::Row(r), want.map(Mod::Row));
        }
        self.others(&op);
        out = Out::Ok(());
        let _ = out;
    }

    fn acc_op(&mut self) {
        let i = self.get(Kind::Acc);
        let (v, m) = self.take(i);
        let (Val::Acc(mut v), Mod::Row(m)) = (v, m) else { unreachable!() };
        let n = m.len();
        let b = self.arg(n);
        let rb = real(&b);
        let fits = b.len() == n;
        let same = || Mod::Row(m.clone());
        let errs = stage_errs(n, b.len());
        let (op, out, exps);
        match pick(8) {
            0 | 1 => {
                op = format!("accumulate({}, {})", text(&m), text(&b));
                out = call(0, || v.accumulate(&rb)).unit();
                exps = if fits { vec![ok(Mod::Row(mul(&m, &b)))] } else { vec![err(same(), errs)] };
            }
            2 | 3 => {
                op = format!("pre_accumulate({}, {})", text(&m), text(&b));
                out = call(0, || v.pre_accumulate(&rb)).unit();
                exps = if fits { vec![ok(Mod::Row(mul(&b, &m)))] } else { vec![err(same(), errs)] };
            }
            4 => {
                op = format!("set({}, {})", text(&m), text(&b));
                out = plain(0, || v.set(&rb));
                exps = vec![ok(Mod::Row(b.clone()))];
                if !fits {
                    probe("a buffer of another stage was re-used");
                }
            }
            5 => {
                op = format!("*=({}, {})", text(&m), text(&b));
                out = plain(0, || if pick(2) == 0 { v *= &rb } else { v *= rb.as_row() });
                exps = if fits { vec![ok(Mod::Row(mul(&m, &b)))] } else { vec![pan(same())] };
            }
            6 => {
                op = format!("accumulator.clone({})", text(&m));
                let o = plain(0, || v.clone());
                out = o.unit();
                exps = vec![ok(same())];
                if let Out::Ok(c) = o {
                    self.made(&op, Val::Acc(c), Some(same()));
                }
            }
            _ => {
                op = format!("into_total({})", text(&m));
                let o = plain(0, move || v.into_total());
                let out = o.unit();
                if let Out::Ok(r) = o {
                    self.made(&op, Val::Row(r), Some(same()));
                }
                self.back(&op, i, Val::Gone, &out, vec![ok(Mod::Gone)]);
                self.others(&op);
                return;
            }
        }
        self.back(&op, i, Val::Acc(v), &out, exps);
        self.others(&op);
    }

    fn vec_op(&mut self) {
        let i = self.get(Kind::Vec);
        if self.outgrown(i) {
            return;
        }
        let (mut v, n, m) = self.taken_vec(i);
        let same = || Mod::Vec(n, m.clone());
        let with = |add: &[R]| Mod::Vec(n, m.iter().chain(add).cloned().collect());
        let k = m.len();
        let (op, out): (String, Out0);
        let exps;
        let other = self.other;
        match pick(15) {
            0 | 1 => {
                let b = self.arg(n);
                op = format!("push({})", text(&b));
                out = call(0, || v.push(&real(&b)));
                exps = if b.len() == n { vec![ok(with(&[b]))] } else { vec![err(same(), stage_errs(n, b.len()))] };
            }
            2 => {
                op = "pop()".to_string();
                let o = plain(0, || v.pop());
                out = o.unit();
                exps = vec![ok(Mod::Vec(n, m[..k.max(1) - 1].to_vec()))];
                if let Out::Ok(r) = o {
                    let got = r.as_ref().map(|r| of(r));
                    if self.strict() {
                        check!(got.as_ref() == m.last(), self.class(), "pop returned {got:?} instead of {:?}", m.last());
                    }
                    if let Some(r) = r {
                        self.made(&op, Val::Row(r), None);
                    }
                }
            }
            3 | 4 => {
                // a stream of rows, possibly with one of the wrong stage in it
                let mut rows = gen_rows(n, 6);
                if rows.len() < 6 && chance(other) {
                    let at = pick(rows.len() + 1);
                    let w = near_stage(n, 1000);
                    rows.insert(at, gen_row(w));
                    if w != n {
                        fault("wrong-stage-in-the-stream");
                    }
                }
                let bad: Vec<usize> = rows.iter().map(|r| r.len()).filter(|l| *l != n).collect();
                let reals = rows_of(&rows);
                let shifty = !self.strict() && pick(2) == 1;
                let taken = Cell::new(0);
                op = format!("extend({})", rows.iter().map(|r| text(r)).collect::<Vec<_>>().join(" "));
                if shifty {
                    // conversions which change between passes
                    let mut e: Vec<String> = bad.iter().flat_map(|b| stage_errs(n, *b)).collect();
                    let items: Vec<Shifty> = reals
                        .iter()
                        .map(|r| {
                            if !chance(300) {
                                return Shifty::new(vec![r.clone()]);
                            }
                            let w = near_stage(n, 800);
                            if w != n {
                                e.extend(stage_errs(n, w));
                            }
                            Shifty::new(vec![r.clone(), real(&gen_row(w))])
                        })
                        .collect();
                    out = call(self.fuse, || v.extend(Feed::new(items)));
                    exps = vec![err(same(), e), ok(same())];
                } else {
                    let f = Feed::new(reals);
                    let y = f.yielded;
                    out = call(self.fuse, || v.extend(f));
                    taken.set(y.get());
                    let mut x = vec![];
                    if bad.is_empty() {
                        x.push(ok(with(&rows)));
                    } else {
                        x.push(err(same(), bad.iter().flat_map(|b| stage_errs(n, *b)).collect()));
                    }
                    let interrupted = matches!(&out, Out::Panic(p) if p.injected);
                    for j in 0..=if !interrupted { 0 } else { taken.get() }.min(rows.iter().position(|r| r.len() != n).unwrap_or(rows.len())) {
                        x.push(cut(with(&rows[..j])));
                    }
                    exps = x;
                }
            }
            5 => {
                let w = near_stage(n, other);
                let rows = gen_rows(w, 5);
                op = format!("extend_from_buf({w}:{})", rows.len());
                let o = to_vec(w, &rows);
                out = call(0, || v.extend_from_buf(&o));
                exps = if w == n { vec![ok(with(&rows))] } else { vec![err(same(), stage_errs(n, w))] };
            }
            6 | 7 => {
                let w = near_stage(n, other);
                let rows = gen_rows(w, 5);
                let o = to_vec(w, &rows);
                let t = self.arg(n);
                let (r, lo, hi) = if pick(3) == 0 { ((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded), 0, rows.len()) } else { range_of(rows.len()) };
                op = format!("extend_range_transposed({}, {w}:{} rows, {})", text(&t), rows.len(), range_text(&r));
                let whole = matches!(r, (std::ops::Bound::Unbounded, std::ops::Bound::Unbounded)) && pick(2) == 0;
                let rt = real(&t);
                out = call(0, || if whole { v.extend_transposed(&rt, &o) } else { v.extend_range_transposed(&rt, &o, r) });
                exps = if t.len() != n || w != n {
                    let mut e = vec![];
                    if t.len() != n { e.extend(stage_errs(n, t.len())) }
                    if w != n { e.extend(stage_errs(n, w)) }
                    if t.len() != w { e.extend(stage_errs(t.len(), w)) }
                    let mut x = vec![err(same(), e)];
                    if lo > hi || hi > rows.len() { x.push(pan(same())) }
                    x
                } else if lo > hi {
                    vec![pan(same()), ok(same())]
                } else if hi > rows.len() {
                    vec![pan(same())]
                } else {
                    vec![ok(with(&mul_all(&t, &rows[lo..hi])))]
                };
            }
            8 => {
                let t = self.arg(n);
                let (r, lo, hi) = range_of(k);
                op = format!("extend_transposed_from_within({}, {})", range_text(&r), text(&t));
                out = call(0, || v.extend_transposed_from_within(r, &real(&t)));
                exps = if t.len() != n {
                    let mut x = vec![err(same(), stage_errs(n, t.len()))];
                    if lo > hi || hi > k { x.push(pan(same())) }
                    x
                } else if lo > hi {
                    vec![pan(same()), ok(same())]
                } else if hi > k {
                    vec![pan(same())]
                } else {
                    vec![ok(with(&mul_all(&t, &m[lo..hi])))]
                };
            }
            9 => {
                let t = self.arg(n);
                op = format!("pre_multiply({})", text(&t));
                #[allow(deprecated)]
                let o = call(0, || if pick(3) == 2 { v.permute(&real(&t)) } else { v.pre_multiply(&real(&t)) });
                out = o;
                exps = if t.len() == n { vec![ok(Mod::Vec(n, mul_all(&t, &m)))] } else { vec![err(same(), stage_errs(n, t.len()))] };
            }
            10 => {
                let t = self.arg(n);
                op = format!("pre_multiplied({})", text(&t));
                let o = call(0, || v.pre_multiplied(&real(&t)));
                out = o.unit();
                exps = if t.len() == n { vec![ok(same())] } else { vec![err(same(), stage_errs(n, t.len()))] };
                if let Out::Ok(w) = o {
                    self.made(&op, Val::Vec(w), Some(Mod::Vec(n, mul_all(&t, &m))).filter(|_| t.len() == n));
                }
            }
            11 => {
                // consumes the receiver
                let at = match pick(8) { 6 => k + 1 + pick(3), 7 => usize::MAX / [1, 2, 7, n][pick(4)], _ => pick(k + 1) };
                op = format!("split({at})");
                let keep = v.clone();
                let o = call(0, move || res(v.split(at), "out of range"));
                match o {
                    Out::Ok((a, b)) => {
                        if self.strict() && at > k {
                            violate!(self.class(), "split({at}) of {k} rows succeeded");
                        }
                        let at = at.min(k);
                        self.back(&op, i, Val::Gone, &Out::Ok(()), vec![ok(Mod::Gone)]);
                        self.made(&op, Val::Vec(a), Some(Mod::Vec(n, m[..at].to_vec())));
                        self.made(&op, Val::Vec(b), Some(Mod::Vec(n, m[at..].to_vec())));
                    }
                    Out::Err(_) => {
                        if self.strict() {
                            check!(at > k, self.class(), "split({at}) of {k} rows returned None");
                        }
                        self.back(&op, i, Val::Vec(keep), &Out::Ok(()), vec![ok(same())]);
                    }
                    Out::Panic(p) => {
                        if self.strict() {
                            violate!(self.class(), "split({at}) of {k} rows panicked: {} at {}", p.msg, p.loc);
                        }
                        self.back(&op, i, Val::Vec(keep), &Out::Ok(()), vec![ok(same())]);
                    }
                }
                self.others(&op);
                return;
            }
            12 => {
                // an edit in place
                let (which, at) = match pick(4) { 0 => (0, 0), 1 => (1, k.wrapping_sub(1)), 2 => (2, pick(k + 2)), _ => (2, if pick(4) == 3 { usize::MAX / n } else { pick(k + 1) }) };
                let (x, y) = (pick(n), pick(n));
                op = format!("{}({at}) swap {x} {y}", ["first_mut", "last_mut", "get_mut"][which]);
                let o = plain(0, || {
                    let r = match which { 0 => v.first_mut(), 1 => v.last_mut(), _ => v.get_mut(at) };
                    r.map(|r| { let was = of(r); r.swap(x, y); was })
                });
                out = o.unit();
                let mut w = m.clone();
                if let Some(r) = w.get_mut(at) {
                    r.swap(x, y);
                }
                exps = vec![ok(Mod::Vec(n, w))];
                if let (Out::Ok(got), true) = (&o, self.strict()) {
                    check!(got.as_ref() == m.get(at), self.class(), "{op} gave {got:?} instead of {:?}", m.get(at));
                }
            }
            13 => {
                op = "clone()".to_string();
                let o = plain(0, || v.clone());
                out = o.unit();
                exps = vec![ok(same())];
                if let Out::Ok(c) = o {
                    self.made(&op, Val::Vec(c), Some(same()));
                }
            }
            _ => {
                op = "look()".to_string();
                self.back(&op, i, Val::Vec(v), &Out::Ok(()), vec![ok(Mod::Vec(n, m.clone()))]);
                self.deep(i);
                return;
            }
        }
        self.back(&op, i, Val::Vec(v), &out, exps);
        self.others(&op);
    }

    fn block_op(&mut self) {
        let i = self.get(Kind::Block);
        if self.outgrown(i) {
            return;
        }
        let (mut v, m, a) = self.taken_block(i);
        let n = m[0].len();
        let k = a.len();
        let same = || Mod::Block(m.clone(), a.clone());
        let (op, out): (String, Out0);
        let exps;
        // all ways of adding rows lo..hi of a source
        let grown = |rows: &[R], ann: &[usize], lo: usize, hi: usize| -> Mod {
            let t = mul(m.last().unwrap(), &inv(&rows[lo]));
            let mut r = m[..k].to_vec();
            r.extend(mul_all(&t, &rows[lo..=hi]));
            Mod::Block(r, a.iter().chain(&ann[lo..hi]).cloned().collect())
        };
        let grow_exps = |rows: &[R], ann: &[usize], lo: usize, hi: usize, out: &Out0| -> Vec<Exp> {
            let len = ann.len();
            if lo > hi {
                vec![pan(same()), ok(same())]
            } else if hi > len {
                vec![pan(same())]
            } else {
                let mut x = vec![ok(grown(rows, ann, lo, hi))];
                let interrupted = matches!(out, Out::Panic(p) if p.injected);
                for j in lo..=if interrupted { hi } else { lo } {
                    x.push(cut(grown(rows, ann, lo, j)));
                }
                x.push(cut(same()));
                x
            }
        };
        match pick(14) {
            0..=3 => {
                let w = near_stage(n, self.other);
                let (rows, ann): (Vec<R>, Vec<usize>) = if pick(4) == 3 && w == n {
                    (m.clone(), a.clone()) // itself
                } else {
                    let mut rows = gen_rows(w, 6);
                    rows.push(gen_row(w));
                    let base = self.next_ann;
                    self.next_ann += rows.len();
                    let l = rows.len() - 1;
                    (rows, (base..base + l).collect())
                };
                let Some(o) = Block::with_annots_from_indices(to_vec(w, &rows), |i| Ann::new(ann[i])) else { unreachable!() };
                let whole = pick(3) == 0;
                let (r, lo, hi) = if whole { ((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded), 0, ann.len()) } else { range_of(ann.len()) };
                op = format!("extend_range({w}:{} rows, {})", rows.len(), range_text(&r));
                out = call(self.fuse, || if whole && pick(2) == 0 { v.extend(&o) } else { v.extend_range(&o, r) });
                exps = if w != n {
                    let mut x = vec![err(same(), stage_errs(n, w)), cut(same())];
                    if lo > hi || hi > ann.len() { x.push(pan(same())) }
                    x
                } else {
                    grow_exps(&rows, &ann, lo, hi, &out)
                };
                match guard(|| observe(&Val::Block(o))) {
                    Ok(Ok(got)) => check!(self.focus == Focus::Valid || got == Mod::Block(rows, ann), self.class(), "{op} changed its argument"),
                    _ => violate!("invalid-value", "after {op} its argument is not a valid block"),
                }
            }
            4 | 5 => {
                let (r, lo, hi) = range_of(k);
                op = format!("extend_from_within({})", range_text(&r));
                out = plain(self.fuse, || v.extend_from_within(r));
                exps = grow_exps(&m, &a, lo, hi, &out);
            }
            6 => {
                let t = self.arg(n);
                op = format!("pre_multiply({})", text(&t));
                #[allow(deprecated)]
                let o = call(0, || if pick(3) == 2 { v.permute(&real(&t)) } else { v.pre_multiply(&real(&t)) });
                out = o;
                exps = if t.len() == n { vec![ok(Mod::Block(mul_all(&t, &m), a.clone()))] } else { vec![err(same(), stage_errs(n, t.len()))] };
            }
            7 => {
                let at = pick(k + 2);
                let new = self.ann();
                let id = new.id;
                op = format!("get_annot_mut({at}) = {id}");
                out = plain(0, || {
                    if let Some(x) = v.get_annot_mut(at) {
                        *x = new;
                    }
                });
                let mut b = a.clone();
                if at < k {
                    b[at] = id;
                }
                exps = vec![ok(Mod::Block(m.clone(), b))];
            }
            8 => {
                // consuming: map the annotations
                let base = self.next_ann + 1;
                self.next_ann += 1000;
                let which = pick(3);
                op = format!("map_annots({which})");
                let seen = std::cell::RefCell::new(vec![]);
                let o: Out<Block> = match which {
                    0 => plain(self.fuse, || v.map_annots(|x| { tick(); x.check(); Ann::new(x.id + base) })),
                    1 => plain(self.fuse, || v.map_annots_with_index(|i, x| { tick(); x.check(); seen.borrow_mut().push((i, x.id)); Ann::new(x.id + base) })),
                    _ => {
                        let r = plain(self.fuse, || v.clone_map_annots_with_index(|i, x| { tick(); x.check(); seen.borrow_mut().push((i, x.id)); Ann::new(x.id + base) }));
                        let back_out = r.unit();
                        self.back(&op, i, Val::Block(v), &back_out, vec![ok(same()), cut(same())]);
                        if let Out::Ok(b) = r {
                            if self.strict() {
                                check!(passed(&seen, &a), self.class(), "{op} passed the indices and annotations {:?} instead of those of {a:?}", seen.borrow());
                            }
                            self.made(&op, Val::Block(b), Some(Mod::Block(m.clone(), a.iter().map(|x| x + base).collect())));
                        }
                        self.others(&op);
                        return;
                    }
                };
                if self.strict() && which == 1 && matches!(o, Out::Ok(_)) {
                    check!(passed(&seen, &a), self.class(), "{op} passed the indices and annotations {:?} instead of those of {a:?}", seen.borrow());
                }
                if let (Out::Panic(p), true) = (&o, self.strict()) {
                    check!(p.injected, self.class(), "{op} panicked: {} at {}", p.msg, p.loc);
                }
                self.pool[i].0 = Val::Gone;
                self.pool.swap_remove(i);
                if let Out::Ok(b) = o {
                    self.made(&op, Val::Block(b), Some(Mod::Block(m.clone(), a.iter().map(|x| x + base).collect())));
                }
                self.others(&op);
                return;
            }
            9 | 10 => {
                let at = match pick(6) { 5 => k + 1 + pick(3), 4 => usize::MAX / [1, 2, 5, n][pick(4)], _ => pick(k + 1) };
                op = format!("split({at})");
                let o = call(0, move || res(v.split(at), "out of range"));
                self.pool[i].0 = Val::Gone;
                self.pool.swap_remove(i);
                match o {
                    Out::Ok((x, y)) => {
                        if self.strict() && at > k {
                            violate!(self.class(), "split({at}) of a block of {k} rows succeeded");
                        }
                        let at = at.min(k);
                        self.made(&op, Val::Block(x), Some(Mod::Block(m[..=at].to_vec(), a[..at].to_vec())));
                        self.made(&op, Val::Block(y), Some(Mod::Block(m[at..].to_vec(), a[at..].to_vec())));
                    }
                    Out::Err(_) => {
                        if self.strict() {
                            check!(at > k, self.class(), "split({at}) of a block of {k} rows returned None");
                        }
                    }
                    Out::Panic(p) => {
                        if self.strict() {
                            violate!(self.class(), "split({at}) panicked: {} at {}", p.msg, p.loc);
                        }
                    }
                }
                self.others(&op);
                return;
            }
            11 => {
                op = "clone()".to_string();
                let o = plain(self.fuse, || v.clone());
                out = o.unit();
                exps = vec![ok(same()), cut(same())];
                if let Out::Ok(c) = o {
                    self.made(&op, Val::Block(c), Some(same()));
                }
            }
            12 => {
                op = "into_row_vec()".to_string();
                let o = plain(0, move || v.into_row_vec());
                self.pool[i].0 = Val::Gone;
                self.pool.swap_remove(i);
                match o {
                    Out::Ok(r) => self.made(&op, Val::Vec(r), Some(Mod::Vec(n, m))),
                    o => {
                        if self.strict() {
                            violate!(self.class(), "into_row_vec ended in {}", o.kind());
                        }
                    }
                }
                self.others(&op);
                return;
            }
            _ => {
                op = "look()".to_string();
                self.back(&op, i, Val::Block(v), &Out::Ok(()), vec![ok(Mod::Block(m.clone(), a.clone()))]);
                self.deep(i);
                return;
            }
        }
        self.back(&op, i, Val::Block(v), &out, exps);
        self.others(&op);
    }

    fn mask_op(&mut self) {
        let i = self.get(Kind::Mask);
        let (v, m) = self.take(i);
        let (Val::Mask(mut v), Mod::Mask(m)) = (v, m) else { unreachable!() };
        let n = m.len();
        let same = || Mod::Mask(m.clone());
        let (op, out): (String, Out0);
        let exps;
        match pick(9) {
            0..=3 => {
                // fix a bell, possibly at a place that has one, possibly one of another stage
                let b = if self.focus != Focus::Masks && chance(50) { n + pick(2) } else { pick(n) };
                let home = pick(3) == 0;
                let p = if home { b } else { pick(n + chance(30) as usize) };
                op = format!("{}({}, {b}, {p})", if home { "fix" } else { "set_bell" }, same().show());
                out = call(0, || {
                    let r = if home { v.fix(bell(b)) } else { v.set_bell(bell(b), p) };
                    r.map_err(|e| format!("{e:?}"))
                });
                let at: Vec<usize> = (0..n).filter(|q| m[*q] == Some(b)).collect();
                exps = if at.is_empty() {
                    if p < n {
                        let mut w = m.clone();
                        w[p] = Some(b);
                        if m[p].is_some() {
                            probe("a bell took the place of another");
                        }
                        vec![ok(Mod::Mask(w))]
                    } else {
                        vec![pan(same())]
                    }
                } else if at == [p] {
                    vec![ok(same())]
                } else if at.contains(&p) {
                    vec![ok(same()), err_any(same())]
                } else {
                    vec![err_any(same())]
                };
            }
            4 => {
                let w = near_stage(n, self.other).min(33);
                let mut b = gen_mask(w);
                if w == n && pick(2) == 0 {
                    // mostly agreeing
                    let r = m_row(&m);
                    b = r.iter().map(|b| if pick(2) == 0 { Some(*b) } else { None }).collect();
                }
                let rb = m_real(&b);
                op = format!("combine({}, {})", same().show(), Mod::Mask(b.clone()).show());
                let swapped = pick(2) == 1;
                let o = call(0, || res(if swapped { rb.combine(&v) } else { v.combine(&rb) }, "not compatible"));
                let comp = plain(0, || if swapped { rb.is_compatible_with(&v) } else { v.is_compatible_with(&rb) });
                let u = m_union(&m, &b);
                let good = proper(&m) && proper(&b);
                if self.strict() {
                    match (&o, &comp) {
                        (Out::Ok(_), Out::Ok(c)) => {
                            check!(*c, self.class(), "{op}: combines masks called incompatible");
                            check!(u.is_some() || !good, self.class(), "{op}: incompatible masks were combined");
                        }
                        (Out::Err(_), Out::Ok(c)) => {
                            check!(!*c, self.class(), "{op}: does not combine masks called compatible");
                            check!(u.is_none() || !good, self.class(), "{op}: compatible masks were not combined");
                        }
                        _ => violate!(self.class(), "{op}: ended in {} and {}", o.kind(), comp.kind()),
                    }
                    // the subset relation
                    for (x, y, rx, ry) in [(&m, &b, &v, &rb), (&b, &m, &rb, &v)] {
                        if let Out::Ok(got) = plain(0, || rx.is_subset_of(ry)) {
                            if proper(x) && (proper(y) || x.len() != y.len()) {
                                let want = x.len() == y.len() && match m_only(x) { Some(r) => m_matches(y, &r), None => x.iter().zip(y.iter()).all(|(p, q)| q.is_none() || p == q) };
                                check!(got == want, self.class(), "is {} a subset of {}: {got}", Mod::Mask(x.clone()).show(), Mod::Mask(y.clone()).show());
                            }
                        } else {
                            violate!(self.class(), "{op}: is_subset_of panicked");
                        }
                    }
                }
                out = Out::Ok(());
                exps = vec![ok(same())];
                if let Out::Ok(c) = o {
                    // (combining unsatisfiable masks: whatever it is, it is as unsatisfiable)
                    self.made(&op, Val::Mask(c), u.filter(|_| good).map(Mod::Mask));
                }
            }
            5 | 6 => {
                let r = self.arg(n);
                let rr = real(&r);
                let left = pick(2) == 0;
                op = format!("{}({}, {})", if left { "row*mask" } else { "mask*row" }, same().show(), text(&r));
                let o = plain(0, || if left { rr.as_row() * &v } else { &v * rr.as_row() });
                let inside = m.iter().flatten().all(|b| *b < n);
                out = match &o { Out::Panic(_) => o.unit(), _ => Out::Ok(()) };
                exps = if r.len() != n || (left && !inside) { vec![pan(same())] } else { vec![ok(same())] };
                if let Out::Ok(c) = o {
                    let want = if r.len() != n || (left && !inside) {
                        None
                    } else if left {
                        Some(m.iter().map(|b| b.map(|b| r[b])).collect())
                    } else {
                        Some(r.iter().map(|b| m[*b]).collect())
                    };
                    self.made(&op, Val::Mask(c), want.map(Mod::Mask));
                }
            }
            7 => {
                op = "clone()".to_string();
                out = Out::Ok(());
                exps = vec![ok(same())];
                let c = v.clone();
                self.made(&op, Val::Mask(c), Some(same()));
            }
            _ => {
                op = "look()".to_string();
                let w = same();
                self.back(&op, i, Val::Mask(v), &Out::Ok(()), vec![ok(w)]);
                self.deep(i);
                return;
            }
        }
        self.back(&op, i, Val::Mask(v), &out, exps);
        self.others(&op);
    }

    fn pn_op(&mut self) {
        if pick(2) == 0 {
            let i = self.get(Kind::Pn);
            let (v, m) = self.take(i);
            let (Val::Pn(v), Mod::Pn(n, p)) = (v, m) else { unreachable!() };
            let r = self.arg(n);
            let mut rr = real(&r);
            let op = format!("permute(stage {n} places {p:?}, {})", text(&r));
            let o = call(0, || if pick(2) == 0 { v.permute(&mut rr) } else { v.permute_new(&rr).map(|x| rr = x) });
            let exps = if r.len() == n { vec![ok(Mod::Pn(n, p.clone()))] } else { vec![err(Mod::Pn(n, p.clone()), stage_errs(n, r.len()))] };
            let failed = matches!(o, Out::Err(_));
            self.back(&op, i, Val::Pn(v), &o, exps);
            if failed && self.focus == Focus::Atomic {
                check!(of(&rr) == r, self.class(), "{op} failed but changed the row to {rr}");
            }
            self.made(&op, Val::Row(rr), None);
            self.others(&op);
        } else {
            let i = self.get(Kind::Pnb);
            let (v, m) = self.take(i);
            let (Val::Pnb(v), Mod::Pnb(n, p)) = (v, m) else { unreachable!() };
            let r = self.arg(n);
            let op = format!("to_block(stage {n}, {})", text(&r));
            let same = Mod::Pnb(n, p.clone());
            let exps = if r.len() == n { vec![ok(same.clone()), cut(same)] } else { vec![err(same, stage_errs(n, r.len()))] };
            if pick(2) == 0 {
                let o: Out<Block> = call(self.fuse, || v.to_block(real(&r)));
                self.back(&op, i, Val::Pnb(v), &o.unit(), exps);
                if let Out::Ok(b) = o {
                    self.made(&op, Val::Block(b), None);
                }
            } else {
                let o = call(0, || v.to_rows(real(&r)));
                self.back(&op, i, Val::Pnb(v), &o.unit(), exps);
                if let Out::Ok(b) = o {
                    self.made(&op, Val::Vec(b), None);
                }
            }
            self.others(&op);
        }
    }

    /// Everything that can be read from a value agrees with its model.
    fn deep(&mut self, i: usize) {
        let c = self.class();
        let (v, m) = &self.pool[i];
        if !self.strict() {
            return;
        }
        match (v, m) {
            (Val::Vec(v), Mod::Vec(n, rows)) => {
                let (n, k) = (*n, rows.len());
                check!(v.len() == k && v.is_empty() == (k == 0), c, "length {} of {k} rows, is_empty {}", v.len(), v.is_empty());
                for j in 0..k {
                    check!(v.get(j).map(of).as_ref() == Some(&rows[j]), c, "get({j}) of {}", m.show());
                    check!(must("indexing", || of(&v[j])) == rows[j], c, "[{j}] of {}", m.show());
                }
                let far = match pick(4) { 0 => k, 1 => k + 1 + pick(5), 2 => usize::MAX, _ => (usize::MAX / n).saturating_add(pick(2)) };
                match guard(|| v.get(far).map(of)) {
                    Ok(g) => check!(g.is_none() || far < k, c, "get({far}) of {k} rows is {g:?}"),
                    Err(p) => violate!(c, "get({far}) of {k} rows panicked: {}", p.msg),
                }
                if far >= k {
                    check!(guard(|| of(&v[far])).is_err(), c, "[{far}] of {k} rows gave a row");
                }
                check!(v.first().map(of).as_ref() == rows.first(), c, "first of {}", m.show());
                check!(v.last().map(of).as_ref() == rows.last(), c, "last of {}", m.show());
                // both ends
                let mut it = v.iter();
                let (mut lo, mut hi) = (0, k);
                loop {
                    check!(it.len() == hi - lo, c, "an iterator with {} rows left reports {}", hi - lo, it.len());
                    let back = pick(2) == 1;
                    let got = if back { it.next_back() } else { it.next() }.map(of);
                    let want = if lo == hi {
                        None
                    } else if back {
                        hi -= 1;
                        Some(rows[hi].clone())
                    } else {
                        lo += 1;
                        Some(rows[lo - 1].clone())
                    };
                    check!(got == want, c, "iterating over {} gave {got:?} for {want:?}", m.show());
                    if want.is_none() {
                        break;
                    }
                }
                check!((&v).into_iter().map(of).collect::<Vec<_>>() == *rows, c, "looping over {}", m.show());
                let b = pick(n + 2);
                let want = (b < n).then(|| rows.iter().map(|r| inv(r)[b]).collect::<Vec<_>>());
                match guard(|| v.path_of(bell(b))) {
                    Ok(g) => check!(g == want, c, "path_of({b}) in {} is {g:?}", m.show()),
                    Err(p) => violate!(c, "path_of({b}) panicked: {}", p.msg),
                }
                let twin = to_vec(n, rows);
                check!(*v == twin && hash_of(v) == hash_of(&twin), c, "{} differs from the same rows freshly made", m.show());
                let longer = {
                    let mut r = rows.clone();
                    r.push(rounds(n));
                    to_vec(n, &r)
                };
                check!(*v != longer, c, "{} equals a longer one", m.show());
            }
            (Val::Block(v), Mod::Block(rows, anns)) => {
                let (n, k) = (rows[0].len(), anns.len());
                check!(v.len() == k && v.is_empty() == (k == 0) && v.stage() == stage(n), c, "length {} of {k} rows, is_empty {}, stage {}", v.len(), v.is_empty(), v.stage());
                for j in 0..k + 2 {
                    check!(v.get_row(j).map(of).as_ref() == rows.get(j), c, "get_row({j}) of {}", m.show());
                    check!(v.get_annot(j).map(|a| a.id).as_ref() == anns.get(j), c, "get_annot({j}) of {}", m.show());
                    let want = anns.get(j).map(|a| (rows[j].clone(), *a));
                    check!(v.get_annot_row(j).map(|r| (of(r.row()), r.annot().id)) == want, c, "get_annot_row({j}) of {}", m.show());
                }
                check!(of(v.first_row()) == rows[0], c, "first_row of {}", m.show());
                check!(of(v.leftover_row()) == rows[k], c, "leftover_row of {}", m.show());
                check!(v.first_annot_row().map(|r| (of(r.row()), r.annot().id)) == anns.first().map(|a| (rows[0].clone(), *a)), c, "first_annot_row of {}", m.show());
                check!(v.rows().map(of).collect::<Vec<_>>() == rows[..k], c, "rows of {}", m.show());
                check!(v.all_rows().map(of).collect::<Vec<_>>() == *rows, c, "all_rows of {}", m.show());
                check!(v.row_vec().iter().map(of).collect::<Vec<_>>() == *rows, c, "row_vec of {}", m.show());
                check!(v.annots().map(|a| a.id).collect::<Vec<_>>() == *anns, c, "annots of {}", m.show());
                let ar = must("annot_rows", || v.annot_rows().map(|r| (of(r.row()), r.annot().id)).collect::<Vec<_>>());
                check!(ar == rows.iter().cloned().zip(anns.iter().cloned()).collect::<Vec<_>>(), c, "annot_rows of {}", m.show());
                let b = pick(n + 2);
                let want = (b < n).then(|| rows.iter().map(|r| inv(r)[b]).collect::<Vec<_>>());
                let full = must("full_path_of", || v.full_path_of(bell(b)));
                check!(full == want, c, "full_path_of({b}) in {} is {full:?}", m.show());
                let path = must("path_of", || v.path_of(bell(b)));
                let want = want.map(|mut w| { let l = w.pop().unwrap(); (w, l) });
                check!(path == want, c, "path_of({b}) in {} is {path:?}", m.show());
                let eff = rows.iter().map(|r| (0..n).rev().find(|i| r[*i] != *i).map_or(1, |i| i + 1)).max().unwrap();
                check!(v.effective_stage() == stage(eff), c, "effective stage {} of {}", v.effective_stage(), m.show());
                let Some(twin) = Block::with_annots_from_indices(to_vec(n, rows), |i| Ann::new(anns[i])) else { unreachable!() };
                check!(*v == twin && hash_of(v) == hash_of(&twin), c, "{} differs from the same block freshly made", m.show());
                let mut other = rows.clone();
                let at = pick(rows.len());
                if n > 1 {
                    other[at].swap(0, n - 1);
                    let Some(o) = Block::with_annots_from_indices(to_vec(n, &other), |i| Ann::new(anns[i])) else { unreachable!() };
                    check!(*v != o, c, "{} equals a block with another row {at}", m.show());
                }
            }
            (Val::Row(v), Mod::Row(r)) => {
                let n = r.len();
                check!(v.stage() == stage(n), c, "stage {} of {}", v.stage(), text(r));
                let b = pick(n + 2);
                check!(v.place_of(bell(b)) == r.iter().position(|x| *x == b), c, "place_of({b}) in {}", text(r));
                check!(v.bell_iter().map(|b| b.index()).collect::<R>() == *r, c, "bells of {}", text(r));
                let twin = real(r);
                check!(*v == twin && *v == *twin.as_row() && hash_of(v) == hash_of(&twin) && v.fast_hash() == twin.fast_hash(), c, "{} differs from the same row freshly made", text(r));
                check!(v.is_rounds() == (*r == rounds(n)), c, "is_rounds of {}", text(r));
            }
            (Val::Mask(v), Mod::Mask(m)) => {
                let n = m.len();
                let show = self.pool[i].1.show();
                check!(v.stage() == stage(n), c, "stage {} of {show}", v.stage());
                check!(v.is_empty() == m.iter().all(|b| b.is_none()), c, "is_empty of {show}");
                let un: Vec<usize> = v.unspecified_places().collect();
                check!(un == (0..n).filter(|p| m[*p].is_none()).collect::<Vec<_>>(), c, "unspecified places of {show}: {un:?}");
                for b in 0..n + 1 {
                    let p = v.place_of(bell(b));
                    check!(match p { Some(p) => m.get(p) == Some(&Some(b)), None => !m.contains(&Some(b)) }, c, "place_of({b}) in {show} is {p:?}");
                }
                let got = must("as_row", || v.as_row()).map(|r| of(&r));
                check!(got == m_only(m), c, "as_row of {show} is {got:?}");
                let re = bellframe::music::Regex::from(v.clone());
                for _ in 0..4 {
                    let mut r = m_row(m);
                    if pick(2) == 1 {
                        let (a, b) = (pick(n), pick(n));
                        r.swap(a, b);
                    }
                    let want = m_matches(m, &r);
                    check!(v.matches(&real(&r)) == want, c, "{show} matches {}: {}", text(&r), !want);
                    check!(re.matches(&real(&r)) == want, c, "the pattern of {show} matches {}: {}", text(&r), !want);
                    probe(if want { "a matching row" } else { "a row that does not match" });
                }
                let w = near_stage(n, 500);
                if w != n {
                    let r: R = (0..w).map(|p| if p < n { m[p].unwrap_or(p) } else { p }).collect();
                    if is_perm(&r) {
                        check!(!v.matches(&real(&r)), c, "{show} matches {}, which has {w} bells", text(&r));
                    }
                }
            }
            _ => {}
        }
    }
}
/// Was every annotation passed to the caller's closure once, with its own index?
fn passed(seen: &std::cell::RefCell<Vec<(usize, usize)>>, a: &[usize]) -> bool {
    let mut s = seen.borrow().clone();
    s.sort();
    s == a.iter().copied().enumerate().collect::<Vec<_>>()
}
