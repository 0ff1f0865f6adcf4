#!/usr/bin/env python3
"""Writes /verif/quiet/*.diff: edits of bellframe that keep its behaviour, on which every check has to stay quiet."""
import subprocess, sys
M='src/method_lib/mod.rs'; L='src/method_lib/lib_serde.rs'; V='src/row/same_stage_vec.rs'; B='src/block.rs'
R='src/row/borrowed.rs'; O='src/row/owned.rs'; K='src/mask.rs'; P='src/place_not.rs'; A='src/row/accumulator.rs'; T='src/method/mod.rs'
BE='src/bell.rs'; ST='src/stage.rs'
E={}
URL='"https://raw.githubusercontent.com/kneasle/cc-method-lib/master/cccbr-methods.json"'
FETCH='''        let response = reqwest::blocking::get(
            '''+URL+''',
        )
        .ok()?;
        let json = response.text().ok()?;
'''
READ='        let json = std::fs::read_to_string(cache_path).ok()?;\n'
WRITE='''        let result = tmp_file
            .write_all(json.as_bytes())
            .and_then(|()| tmp_file.sync_all())
            .and_then(|()| std::fs::rename(&tmp_path, path));
        if result.is_err() {
            let _ = std::fs::remove_file(&tmp_path);
        }
        result
'''
E['fetch-client']=[(M,FETCH,'''        const URL: &str = '''+URL+''';
        let client = reqwest::blocking::Client::builder().build().ok()?;
        let json = client.get(URL).send().ok()?.text().ok()?;
''')]
E['fetch-bytes']=[(M,FETCH,'''        let response = reqwest::blocking::Client::new()
            .get('''+URL+''')
            .send()
            .ok()?;
        if !response.status().is_success() {
            return None;
        }
        let bytes = response.bytes().ok()?;
        let json = String::from_utf8_lossy(&bytes).into_owned();
'''),(M,'''        if let Some(lib_from_cache) = Self::load_cc_lib_from_cache() {
            return Some(lib_from_cache);
        }
''','''        match Self::load_cc_lib_from_cache() {
            None => {}
            lib_from_cache => return lib_from_cache,
        }
''')]
E['fetch-read']=[(M,FETCH,'''        use std::io::Read;
        let mut response = reqwest::blocking::get(
            '''+URL+''',
        )
        .ok()?
        .error_for_status()
        .ok()?;
        let mut json = String::new();
        response.read_to_string(&mut json).ok()?;
''')]
E['read-bufreader']=[(M,READ,'''        use std::io::Read;
        let file = File::open(cache_path).ok()?;
        let mut json = String::new();
        io::BufReader::new(file).read_to_string(&mut json).ok()?;
''')]
E['read-sized']=[(M,READ,'''        use std::io::Read;
        let mut file = File::open(&cache_path).ok()?;
        let len = file.metadata().map_or(0, |m| m.len()) as usize;
        let mut bytes = Vec::with_capacity(len + 1);
        file.read_to_end(&mut bytes).ok()?;
        let json = String::from_utf8(bytes).ok()?;
'''),(M,'''        Self::from_json(&json).ok()
    }

    /// Fetch''','''        match Self::from_json(&json) {
            Ok(lib) => Some(lib),
            Err(_) => None,
        }
    }

    /// Fetch''')]
E['write-bufwriter']=[(M,WRITE,'''        let written = {
            let mut writer = io::BufWriter::new(&mut tmp_file);
            writer.write_all(json.as_bytes()).and_then(|()| writer.flush())
        };
        let result = written
            .and_then(|()| tmp_file.sync_data())
            .and_then(|()| {
                drop(tmp_file);
                std::fs::rename(&tmp_path, path)
            });
        if result.is_err() {
            let _ = std::fs::remove_file(&tmp_path);
        }
        result
''')]
E['write-guard']=[(M,WRITE,'''        struct Guard(Option<PathBuf>);
        impl Drop for Guard {
            fn drop(&mut self) {
                if let Some(p) = self.0.take() {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        let mut guard = Guard(Some(tmp_path));
        for chunk in json.as_bytes().chunks(100) {
            tmp_file.write_all(chunk)?;
        }
        tmp_file.flush()?;
        tmp_file.sync_all()?;
        drop(tmp_file);
        std::fs::rename(guard.0.as_ref().unwrap(), path)?;
        guard.0 = None;
        Ok(())
''')]
E['write-dirsync']=[(M,WRITE,'''        let result = tmp_file
            .set_len(json.len() as u64)
            .and_then(|()| tmp_file.write_all(json.as_bytes()))
            .and_then(|()| tmp_file.sync_all())
            .and_then(|()| std::fs::rename(&tmp_path, path));
        match result {
            Ok(()) => {
                // Make the new name durable too
                if let Some(dir) = path.parent() {
                    if let Ok(d) = File::open(dir) {
                        let _ = d.sync_all();
                    }
                }
                Ok(())
            }
            Err(e) => {
                let _ = std::fs::remove_file(&tmp_path);
                Err(e)
            }
        }
''')]
E['tmp-random']=[(M,'''            let extension = format!("json.{}-{}.tmp", std::process::id(), counter);
            let tmp_path = path.with_extension(extension);
''','''            use std::hash::{BuildHasher, Hasher};
            let nonce = std::collections::hash_map::RandomState::new().build_hasher().finish();
            let tmp_path = path.with_file_name(format!(".cccbr-methods-{:016x}.tmp", nonce));
''')]
E['tmp-time']=[(M,'''            let extension = format!("json.{}-{}.tmp", std::process::id(), counter);
''','''            let now = std::time::SystemTime::now()
                .duration_since(std::time::UNIX_EPOCH)
                .map_or(0, |d| d.as_nanos());
            let extension = format!("json.{}-{}-{}.tmp", std::process::id(), now, counter);
''')]
E['suggest-sort']=[(M,'''        let mut suggestion_shortlist = Shortlist::new(num_suggestions);
        for methods in self.method_map.values() {
            suggestion_shortlist.append(methods.iter().map(|(stored_title, method)| {
                Suggestion::new(lower_case_title, stored_title, &method.title)
            }));
        }

        let mut best_suggestions = suggestion_shortlist.into_sorted_vec();
        // Reverse the sorting so that the best suggestions are first
        best_suggestions.reverse();
''','''        let mut best_suggestions = Vec::new();
        for methods in self.method_map.values() {
            for (stored_title, method) in methods {
                best_suggestions.push(Suggestion::new(lower_case_title, stored_title, &method.title));
            }
        }
        best_suggestions.sort_by(|a, b| b.cmp(a).then_with(|| a.0 .0.cmp(b.0 .0)));
        best_suggestions.truncate(num_suggestions);
'''),(M,'use shortlist::Shortlist;\n','')]
E['lookup-match']=[(M,'''        let stage_name = lower_case_title.rsplit(' ').next().unwrap();
        let stage = Stage::from_lower_case_name(stage_name)?;
''','''        let stage_name = match lower_case_title.rfind(' ') {
            Some(i) => &lower_case_title[i + 1..],
            None => lower_case_title,
        };
        let stage = Stage::from_lower_case_name(stage_name)?;
'''),(M,'''        self.get_by_title(&lower_case_title).map_err(|e| {
            e.map_not_found(|()| self.generate_suggestions(&lower_case_title, num_suggestions))
        })
''','''        match self.get_by_title_option(&lower_case_title) {
            Some(Ok(method)) => Ok(method),
            Some(Err((pn, error))) => Err(QueryError::PnParseErr { pn, error }),
            None => Err(QueryError::NotFound(
                self.generate_suggestions(&lower_case_title, num_suggestions),
            )),
        }
''')]
E['serde-sorted']=[(L,'''        let mut groups: HashMap<(Stage, FullClass), Vec<&CompactMethod>> = HashMap::new();
''','''        let mut groups: std::collections::BTreeMap<(usize, String), ((Stage, FullClass), Vec<&CompactMethod>)> = Default::default();
'''),(L,'''                    .entry((*stage, method.full_class))
                    .or_insert_with(Vec::new)
                    .push(method);
''','''                    .entry((stage.num_bells(), format!("{:?}", method.full_class)))
                    .or_insert_with(|| ((*stage, method.full_class), Vec::new()))
                    .1
                    .push(method);
'''),(L,'''                .into_iter()
                .map(|((stage, full_class), compact_methods)| {''','''                .into_iter()
                .map(|(_, ((stage, full_class), mut compact_methods))| {
                    compact_methods.sort_by(|a, b| a.title.cmp(&b.title));''')]
E['serde-try']=[(L,'''            let stage = Stage::try_from(group.stage).map_err(InvalidLibError::ZeroStage)?;
            let full_class = FullClass::new(
                group.is_jump,
                group.is_little,
                group.is_differential,
                from_class_id(group.class_id)
                    .ok_or(InvalidLibError::UnknownClassId(group.class_id))?,
            );
''','''            let class = match from_class_id(group.class_id) {
                None => return Err(InvalidLibError::UnknownClassId(group.class_id)),
                Some(c) => c,
            };
            let full_class =
                FullClass::new(group.is_jump, group.is_little, group.is_differential, class);
            let stage = match Stage::try_from(group.stage) {
                Ok(s) => s,
                Err(e) => return Err(InvalidLibError::ZeroStage(e)),
            };
'''),(L,'HashMap::with_capacity(25)','HashMap::with_capacity(m.groups.len().min(64))')]
E['vec-extend']=[(V,'''        let num_bells_before_extend = self.bells.len(); // Used to revert the `Bell` slice
        for r in row_iter.into_iter() {
            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
                self.bells.drain(num_bells_before_extend..); // Remove the extra bells
                return Err(e); // End the iteration
            }
            self.bells.extend(row.bell_iter());
        }
        Ok(())
''','''        // Collect all the new bells first, so that `self` only changes once nothing can fail
        let mut new_bells = Vec::new();
        for r in row_iter {
            let row = r.as_ref();
            IncompatibleStages::test_err(self.stage, row.stage())?;
            new_bells.extend(row.bell_iter());
        }
        self.bells.append(&mut new_bells);
        Ok(())
''')]
E['vec-extend-truncate']=[(V,'''                self.bells.drain(num_bells_before_extend..); // Remove the extra bells
                return Err(e); // End the iteration
            }
            self.bells.extend(row.bell_iter());
''','''                self.bells.truncate(num_bells_before_extend);
                return Err(e);
            }
            self.bells.reserve(self.stage.num_bells());
            for b in row.bell_iter() {
                self.bells.push(b);
            }
''')]
E['vec-reserve-hint']=[(V,'''        for r in row_iter.into_iter() {
            let row = r.as_ref();
            if let Err(e)''','''        let row_iter = row_iter.into_iter();
        // The hint can be anything, so don't allocate too much because of it
        self.bells
            .reserve(row_iter.size_hint().0.min(64) * self.stage.num_bells());
        for r in row_iter {
            let row = r.as_ref();
            if let Err(e)''')]
E['vec-transposed']=[(V,'''        self.bells.extend(
            other.bells[other.to_bell_range(range)]
                .iter()
                .map(|b| transposition[b.index()]),
        );
        Ok(())
''','''        let bells = &other.bells[other.to_bell_range(range)];
        self.bells.reserve(bells.len());
        for row in bells.chunks_exact(self.stage.num_bells()) {
            for b in row {
                self.bells.push(transposition[b.index()]);
            }
        }
        Ok(())
'''),(V,'''        let mut new_vec = Self::new(self.stage);
        new_vec.extend_transposed(lhs_row, self)?;
        Ok(new_vec)
''','''        let mut new_vec = self.clone();
        new_vec.pre_multiply(lhs_row).map_err(|e| IncompatibleStages {
            lhs_stage: e.rhs_stage,
            rhs_stage: e.lhs_stage,
        })?;
        Ok(new_vec)
''')]
E['vec-order-of-checks']=[(V,'''        IncompatibleStages::test_err(self.stage, transposition.stage())?;
        IncompatibleStages::test_err(self.stage, other.stage)?;
        // TODO: Write''','''        IncompatibleStages::test_err(self.stage, other.stage)?;
        IncompatibleStages::test_err(self.stage, transposition.stage())?;
        // TODO: Write'''),(V,'''        IncompatibleStages::test_err(self.stage, transposition.stage())?;
        // Copy the bells untransposed (this panics without changing `self` if the range is out of
        // bounds), then transpose the copies in-place.
        let bell_range = self.to_bell_range(range);
''','''        let bell_range = self.to_bell_range(range);
        IncompatibleStages::test_err(self.stage, transposition.stage())?;
''')]
E['vec-iter']=[(V,'''        let (next_row, future_rows) = self.bells_left.split_at(self.stage.num_bells());
        self.bells_left = future_rows;
''','''        let n = self.stage.num_bells();
        let next_row = &self.bells_left[..n];
        self.bells_left = &self.bells_left[n..];
'''),(V,'''    // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
    // `next()` is unnecessarily slow.
''','''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let skipped = n.min(self.len()) * self.stage.num_bells();
        self.bells_left = &self.bells_left[skipped..];
        self.next()
    }

    fn count(self) -> usize {
        self.len()
    }

    fn last(mut self) -> Option<Self::Item> {
        self.next_back()
    }
''')]
E['vec-path']=[(V,'''        (bell.index() < self.stage().num_bells()).then(
            // TODO: Write a vectorised routine for this
            || self.iter().map(|r| r.place_of(bell).unwrap()).collect_vec(),
        )
''','''        if bell.index() >= self.stage().num_bells() {
            return None;
        }
        self.iter().map(|r| r.place_of(bell)).collect()
'''),(V,'use itertools::Itertools;\n',''),(V,'''        let start_index = self.bells.len().checked_sub(self.stage.num_bells())?;
        debug_assert_eq!(start_index % self.stage.num_bells(), 0);
        // This unsafety is OK because we enforce an invariant that every stage-aligned segment of
        // `self.bells` is a valid `Row`.
        Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.drain(start_index..)) })
''','''        if self.is_empty() {
            return None;
        }
        let start_index = self.bells.len() - self.stage.num_bells();
        let last_bells = self.bells.split_off(start_index);
        Some(unsafe { RowBuf::from_vec_unchecked(last_bells) })
''')]
E['block-extend']=[(B,'''        // Copy the annotations before changing `self`, because both the range check and cloning
        // the annotations could panic
        let new_annots = other.annots[range.clone()].to_vec();

        // Add the transposed''','''        let new_annots: Vec<A> = other.annots[range.start..range.end].iter().cloned().collect();

        // Add the transposed'''),(B,'''        self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
        self.rows
            .extend_range_transposed(&transposition, &other.rows, range.start..range.end + 1)
            .unwrap(); // If the stages don't match between `self` and `other`, then the `?` in the
                       // first statement would prevent this code from being executed

        // Add the annotations to `self`
        self.annots.extend(new_annots);

        Ok(())
''','''        // (the first row is the leftover row we already have)
        self.rows
            .extend_range_transposed(&transposition, &other.rows, range.start + 1..range.end + 1)
            .unwrap();
        self.annots.reserve(new_annots.len());
        for a in new_annots {
            self.annots.push(a);
        }
        Ok(())
''')]
E['block-within']=[(B,'''        let new_annots = self.annots[range.clone()].to_vec();

        // Compute the''','''        let mut new_annots = Vec::with_capacity(range.len());
        new_annots.extend_from_slice(&self.annots[range.clone()]);

        // Compute the'''),(B,'''            annots: self
                .annots
                .iter()
                .enumerate()
                .map(|(i, annot)| f(i, annot))
                .collect_vec(),
''','''            annots: {
                let mut new_annots = Vec::with_capacity(self.annots.len());
                for i in 0..self.annots.len() {
                    new_annots.push(f(i, &self.annots[i]));
                }
                new_annots
            },
'''),(B,'''        let (first_annots, second_annots) = utils::split_vec(self.annots, index)?;
        let (mut first_rows, second_rows) = self.rows.split(index)?;
''','''        if index > self.len() {
            return None;
        }
        let (mut first_rows, second_rows) = self.rows.split(index)?;
        let (first_annots, second_annots) = utils::split_vec(self.annots, index)?;
''')]
E['block-repeat']=[(B,'''        self.iter.next().or_else(|| {
            // Apply the block we've just finished to the block head
            self.current_block_head = self.current_block_head.as_row() * self.block.leftover_row();
            // Start a new block
            self.iter = Self::get_iter(self.block);
            // Get the first row/annot of the next block.  If `self.iter.next()` is None, then the
            // block must be empty, and `self` should finish immediately
            self.iter.next()
        })
''','''        if self.block.is_empty() {
            return None;
        }
        if let Some(next) = self.iter.next() {
            return Some(next);
        }
        let next_head = &self.current_block_head * self.block.leftover_row();
        self.current_block_head = next_head;
        self.iter = Self::get_iter(self.block);
        self.iter.next()
'''),(B,'''        self.current_block_head
            .mul_into(untransposed_row, out)
            .unwrap();
''','''        let row = self.current_block_head.as_row() * untransposed_row;
        *out = row;
''')]
E['block-mapped']=[(B,'''            annots: self.annots.into_iter().map(f).collect_vec(),
''','''            annots: self.annots.into_iter().fold(Vec::new(), |mut v, a| {
                v.push(f(a));
                v
            }),
'''),(B,'''        let mut iter = self.all_rows();
        iter.next_back(); // Remove the leftover row
        iter
''','''        let mut all = self.all_rows();
        let _leftover = all.next_back();
        all
'''),(B,'''            annots: (0..length_of_self).map(f).collect_vec(),
''','''            annots: {
                let mut f = f;
                let mut annots = Vec::new();
                for i in 0..length_of_self {
                    annots.push(f(i));
                }
                annots
            },
''')]
E['mask-set']=[(K,'''        let existing_bell_place = self
            .bells
            .iter()
            .position(|maybe_bell| maybe_bell == &Some(bell));
        match existing_bell_place {
            Some(p) if p == place => Ok(()), // Bell is already fixed, so nothing to do
            Some(_) => Err(BellAlreadySet), // Bell is fixed to a different place, adding it would fix it twice
            None => {
                // Unsafety is OK because this match arm only executes if the bell isn't fixed in
                // `self`
                unsafe { self.set_bell_unchecked(bell, place) };
                Ok(())
            }
        }
''','''        if let Some(p) = self.place_of(bell) {
            return if p == place { Ok(()) } else { Err(BellAlreadySet) };
        }
        self.bells[place] = Some(bell);
        Ok(())
'''),(K,'''        for (&expected_bell, real_bell) in self.bells.iter().zip_eq(row.bell_iter()) {
            if let Some(b) = expected_bell {
                if b != real_bell {
                    // If the mask specifically requested a different bell in this location, then
                    // the row doesn't match
                    return false;
                }
            }
        }
        true
''','''        self.bells
            .iter()
            .enumerate()
            .all(|(i, b)| b.map_or(true, |b| b == row[i]))
''')]
E['mask-combine']=[(K,'''        Some(Self {
            bells: self
                .bells
                .iter()
                .zip_eq(&other.bells)
                .map(|maybe_bells| match maybe_bells {
                    (Some(b1), Some(b2)) => {
                        assert_eq!(b1, b2);
                        Some(*b1)
                    }
                    (Some(b1), None) => Some(*b1),
                    (None, maybe_bell) => *maybe_bell,
                })
                .collect_vec(),
        })
''','''        let mut combined = self.clone();
        for (b, other_b) in combined.bells.iter_mut().zip(&other.bells) {
            *b = b.or(*other_b);
        }
        Some(combined)
'''),(K,'''        let mut bells = self.bells.clone();
        // If only one''','''        if self.unspecified_places().count() > 1 {
            return None;
        }
        let mut bells = self.bells.clone();
        // If only one'''),(K,'''        for maybe_bell in &self.bells {
            match maybe_bell {
                Some(b) => write!(f, "{}", b)?,
                None => write!(f, "x")?,
            }
        }
        Ok(())
''','''        let mut s = String::new();
        for maybe_bell in &self.bells {
            match maybe_bell {
                Some(b) => s.push_str(&b.to_string()),
                None => s.push('x'),
            }
        }
        f.write_str(&s)
''')]
E['acc']=[(A,'''        self.total.mul_into(row, &mut self.temp_row)?; // Multiply `total` into `temp_row`
        std::mem::swap(&mut self.total, &mut self.temp_row); // Swap the result back into `total`
        Ok(())
    }

''','''        self.total = self.total.mul_result(row)?;
        Ok(())
    }

'''),(A,'''        row.copy_into(&mut self.total);
''','''        self.total.overwrite_from(row);
''')]
E['row-fmt']=[(R,'''        for b in self.bell_iter() {
            write!(f, "{}", b)?;
        }
        Ok(())
''','''        self.bell_iter().try_for_each(|b| write!(f, "{}", b))
'''),(R,'''        other.bell_vec.clear();
        other.bell_vec.extend_from_slice(&self.bell_slice);
''','''        other.bell_vec.resize(self.bell_slice.len(), Bell::TREBLE);
        other.bell_vec.copy_from_slice(&self.bell_slice);
'''),(R,'''        // TODO/PERF: Implement this using repeated squaring
        let mut accumulator = RowAccumulator::rounds(self.stage());
        for _ in 0..exponent {
            // Unwrap is safe because the accumulator has the same stage as `self`
            accumulator.accumulate(self).unwrap();
        }
        accumulator.into_total()
''','''        let mut result = RowBuf::rounds(self.stage());
        let mut square = self.to_owned();
        let mut e = exponent;
        while e > 0 {
            if e % 2 == 1 {
                result = &result * &square;
            }
            square = &square * &square;
            e /= 2;
        }
        result
''')]
E['row-groups']=[(R,'''        let mut frontier = VecDeque::<RowBuf>::new();
''','''        let mut frontier = Vec::<RowBuf>::new();
'''),(R,'''                frontier.push_back(r.to_owned());
''','''                frontier.push(r.to_owned());
'''),(R,'while let Some(r) = frontier.pop_front() {','while let Some(r) = frontier.pop() {'),(R,'''                if !set.contains(&new_row) {
                    frontier.push_back(new_row.clone());
                    set.insert(new_row);
                }
''','''                if set.insert(new_row.clone()) {
                    frontier.push(new_row);
                }
'''),(R,'''        let mut b_inv = RowBuf::rounds(Stage::ONE);
''','''        // Every group contains rounds
        let s = first_stage.unwrap();
        if !row_set.contains(&*RowBuf::rounds(s)) {
            return Ok(false);
        }
        let mut b_inv = RowBuf::rounds(Stage::ONE);
''')]
E['row-product']=[(R,'''            let s = stage.unwrap();
''','''            let s = match stage {
                Some(s) => s,
                None => return Ok(Vec::new()),
            };
            transpose_to = Vec::with_capacity(transpose_from.len());
'''),(R,'''        let mut closure = vec![self.to_owned()];
        loop {
            let last_row = closure.last().unwrap();
            if last_row.is_rounds() {
                return closure;
            }
''','''        let mut closure = Vec::new();
        closure.push(self.to_owned());
        loop {
            let last_row = &closure[closure.len() - 1];
            if last_row.is_rounds() {
                break closure;
            }
''')]
E['pn-fmt']=[(P,'''            for p in &self.places {
                write!(f, "{}", Bell::from_index(*p))?;
            }
            Ok(())
''','''            self.places
                .iter()
                .map(|p| Bell::from_index(*p))
                .try_for_each(|b| Display::fmt(&b, f))
''')]
E['method-labels']=[(T,'''        *self.first_lead.get_annot_mut(index).unwrap() = label;
''','''        match self.first_lead.get_annot_mut(index) {
            Some(l) => *l = label,
            None => panic!("there is no row {} to label", index),
        }
'''),(T,'''        let first_lead_with_indices = self
            .first_lead
            // We use `as_deref` to convert `&Option<String>` to `Option<&str>`
            .clone_map_annots_with_index(|i, label| RowAnnot::new(i, label.as_deref()));
''','''        let label_of = |i: usize, l: &'_ Option<String>| (i, l.is_some());
        let first_lead_with_indices = self.first_lead.clone_map_annots_with_index(|i, label| {
            let _ = label_of(i, label);
            RowAnnot::new(i, label.as_ref().map(|s| s.as_str()))
        });
'''),(T,'''            .positions(move |l| l.as_ref().map(String::as_str) == Some(label))
''','''            .enumerate()
            .filter(move |(_, l)| l.as_deref() == Some(label))
            .map(|(i, _)| i)
''')]
E['owned-checks']=[(O,'''        self.bell_vec.clear();
        self.bell_vec.extend(row.bell_iter());
''','''        self.bell_vec.truncate(0);
        for b in row {
            self.bell_vec.push(b);
        }
''')]
import os
R_=os.environ.get('REPO','/repo')
def sh(*a): return subprocess.check_output(a,text=True)
names=sys.argv[1:] or list(E)
if sh('git','-C',R_,'status','--short').strip(): sys.exit('/repo is not clean')
for n in names:
    bad=None
    for f,a,b in E[n]:
        t=open(f'{R_}/{f}').read()
        if t.count(a)!=1: bad=f'{f}: {t.count(a)} matches of {a[:300]!r}'; break
        open(f'{R_}/{f}','w').write(t.replace(a,b))
    d=sh('git','-C',R_,'diff')
    sh('git','-C',R_,'checkout','-q','--','.')
    if bad: print(n,bad); continue
    open(f'/verif/quiet/{n}.diff','w').write(d)
