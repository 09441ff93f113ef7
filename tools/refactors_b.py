# second batch of behaviour-preserving edits (loaded by refactors.py)
r("b-bi-contains", "C01 C02", ("boundedint.rs", """                self.0.checked_add(1).and_then(|v| Self::new(v).ok())""", """                if self.0 == MAX {
                    return None;
                }
                self.0.checked_add(1).map(Self)"""))
r("b-bi-clamp-helper", "C01 C02", ("boundedint.rs", """                self.0
                    .checked_add(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))""", """                Self::checked(self.0.checked_add(other.0))"""),
  ("boundedint.rs", """                self.0
                    .checked_sub(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))""", """                Self::checked(self.0.checked_sub(other.0))"""),
  ("boundedint.rs", """            pub const fn into_inner(self) -> $type {
                self.0
            }
""", """            pub const fn into_inner(self) -> $type {
                self.0
            }

            /// Wraps a raw value, if present and within the bounds
            fn checked(v: Option<$type>) -> Option<Self> {
                v.filter(|v| (MIN..=MAX).contains(v)).map(Self)
            }
"""))
r("b-bi-unwrap-const", "C01", ("boundedint.rs", """                assert!(v >= MIN && v <= MAX);
                Self(v)""", """                match Self::new(v) {
                    Ok(b) => b,
                    Err(_) => panic!("value out of bounds"),
                }"""))
r("b-bi-tryfrom-match", "C02", ("boundedint.rs", """                Self::new(into_or_oob!(value)?)""", """                let inner: $type = into_or_oob!(value)?;
                Self::new(inner)"""))
r("b-bi-frombool", "C01", ("boundedint.rs", "                Self::new_unwrap(value.into())", "                Self::new_unwrap(if value { 1 } else { 0 })"))
r("b-bi-iter-step-helper", "C03 C12", ("boundedint.rs", """impl<T: BoundedInt> Iterator for BoundedIntIterator<T> {
    type Item = T;
    fn next(&mut self) -> Option<Self::Item> {
        let value = self.start;
        if self.start == self.end {
            self.start = None;
            self.end = None;
        } else""", """impl<T: BoundedInt> BoundedIntIterator<T> {
    fn finish(&mut self) {
        self.start = None;
        self.end = None;
    }
}

impl<T: BoundedInt> Iterator for BoundedIntIterator<T> {
    type Item = T;
    fn next(&mut self) -> Option<Self::Item> {
        let value = self.start;
        if self.start == self.end {
            self.finish();
        } else"""))
r("b-bi-trait-iter", "C03 C12", ("boundedint.rs", "        BoundedIntIterator::new(Self::MIN, Self::MAX)", """        let (start, end) = (Self::MIN, Self::MAX);
        BoundedIntIterator {
            start: Some(start),
            end: Some(end),
        }"""))
# ---- dir
r("b-dir-next-match", "C07 C21", ("dir.rs", """        let index = *self as usize;
        let next = if D { index + 1 } else { index + 2 - index % 2 };
        if next < Self::SIZE {
            Some(Dir::ALL8[next])
        } else {
            None
        }""", """        let step = if D || self.is_diagonal() { 1 } else { 2 };
        let next = *self as usize + step;
        if next >= Self::ALL8.len() {
            return None;
        }
        Some(Self::ALL8[next])"""))
r("b-dir-flip-match", "C07 C20", ("dir.rs", "        Dir::ALL8[(*self as usize + 4) % Self::SIZE]", """        match self {
            Dir::N => Dir::S,
            Dir::NE => Dir::SW,
            Dir::E => Dir::W,
            Dir::SE => Dir::NW,
            Dir::S => Dir::N,
            Dir::SW => Dir::NE,
            Dir::W => Dir::E,
            Dir::NW => Dir::SE,
        }"""))
r("b-dir-diag-matches", "C07", ("dir.rs", "        (*self as u8) % 2 == 1", "        matches!(self, Dir::NE | Dir::SE | Dir::SW | Dir::NW)"))
r("b-dir-addassign", "C07", ("dir.rs", "        *self = self.rotate(&other);", "        *self = *self + other;"))
r("b-dir-rotate-mask", "C07", ("dir.rs", "        Dir::ALL8[(*self as usize + *other as usize) % Self::SIZE]", "        Dir::ALL8[(*self as usize + *other as usize) & 7]"))
r("b-dir-add-axes", "C06", ("dir.rs", """        let (p0, p1) = self;
        let (x_opt, y_opt) = match rhs {
            Dir::N => (Some(p0), U::dec(p1)),
            Dir::NE => (T::inc(p0), U::dec(p1)),
            Dir::E => (T::inc(p0), Some(p1)),
            Dir::SE => (T::inc(p0), U::inc(p1)),
            Dir::S => (Some(p0), U::inc(p1)),
            Dir::SW => (T::dec(p0), U::inc(p1)),
            Dir::W => (T::dec(p0), Some(p1)),
            Dir::NW => (T::dec(p0), U::dec(p1)),
        };
        Ok((
            x_opt.ok_or(Error::OutOfBounds)?,
            y_opt.ok_or(Error::OutOfBounds)?,
        ))""", """        let (p0, p1) = self;
        let x_opt = match rhs {
            Dir::NE | Dir::E | Dir::SE => p0.inc(),
            Dir::NW | Dir::W | Dir::SW => p0.dec(),
            Dir::N | Dir::S => Some(p0),
        };
        let y_opt = match rhs {
            Dir::NW | Dir::N | Dir::NE => p1.dec(),
            Dir::SW | Dir::S | Dir::SE => p1.inc(),
            Dir::W | Dir::E => Some(p1),
        };
        match (x_opt, y_opt) {
            (Some(x), Some(y)) => Ok((x, y)),
            _ => Err(Error::OutOfBounds),
        }"""))
r("b-dir-fromstr-iter", "C08", ("dir.rs", """        let c = chars.next().ok_or(Error::DirParseError)?;
        if chars.next().is_some() {
            return Err(Error::DirParseError);
        }
        Dir::try_from(c)""", """        match (chars.next(), chars.next()) {
            (Some(c), None) => c.try_into(),
            _ => Err(Error::DirParseError),
        }"""))
r("b-dir-char-lower", "C08", ("dir.rs", """            'n' => Ok(Dir::N),
            'e' => Ok(Dir::E),
            's' => Ok(Dir::S),
            'w' => Ok(Dir::W),
            '\\u{2191}' => Ok(Dir::N),""", """            'w' => Ok(Dir::W),
            's' => Ok(Dir::S),
            'e' => Ok(Dir::E),
            'n' => Ok(Dir::N),
            '\\u{2191}' => Ok(Dir::N),"""))
# ---- pos / posdir
r("b-pos-new-match", "C04", ("pos.rs", """        let Ok(x) = BoundedU16::<0, XMAX>::new(x) else {
            return Err(Error::OutOfBounds);
        };
        let Ok(y) = BoundedU16::<0, YMAX>::new(y) else {
            return Err(Error::OutOfBounds);
        };
        Ok(Pos((x, y)))""", """        match (
            BoundedU16::<0, XMAX>::new(x),
            BoundedU16::<0, YMAX>::new(y),
        ) {
            (Ok(x), Ok(y)) => Ok(Pos((x, y))),
            _ => Err(Error::OutOfBounds),
        }"""))
r("b-pos-tryi32", "C04", ("pos.rs", """        let x = u16::try_from(xy.0).or(Err(Error::OutOfBounds))?;
        let y = u16::try_from(xy.1).or(Err(Error::OutOfBounds))?;
        Pos::new(x, y)""", """        let x: u16 = xy.0.try_into().map_err(|_| Error::OutOfBounds)?;
        let y: u16 = xy.1.try_into().map_err(|_| Error::OutOfBounds)?;
        Self::new(x, y)"""))
r("b-pos-tryi32-match", "C04", ("pos.rs", """        let x = u16::try_from(xy.0).or(Err(Error::OutOfBounds))?;
        let y = u16::try_from(xy.1).or(Err(Error::OutOfBounds))?;
        Pos::new(x, y)""", """        match (u16::try_from(xy.0), u16::try_from(xy.1)) {
            (Ok(x), Ok(y)) => Pos::new(x, y),
            _ => Err(Error::OutOfBounds),
        }"""))
r("b-posdir-add-match", "C06", ("posdir.rs", "        Ok(Pos::<XMAX, YMAX>::from((self.0 + rhs)?))", "        *self + rhs"))
r("b-posdir-to-cmp", "C09", ("posdir.rs", """    let tsrc = src.tuple();
    let tdst = dst.tuple();
    if D {
        match (tsrc.0.cmp(&tdst.0), tsrc.1.cmp(&tdst.1)) {""", """    let (sx, sy) = src.tuple();
    let (dx, dy) = dst.tuple();
    let horizontal = sx.cmp(&dx);
    let vertical = sy.cmp(&dy);
    if D {
        match (horizontal, vertical) {"""), ("posdir.rs", """    } else {
        match (tsrc.0.cmp(&tdst.0), tsrc.1.cmp(&tdst.1)) {""", """    } else {
        match (horizontal, vertical) {"""))
# ---- postrait
r("b-pos-dist-helper", "C11 C23", ("postrait.rs", """pub trait PosT:""", """/// Absolute difference between two coordinates
fn abs_diff<T: BoundedInt>(a: T, b: T) -> usize {
    let d = if a > b {
        a.checked_sub(b).unwrap()
    } else {
        b.checked_sub(a).unwrap()
    };
    into_or_panic!(d)
}

/// PosT
pub trait PosT:"""), ("postrait.rs", """        let dx = if self.x() > pos.x() {
            self.x().checked_sub(pos.x()).unwrap()
        } else {
            pos.x().checked_sub(self.x()).unwrap()
        };
        let dy = if self.y() > pos.y() {
            self.y().checked_sub(pos.y()).unwrap()
        } else {
            pos.y().checked_sub(self.y()).unwrap()
        };
        into_or_panic!(dx) + into_or_panic!(dy)""", """        abs_diff(self.x(), pos.x()) + abs_diff(self.y(), pos.y())"""),
 ("postrait.rs", """        let dx = if self.x() > pos.x() {
            self.x().checked_sub(pos.x()).unwrap()
        } else {
            pos.x().checked_sub(self.x()).unwrap()
        };
        let dy = if self.y() > pos.y() {
            self.y().checked_sub(pos.y()).unwrap()
        } else {
            pos.y().checked_sub(self.y()).unwrap()
        };
        let dx: usize = into_or_panic!(dx);
        let dy: usize = into_or_panic!(dy);
        dx.max(dy)""", """        let dx = abs_diff(self.x(), pos.x());
        let dy = abs_diff(self.y(), pos.y());
        if dx > dy {
            dx
        } else {
            dy
        }"""))
r("b-pos-dist-maxmin", "C11 C23", ("postrait.rs", """        let dx = if self.x() > pos.x() {
            self.x().checked_sub(pos.x()).unwrap()
        } else {
            pos.x().checked_sub(self.x()).unwrap()
        };
        let dy = if self.y() > pos.y() {
            self.y().checked_sub(pos.y()).unwrap()
        } else {
            pos.y().checked_sub(self.y()).unwrap()
        };
        let dx: usize = into_or_panic!(dx);""", """        let dx = self
            .x()
            .max(pos.x())
            .checked_sub(self.x().min(pos.x()))
            .unwrap();
        let dy = self
            .y()
            .max(pos.y())
            .checked_sub(self.y().min(pos.y()))
            .unwrap();
        let dx: usize = into_or_panic!(dx);"""))
r("b-pos-inside-or", "C11", ("postrait.rs", """        let (xmin, xmax) = if pos1.x() < pos2.x() {
            (pos1.x(), pos2.x())
        } else {
            (pos2.x(), pos1.x())
        };
        let (ymin, ymax) = if pos1.y() < pos2.y() {
            (pos1.y(), pos2.y())
        } else {
            (pos2.y(), pos1.y())
        };
        xmin <= self.x() && self.x() <= xmax && ymin <= self.y() && self.y() <= ymax""", """        let (x, y) = self.tuple();
        let (x1, y1) = pos1.tuple();
        let (x2, y2) = pos2.tuple();
        let in_x = (x1 <= x && x <= x2) || (x2 <= x && x <= x1);
        let in_y = (y1 <= y && y <= y2) || (y2 <= y && y <= y1);
        in_x && in_y"""))
r("b-pos-corner-tuple", "C10", ("postrait.rs", """        (self.x() == Self::Xtype::MIN || self.x() == Self::Xtype::MAX)
            && (self.y() == Self::Ytype::MIN || self.y() == Self::Ytype::MAX)""", """        let (x, y) = self.tuple();
        let (first, last) = (Self::first(), Self::last());
        (x == first.x() || x == last.x()) && (y == first.y() || y == last.y())"""))
r("b-pos-next-chain", "C12 C13 C14", ("postrait.rs", """        if let Some(x) = self.x().inc() {
            return Some(Self::new_((x, self.y())));
        }
        self.y().inc().map(|y| Self::new_((Self::Xtype::MIN, y)))""", """        let (x, y) = self.tuple();
        let (x, y) = match x.inc() {
            Some(x) => (x, y),
            None => (Self::Xtype::MIN, y.inc()?),
        };
        Some(Self::new_((x, y)))"""))
r("b-pos-prev-orelse", "C12", ("postrait.rs", """        if let Some(x) = self.x().dec() {
            return Some(Self::new_((x, self.y())));
        }
        self.y().dec().map(|y| Self::new_((Self::Xtype::MAX, y)))""", """        self.x()
            .dec()
            .map(|x| Self::new_((x, self.y())))
            .or_else(|| self.y().dec().map(|y| Self::new_((Self::Xtype::MAX, y))))"""))
r("b-pos-iter-early", "C12", ("postrait.rs", """        let old = self.cur;
        if self.cur == self.end {
            self.cur = None;
            self.end = None;
        } else if let Some(cur) = self.cur {
            if XFIRST {
                self.cur = cur.next();
            } else {
                self.cur = cur.next_y();
            }
        }
        old""", """        let cur = self.cur?;
        self.cur = if self.end == Some(cur) {
            self.end = None;
            None
        } else if XFIRST {
            cur.next()
        } else {
            cur.next_y()
        };
        Some(cur)"""))
r("b-pos-range-row", "C13", ("postrait.rs", """            let mut pos = pos0.next();
            if let Some(p) = &pos {
                if p.x() < self.topleft.x() {
                    pos = P::new(self.topleft.x(), p.y()).ok();
                } else if p.x() > self.botright.x() {
                    let y = p.y().inc();
                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                }
            }
            self.value = pos.filter(|p| p.y() <= self.botright.y());
            Some(pos0)""", """            let left = self.topleft.x();
            let pos = match pos0.next() {
                Some(p) if p.x() < left => P::new(left, p.y()).ok(),
                Some(p) if p.x() > self.botright.x() => {
                    p.y().inc().and_then(|y| P::new(left, y).ok())
                }
                other => other,
            };
            let bottom = self.botright.y();
            self.value = pos.filter(|p| p.y() <= bottom);
            Some(pos0)"""))
r("b-pos-inx-question", "C13", ("postrait.rs", """        if let Some(pos0) = self.0.take() {
            self.0 = pos0.y().inc().and_then(|y| P::new(pos0.x(), y).ok());
            Some(pos0)
        } else {
            None
        }""", """        let current = self.0?;
        self.0 = match current.y().inc() {
            Some(y) => P::new(current.x(), y).ok(),
            None => None,
        };
        Some(current)"""))
r("b-pos-rotate-order", "C10 C15", ("postrait.rs", """        let x = Self::Ytype::MAX.into_inner() - self.y().into_inner();
        let Ok(x) = Self::Xtype::try_from(x) else {
            panic!();
        };
        let Ok(y) = Self::Ytype::try_from(self.x().into_inner()) else {
            panic!();
        };
        Self::new_((x, y))""", """        let Ok(y) = Self::Ytype::try_from(self.x().into_inner()) else {
            panic!();
        };
        let max = Self::Ytype::MAX.into_inner();
        match Self::Xtype::try_from(max - self.y().into_inner()) {
            Ok(x) => Self::new_((x, y)),
            Err(_) => panic!(),
        }"""))
r("b-pos-width-let", "C05 C14 C12", ("postrait.rs", """        into_or_panic!(Self::Xtype::MAX) + 1
""", """        let max: usize = into_or_panic!(Self::Xtype::MAX);
        max + 1
"""))
r("b-pos-tryusize-tuple", "C05", ("postrait.rs", """        let width = Self::width();
        Self::new(i % width, i / width)""", """        let (y, x) = (i / Self::width(), i % Self::width());
        Self::new(x, y)"""))
r("b-pos-tlbr-for", "C11", ("postrait.rs", """                            if t.0 < tl.0 { t.0 } else { tl.0 },
                            if t.1 < tl.1 { t.1 } else { tl.1 },""", """                            std::cmp::min(t.0, tl.0),
                            std::cmp::min(t.1, tl.1),"""))
# ---- grid
r("b-grid-offset-helper", "C14", ("grid.rs", """    pub fn get(&self, pos: &P) -> &T {
        unsafe { self.0.get_unchecked(pos.to_usize()) }
    }""", """    pub fn get(&self, pos: &P) -> &T {
        let i = Self::offset(pos);
        unsafe { self.0.get_unchecked(i) }
    }

    fn offset(pos: &P) -> usize {
        pos.to_usize()
    }"""))
r("b-grid-get-safe", "C14", ("grid.rs", """        unsafe { self.0.get_unchecked(pos.to_usize()) }""", """        &self.0[pos.to_usize()]"""),
  ("grid.rs", """        unsafe { self.0.get_unchecked_mut(pos.to_usize()) }""", """        &mut self.0[pos.to_usize()]"""))
r("b-grid-flip-while", "C15", ("grid.rs", """        for y in P::iter_y() {
            for x in 0..P::width() / 2 {
                let pos1 = P::new(x, y).unwrap();
                let pos2 = pos1.flip_h();
                self.0.swap(pos1.to_usize(), pos2.to_usize());
            }
        }""", """        let half = P::width() / 2;
        for y in P::iter_y() {
            for x in 0..half {
                let pos1 = P::new(x, y).unwrap();
                let (i1, i2) = (pos1.to_usize(), pos1.flip_h().to_usize());
                self.0.swap(i1, i2);
            }
        }"""))
r("b-grid-flipv-swap", "C15", ("grid.rs", """                let pos2 = pos1.flip_v();
                self.0.swap(pos1.to_usize(), pos2.to_usize());""", """                let pos2 = pos1.flip_v();
                self.swap_pos(&pos2, &pos1);"""), ("grid.rs", """    pub fn extend_from_vecvec(""", """    pub fn swap_pos(&mut self, a: &P, b: &P) {
        self.0.swap(a.to_usize(), b.to_usize());
    }

    /// Fill the grid from a vector of vectors
    pub fn extend_from_vecvec("""))
r("b-grid-rotcc-cc", "C15", ("grid.rs", """                let pos2 = pos1.rotate_cw();
                let pos3 = pos2.rotate_cw();
                let pos4 = pos3.rotate_cw();
                self.0.swap(pos1.to_usize(), pos4.to_usize());
                self.0.swap(pos1.to_usize(), pos3.to_usize());
                self.0.swap(pos1.to_usize(), pos2.to_usize());""", """                let pos2 = pos1.rotate_cc();
                let pos3 = pos2.rotate_cc();
                let pos4 = pos3.rotate_cc();
                self.0.swap(pos1.to_usize(), pos2.to_usize());
                self.0.swap(pos1.to_usize(), pos3.to_usize());
                self.0.swap(pos1.to_usize(), pos4.to_usize());"""))
r("b-grid-neg-loop", "C16", ("grid.rs", """        self.into_iter().map(|v| v.neg()).collect()""", """        self.into_iter().map(|v| -v).collect()"""))
r("b-grid-iterpos-get", "C14", ("grid.rs", "        P::iter().map(move |pos| (pos, &self[pos]))", "        P::iter().map(move |pos| (pos, self.get(&pos)))"))
r("b-grid-iterpos-zip", "C14", ("grid.rs", "        P::iter().map(move |pos| (pos, &self[pos]))", "        P::iter().zip(self.0.iter())"))
r("b-grid-vecvec-match", "C16", ("grid.rs", """                let p = P::new(x, y)?;
                self[p] = c;""", """                let p = P::new(x, y)?;
                *self.get_mut(&p) = c;"""))
r("b-grid-extend-getmut", "C16", ("grid.rs", """            self[pos] = *member;""", """            *self.get_mut(&pos) = *member;"""))
r("b-grid-fromiter-letelse", "C16", ("grid.rs", """            if let Some(fromiter) = it.next() {
                *item = fromiter;
            } else {
                panic!("iterator too short for grid type");
            }""", """            let Some(fromiter) = it.next() else {
                panic!("iterator too short for grid type");
            };
            *item = fromiter;"""))
r("b-grid-fromiter-expect", "C16", ("grid.rs", """            if let Some(fromiter) = it.next() {
                *item = *fromiter;
            } else {
                panic!("iterator too short for grid type");
            }""", """            *item = *it.next().expect("iterator too short for grid type");"""))
r("b-grid-fromiter-end", "C16", ("grid.rs", """        assert!(it.next().is_none(), "iterator too long for grid type");
        g""", """        if it.next().is_some() {
            panic!("iterator too long for grid type");
        }
        g"""))
# ---- gridbool
r("b-gb-repeat", "C17 C18", ("gridbool.rs", """        let mut words = [v; WORDS];
        let last = P::WIDTH * P::HEIGHT / 32;
        if value && last < WORDS {
            words[last] = !(Self::WORD_TRUE >> (P::WIDTH * P::HEIGHT % 32));
        }""", """        let mut words = [v; WORDS];
        let cells = P::WIDTH * P::HEIGHT;
        let last = cells / 32;
        let used = cells % 32;
        if value && last < WORDS {
            words[last] &= !(Self::WORD_TRUE >> used);
        }"""))
r("b-gb-set-inline", "C17 C18", ("gridbool.rs", """        if value {
            self.set_t(posref)
        } else {
            self.set_f(posref)
        }""", """        let (byte, bit) = Self::byte_bit(posref.to_usize());
        if value {
            self.0[byte] |= bit;
        } else {
            self.0[byte] &= !bit;
        }"""))
r("b-gb-word-ref", "C17 C18", ("gridbool.rs", """        self.0[byte] |= bit;""", """        let word = &mut self.0[byte];
        *word |= bit;"""))
r("b-gb-index-helper", "C17", ("gridbool.rs", """    fn index(&self, pos: P) -> &Self::Output {
        if self.get(&pos) {
            &Self::TRUE
        } else {
            &Self::FALSE
        }
    }""", """    fn index(&self, pos: P) -> &Self::Output {
        &self[&pos]
    }"""))
r("b-gb-iter-index", "C17 C18", ("gridbool.rs", "        P::iter().map(|pos| self.get(&pos))", "        P::iter().map(move |pos| self[pos])"))
r("b-gb-flip-helper", "C18", ("gridbool.rs", """                let pos2 = pos1.flip_h();
                let tmp = self.get(&pos1);
                self.set(&pos1, self.get(&pos2));
                self.set(&pos2, tmp);""", """                let pos2 = pos1.flip_h();
                self.swap(&pos1, &pos2);"""), ("gridbool.rs", """    fn byte_bit(i: usize)""", """    fn swap(&mut self, pos1: &P, pos2: &P) {
        let value1 = self.get(pos1);
        let value2 = self.get(pos2);
        self.set(pos1, value2);
        self.set(pos2, value1);
    }

    #[inline]
    fn byte_bit(i: usize)"""))
r("b-gb-fromiter-extra", "C18", ("gridbool.rs", """            if let Some(value) = it.next() {
                gb.set(&pos, value);
            } else {
                panic!("iterator too short for gridbool type");
            }""", """            match it.next() {
                Some(true) => gb.set_t(&pos),
                Some(false) => gb.set_f(&pos),
                None => panic!("iterator too short for gridbool type"),
            }"""))
r("b-gb-fromiter-loop", "C18", ("gridbool.rs", """        gb.set_iter_t(iter.into_iter());
        gb""", """        for pos in iter {
            gb.set_t(&pos);
        }
        gb"""))
r("b-gb-rot-get", "C18", ("gridbool.rs", """                let values = [
                    self.get(&pos0),
                    self.get(&pos1),
                    self.get(&pos2),
                    self.get(&pos3),
                ];
                self.set(&pos0, values[3]);
                self.set(&pos1, values[0]);
                self.set(&pos2, values[1]);
                self.set(&pos3, values[2]);""", """                let last = self.get(&pos3);
                self.set(&pos3, self.get(&pos2));
                self.set(&pos2, self.get(&pos1));
                self.set(&pos1, self.get(&pos0));
                self.set(&pos0, last);"""))
# ---- sets, maps, path
r("b-set-match", "C19", ("setpos.rs", """        if add {
            self.insert(pos);
        } else {
            self.remove(&pos);
        }""", """        match add {
            true => self.insert(pos),
            false => self.remove(&pos),
        }"""))
r("b-map-get-letelse", "C19", ("mappos.rs", """    for (collections::BTreeMap<P, Item>, Item)
where
    P: Ord,
{
    fn new(item: Item) -> Self {
        (Default::default(), item)
    }
    fn get(&self, pos: &P) -> &Item {
        self.0.get(pos).unwrap_or(&self.1)
    }""", """    for (collections::BTreeMap<P, Item>, Item)
where
    P: Ord,
{
    fn new(item: Item) -> Self {
        (collections::BTreeMap::new(), item)
    }
    fn get(&self, pos: &P) -> &Item {
        let (map, default) = self;
        if let Some(item) = map.get(pos) {
            item
        } else {
            default
        }
    }"""))
r("b-map-grid-set", "C19", ("mappos.rs", "        self[pos] = item;", "        *self.get_mut(&pos) = item;"))
r("b-path-step", "C20", ("mappos.rs", """        let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
        ret.push_front(-dir);
        pos = (pos + dir).or(Err(Error::InvalidMovement))?;
        maxiter -= 1;
        if maxiter == 0 {
            return Err(Error::Loop);
        }""", """        let Some(dir) = *map.get(&pos) else {
            return Err(Error::InvalidMovement);
        };
        let Ok(prev) = pos + dir else {
            return Err(Error::InvalidMovement);
        };
        ret.push_front(dir.flip());
        pos = prev;
        maxiter -= 1;
        if maxiter == 0 {
            return Err(Error::Loop);
        }"""))
r("b-path-cap", "C20 C22 C23 C24", ("mappos.rs", """    let distance = orig.manhattan(dest);
    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
""", """    let mut ret = collections::VecDeque::<Dir>::new();
"""))
r("b-path-deref", "C20", ("mappos.rs", "    while &pos != orig {", "    while pos != *orig {"))
r("b-path-into", "C20", ("mappos.rs", "    Ok(Vec::from(ret))", "    Ok(ret.into())"))
r("b-path-collect", "C20", ("mappos.rs", "    Ok(Vec::from(ret))", "    Ok(ret.into_iter().collect())"))
# ---- bf
r("b-bf-insert-first", "C21 C22", ("bf.rs", """                    self.nextfront.push((next_pos, -dir));
                    self.visited.insert(next_pos);""", """                    self.visited.insert(next_pos);
                    self.nextfront.push((next_pos, -dir));"""))
r("b-bf-go-ref", "C21 C22", ("bf.rs", """            for dir in Dir::iter::<D>() {
                if let Some(next_pos) = (self.go)(pos, dir) {
                    if self.visited.contains(&next_pos) {
                        continue;
                    }
                    self.nextfront.push((next_pos, -dir));
                    self.visited.insert(next_pos);
                }
            }""", """            for dir in Dir::iter::<D>() {
                let Some(next_pos) = (self.go)(pos, dir) else {
                    continue;
                };
                if !self.visited.contains(&next_pos) {
                    self.nextfront.push((next_pos, dir.flip()));
                    self.visited.insert(next_pos);
                }
            }"""))
r("b-bf-replace", "C21 C22", ("bf.rs", "        let front = mem::take(&mut self.nextfront);", "        let front = mem::replace(&mut self.nextfront, Vec::new());"))
r("b-bf-helper-method", "C21 C22", ("bf.rs", """            for dir in Dir::iter::<D>() {
                if let Some(next_pos) = (self.go)(pos, dir) {
                    if self.visited.contains(&next_pos) {
                        continue;
                    }
                    self.nextfront.push((next_pos, -dir));
                    self.visited.insert(next_pos);
                }
            }""", """            for dir in Dir::iter::<D>() {
                if let Some(next_pos) = (self.go)(pos, dir) {
                    self.enqueue(next_pos, -dir);
                }
            }"""), ("bf.rs", """/* Parameterized search interface""", """impl<GoFn, MySetPos, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize>
    BfIterator<GoFn, MySetPos, P, D, WORDS, SIZE>
where
    MySetPos: SetPos<P, WORDS, SIZE>,
    P: Copy,
{
    fn enqueue(&mut self, pos: P, dir: Dir) {
        if self.visited.contains(&pos) {
            return;
        }
        self.nextfront.push((pos, dir));
        self.visited.insert(pos);
    }
}

/* Parameterized search interface"""))
r("b-bf-new-ignore", "C21 C22", ("bf.rs", """        let _ = bfs.next();
        bfs""", """        bfs.next();
        bfs"""))
r("b-bfs-mapmov-while", "C22", ("bf.rs", """    for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
        from.set(pos, Some(dir));
        if found(pos) {
            return Ok((pos, from));
        }
    }""", """    let mut fronts = bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig);
    while let Some(front) = fronts.next() {
        for (pos, dir) in front {
            from.set(pos, Some(dir));
            if found(pos) {
                return Ok((pos, from));
            }
        }
    }"""))
r("b-bfs-match", "C22", ("bf.rs", """    let (dest, mapmov) =
        search_mapmov::<GoFn, FoundFn, MapPosDir, MySetPos, P, D, WORDS, SIZE>(go, orig, found)?;
    Ok((dest, camefrom_into_path(mapmov, orig, &dest)?))""", """    match search_mapmov::<GoFn, FoundFn, MapPosDir, MySetPos, P, D, WORDS, SIZE>(go, orig, found) {
        Ok((dest, mapmov)) => camefrom_into_path(mapmov, orig, &dest).map(|path| (dest, path)),
        Err(e) => Err(e),
    }"""))
# ---- astar / ucs
r("b-astar-relax", "C23", ("astar.rs", """                let newcost = self.cost.get(&pos) + 1;
                if let Some(next_pos) = (self.go)(pos, dir) {
                    if newcost < *self.cost.get(&next_pos) {
                        self.cost.set(next_pos, newcost);
                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                        self.frontier.push((priority, (next_pos, -dir)));
                    }
                }""", """                if let Some(next_pos) = (self.go)(pos, dir) {
                    let newcost = self.cost.get(&pos) + 1;
                    self.relax(next_pos, newcost, -dir);
                }"""), ("astar.rs", """/* Generic interface""", """impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize>
    AstarIterator<F, MapPosUsize, P, D, WORDS, SIZE>
where
    MapPosUsize: MapPos<usize, P, WORDS, SIZE>,
    P: Ord,
    P: Copy,
{
    fn relax(&mut self, pos: P, cost: usize, back: Dir) {
        if cost < *self.cost.get(&pos) {
            self.cost.set(pos, cost);
            let estimate = cost + heuristic::<P, D>(&pos, &self.dest);
            self.frontier.push((Reverse(estimate), (pos, back)));
        }
    }
}

/* Generic interface"""))
r("b-astar-stale", "C23", ("astar.rs", """            if priority > *self.cost.get(&pos) + heuristic::<P, D>(&pos, &self.dest) {
                continue;
            }""", """            let expected = *self.cost.get(&pos) + heuristic::<P, D>(&pos, &self.dest);
            if expected < priority {
                continue;
            }"""))
r("b-astar-destructure", "C23", ("astar.rs", """        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
            let pos = mov.0;""", """        while let Some((Reverse(priority), (pos, camefrom))) = self.frontier.pop() {"""), ("astar.rs", "            return Some(mov);", "            return Some((pos, camefrom));"))
r("b-astar-push-first", "C23", ("astar.rs", """                        self.cost.set(next_pos, newcost);
                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                        self.frontier.push((priority, (next_pos, -dir)));""", """                        let remaining = heuristic::<P, D>(&next_pos, &self.dest);
                        self.frontier
                            .push((Reverse(newcost + remaining), (next_pos, -dir)));
                        self.cost.set(next_pos, newcost);"""))
r("b-astar-heur-match", "C23", ("astar.rs", """    if D {
        pos.chebyshev(dest)
    } else {
        pos.manhattan(dest)
    }""", """    match D {
        true => dest.chebyshev(pos),
        false => dest.manhattan(pos),
    }"""))
r("b-ucs-relax", "C24", ("ucs.rs", """                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                    if newcost < *self.cost.get(&next_pos) {
                        self.cost.set(next_pos, newcost);
                        let priority = Reverse(newcost);
                        self.frontier.push((priority, (next_pos, -dir)));
                    }""", """                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                    self.relax(next_pos, newcost, -dir);"""), ("ucs.rs", """/* Generic interface""", """impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize>
    UcsIterator<F, MapPosUsize, P, D, WORDS, SIZE>
where
    MapPosUsize: MapPos<usize, P, WORDS, SIZE>,
    P: Ord,
    P: Copy,
{
    fn relax(&mut self, pos: P, cost: Cost, back: Dir) {
        if cost < *self.cost.get(&pos) {
            self.cost.set(pos, cost);
            self.frontier.push((Reverse(cost), (pos, back)));
        }
    }
}

/* Generic interface"""))
r("b-ucs-mapmov-while", "C24", ("ucs.rs", """    for (pos, dir) in UcsIterator::<F, MapPosUsize, P, D, WORDS, SIZE>::new(go, orig) {
        from.set(pos, Some(dir));""", """    let mut it = UcsIterator::<F, MapPosUsize, P, D, WORDS, SIZE>::new(go, orig);
    while let Some((pos, dir)) = it.next() {
        from.set(pos, Some(dir));"""))
r("b-ucs-newcost-first", "C24", ("ucs.rs", """        it.frontier.push((Reverse(0), (*orig, Dir::default())));
        it.cost.set(*orig, 0);
        it""", """        let start = (*orig, Dir::default());
        it.cost.set(start.0, 0);
        it.frontier.push((Reverse(0), start));
        it"""))
r("b-ucs-new-build", "C24", ("ucs.rs", """        let mut it = UcsIterator {
            cost: MapPosUsize::new(usize::MAX),
            frontier: BinaryHeap::default(),
            go,
        };
        it.frontier.push((Reverse(0), (*orig, Dir::default())));
        it.cost.set(*orig, 0);
        it""", """        let mut cost = MapPosUsize::new(usize::MAX);
        cost.set(*orig, 0);
        let mut frontier = BinaryHeap::new();
        frontier.push((Reverse(0), (*orig, Dir::default())));
        UcsIterator { cost, frontier, go }"""))
r("b-ucs-path-map", "C24", ("ucs.rs", """    let mapmov = search_mapmov::<F, MapPosDir, MapPosUsize, P, D, WORDS, SIZE>(go, orig, dest)?;
    camefrom_into_path(mapmov, orig, dest)""", """    search_mapmov::<F, MapPosDir, MapPosUsize, P, D, WORDS, SIZE>(go, orig, dest)
        .and_then(|mapmov| camefrom_into_path(mapmov, orig, dest))"""))
r("b-ucs-plugin-direct", "C24", ("ucs.rs", "        Self::ucs_path_grid::<F, P>(go, orig, dest)", "        search_path_grid::<F, P, D, WORDS, SIZE>(go, orig, dest)"))
# ---- renamed parameters and locals
def ren(i, props, f, start, end, **names):
    """rename identifiers between two marks of a file"""
    t = open("/repo/src/sqrid/" + f).read()
    a = t.index(start)
    b = t.index(end, a)
    seg = t[a:b]
    new = seg
    for k, v in names.items():
        new = re.sub(r"(?<![.\w])%s\b(?!\s*\()" % k, v, new)
    r(i, props, (f, seg, new))
ren("c-bf-next", "C21", "bf.rs", "    fn next(&mut self)", "/* Parameterized search", front="current", pos="here", dir="heading", next_pos="there")
ren("c-bfs-mapmov", "C22", "bf.rs", "    let mut from = MapPosDir::default();", "/* Param", pos="p", dir="d")
ren("c-astar-next", "C23", "astar.rs", "        while let Some((Reverse(priority)", "/* Generic", priority="estimate", mov="entry", pos="here", dir="d", newcost="steps", next_pos="there")
ren("c-ucs-next", "C24", "ucs.rs", "        while let Some((Reverse(priority)", "/* Generic", priority="total", mov="entry", pos="here", dir="d", newcost="c", next_pos="there", costincr="extra")
ren("c-ucs-mapmov", "C24", "ucs.rs", "    let mut from = MapPosDir::default();", "pub fn search_path<", pos="p", dir="d")
ren("c-path", "C20", "mappos.rs", "    map: MapPosDir,", "/* Add camefrom", map="froms", orig="start", dest="goal", ret="path", pos="here", maxiter="left", dir="step")
ren("c-grid-flip", "C15", "grid.rs", "    pub fn flip_h", "    pub fn extend_from_vecvec", pos1="a", pos2="b", x="col", y="row")
ren("c-grid-rot", "C15", "grid.rs", "    pub fn rotate_cw", "/* default", pos1="a", pos2="b", pos3="c", pos4="d") if "/* default" in open("/repo/src/sqrid/grid.rs").read() else None
ren("c-grid-vecvec", "C16", "grid.rs", "    pub fn extend_from_vecvec", "impl<T, const W", v="rows", line="row", c="cell", p="pos")
ren("c-grid-extend", "C16", "grid.rs", "impl<T, P: PosT, const SIZE: usize> iter::Extend<(P, T)>", "impl<'a, T: 'a + Copy, P: PosT, const SIZE: usize> iter::Extend<(P, &'a T)>", iter="items", pos="at", member="value")
ren("c-gb-flip", "C18", "gridbool.rs", "    pub fn flip_h", "impl<const XYMAX", pos1="a", pos2="b", tmp="saved", x="col", y="row")
ren("c-gb-rot", "C18", "gridbool.rs", "    pub fn rotate_cw", "    pub fn rotate_cc", pos0="a", pos1="b", pos2="c", pos3="d", values="old")
ren("c-gb-get", "C17", "gridbool.rs", "    fn byte_bit(i", "    pub fn into_inner", posref="p", byte="word", bit="mask")
ren("c-pos-dist", "C11", "postrait.rs", "    fn manhattan(", "    fn to_usize", pos="other", dx="h", dy="v", pos1="a", pos2="b", xmin="left", xmax="right")
ren("c-pos-range", "C13", "postrait.rs", "impl<P: PosT> Iterator for PosTIterRange<P>", "/* PosIterInX/Y*/", pos0="current", pos="following")
ren("c-pos-tlbr", "C11", "postrait.rs", "    fn tlbr_of", "    fn rotate_cw", firstpos="p0", tl="lo", br="hi", t="xy")
ren("c-bi-iter", "C03", "boundedint.rs", "impl<T: BoundedInt> Iterator for", "macro_rules! boundedint_impl_tryfrom", value="v")
ren("c-dir-add", "C06", "dir.rs", "impl<T: BoundedInt, U: BoundedInt> ops::Add<Dir> for (T, U)", "impl<T: BoundedInt, U: BoundedInt> ops::Add<Dir> for &(T, U)", rhs="d", p0="x", p1="y")
# ---- text
r("d-text-for-head", "C25", ("grid.rs", """    let str_x = (0..w)
        .map(|i| {
            format!("{:width$}", i, width = ndigits_x)
                .chars()
                .collect::<Vec<_>>()
        })
        .collect::<Vec<_>>();""", """    let mut str_x = Vec::with_capacity(w);
    for i in 0..w {
        let label = format!("{:width$}", i, width = ndigits_x);
        str_x.push(label.chars().collect::<Vec<_>>());
    }"""))
r("d-text-right", "C25", ("grid.rs", '            format!("{:width$}", i, width = ndigits_x)', '            format!("{:>width$}", i, width = ndigits_x)'))
r("d-text-implicit", "C25", ("grid.rs", 'f.write_fmt(format_args!("{:width$} ", y, width = ndigits_y))?;', 'write!(f, "{y:ndigits_y$} ")?;'))
r("d-text-tostring", "C25", ("grid.rs", 'let ndigits_x = format!("{}", w - 1).len();', 'let ndigits_x = (w - 1).to_string().len();'), ("grid.rs", 'self.iter().map(|v| format!("{}", v)),', 'self.iter().map(|v| v.to_string()),'))
r("d-text-row-label", "C25", ("grid.rs", """        for _x in 0..w {
            if y != last_y {
                // We are printing a new line:
                if y > 0 {
                    // End the current line before first:
                    f.write_str("\\n")?;
                }
                // Print the line number as a label:
                f.write_fmt(format_args!("{:width$} ", y, width = ndigits_y))?;
                last_y = y;
            }
            let s = it.next().unwrap();""", """        if y > 0 {
            f.write_str("\\n")?;
        }
        f.write_fmt(format_args!("{:width$} ", y, width = ndigits_y))?;
        for _x in 0..w {
            let s = it.next().unwrap();"""), ("grid.rs", "    let mut last_y = h;\n", ""))
r("d-text-writeln", "C25", ("grid.rs", """            let s = it.next().unwrap();
            f.pad(&s)?;
        }
    }
    f.write_str("\\n")?;
    headerfooter(f)""", """            let cell = it.next().unwrap();
            f.pad(&cell)?;
        }
    }
    writeln!(f)?;
    headerfooter(f)"""))
r("d-text-header-fn", "C25", ("grid.rs", """    let headerfooter = |f: &mut fmt::Formatter<'_>| {
        for digit in 0..ndigits_x {
            f.write_fmt(format_args!("{:width$} ", "", width = ndigits_y))?;
            for cell in str_x.iter() {
                f.pad(&cell[digit].to_string())?;
            }
            f.write_str("\\n")?;
        }
        Ok(())
    };
    headerfooter(f)?;""", """    display_labels(f, ndigits_x, ndigits_y, &str_x)?;"""), ("grid.rs", """    headerfooter(f)
}""", """    display_labels(f, ndigits_x, ndigits_y, &str_x)
}

/// Print the column labels
fn display_labels(
    f: &mut fmt::Formatter<'_>,
    ndigits_x: usize,
    ndigits_y: usize,
    str_x: &[Vec<char>],
) -> fmt::Result {
    for digit in 0..ndigits_x {
        f.write_fmt(format_args!("{:width$} ", "", width = ndigits_y))?;
        for cell in str_x.iter() {
            f.pad(&cell[digit].to_string())?;
        }
        f.write_str("\\n")?;
    }
    Ok(())
}"""))
r("d-text-bool-match", "C25 C18", ("gridbool.rs", """self.iter().map(|b| (if b { "#" } else { "." }).to_string()),""", """self.iter().map(|b| match b {
                true => "#".to_string(),
                false => ".".to_string(),
            }),"""))
r("d-text-bool-from", "C25", ("gridbool.rs", """self.iter().map(|b| (if b { "#" } else { "." }).to_string()),""", """self.iter().map(|b| String::from(if b { "#" } else { "." })),"""))
r("d-text-pos-write", "C25 C04", ("pos.rs", '        write!(f, "({},{})", self.x(), self.y())', '        let (x, y) = self.tuple();\n        write!(f, "({x},{y})")'))
r("d-text-dir-str", "C08", ("dir.rs", '        write!(f, "{}", self.name_cardinal())', '        f.write_str(self.name_cardinal())'))
r("d-text-comment", "C25", ("grid.rs", "    let ndigits_y = format!", "    let _ = w;\n    let ndigits_y = format!"))
ren("d-text-names", "C25", "grid.rs", "    // Column labels as a vec of vec", "/// Pretty-printer [`Grid`]", s="text", cell="label", digit="k", str_x="labels", last_y="prev", y="row")
r("d-text-next-if", "C25", ("grid.rs", """            let s = it.next().unwrap();
            f.pad(&s)?;""", """            if let Some(s) = it.next() {
                f.pad(&s)?;
            }"""))
