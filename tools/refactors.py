#!/usr/bin/env python3
"""refactors.py [ID...]: behaviour-preserving edits; runs the checks they concern on a scratch
copy with the edit applied and reports which stay quiet (rc 0), which alarm, and what is left
undischarged."""
import os, re, shutil, subprocess, sys, time
V = os.environ.get("VX_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = {}
def r(i, props, *edits):
    R[i] = (props.split(), edits)

# ---- boundedint
r("bi-new-range", "C01 C02", ("boundedint.rs", """                if v < MIN || v > MAX {
                    Err(Error::OutOfBounds)
                } else {
                    Ok(Self(v))
                }""", """                if v >= MIN && v <= MAX {
                    Ok(Self(v))
                } else {
                    Err(Error::OutOfBounds)
                }"""))
r("bi-add-and-then", "C01 C02 C06", ("boundedint.rs", """                self.0
                    .checked_add(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))""", """                let sum = self.0.checked_add(other.0)?;
                if sum < MIN || sum > MAX {
                    return None;
                }
                Some(Self(sum))"""))
r("bi-sub-new-ok", "C01 C02 C06", ("boundedint.rs", """                self.0
                    .checked_sub(other.0)
                    .map(|v| Self(v))
                    .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))""", """                match self.0.checked_sub(other.0) {
                    Some(v) => Self::new(v).ok(),
                    None => None,
                }"""))
r("bi-helper-in-bounds", "C01 C02", ("boundedint.rs", """        impl<const MIN: $type, const MAX: $type> $name<MIN, MAX> {
""", """        impl<const MIN: $type, const MAX: $type> $name<MIN, MAX> {
            const fn in_bounds(v: $type) -> bool {
                v >= MIN && v <= MAX
            }

"""), ("boundedint.rs", "                if v < MIN || v > MAX {", "                if !Self::in_bounds(v) {"),
  ("boundedint.rs", "                assert!(v >= MIN && v <= MAX);", "                assert!(Self::in_bounds(v));"))
r("bi-iter-match", "C03 C12", ("boundedint.rs", """        let value = self.start;
        if self.start == self.end {
            self.start = None;
            self.end = None;
        } else if let Some(start) = self.start {
            self.start = start.inc();
        }
        value""", """        let value = self.start?;
        if self.start == self.end {
            self.end = None;
            self.start = None;
        } else {
            self.start = value.inc();
        }
        Some(value)"""))
r("bi-iter-take", "C03", ("boundedint.rs", """        let value = self.end;
        if self.start == self.end {
            self.start = None;
            self.end = None;
        } else if let Some(end) = self.end {
            self.end = end.dec();
        }
        value""", """        let value = self.end.take();
        if self.start == value {
            self.start = None;
        } else if let Some(end) = value {
            self.end = end.dec();
        }
        value"""))
r("bi-default-match", "C01", ("boundedint.rs", """                if MIN > <$type>::default() {
                    <Self as BoundedInt>::MIN
                } else if MAX < <$type>::default() {
                    <Self as BoundedInt>::MAX
                } else {
                    Self(<$type>::default())
                }""", """                let zero = <$type>::default();
                if MAX < zero {
                    return <Self as BoundedInt>::MAX;
                }
                if MIN > zero {
                    return <Self as BoundedInt>::MIN;
                }
                Self(zero)"""))
# ---- dir
r("dir-neg-inline", "C07", ("dir.rs", "        self.flip()\n", "        self.rotate(&Dir::S)\n"))
r("dir-rotate-let", "C07", ("dir.rs", "        Dir::ALL8[(*self as usize + *other as usize) % Self::SIZE]", "        let steps = *self as usize + *other as usize;\n        if steps >= Self::SIZE {\n            Dir::ALL8[steps - Self::SIZE]\n        } else {\n            Dir::ALL8[steps]\n        }"))
r("dir-iter-map", "C07 C21", ("dir.rs", """        if let Some(i) = self.0.take() {
            self.0 = i.next::<D>();
            Some(i)
        } else {
            None
        }""", """        let i = self.0?;
        self.0 = i.next::<D>();
        Some(i)"""))
r("dir-add-reorder", "C06", ("dir.rs", """        let (p0, p1) = self;
        let (x_opt, y_opt) = match rhs {
            Dir::N => (Some(p0), U::dec(p1)),
            Dir::NE => (T::inc(p0), U::dec(p1)),
            Dir::E => (T::inc(p0), Some(p1)),
            Dir::SE => (T::inc(p0), U::inc(p1)),
            Dir::S => (Some(p0), U::inc(p1)),
            Dir::SW => (T::dec(p0), U::inc(p1)),
            Dir::W => (T::dec(p0), Some(p1)),
            Dir::NW => (T::dec(p0), U::dec(p1)),
        };
        Ok((
            x_opt.ok_or(Error::OutOfBounds)?,
            y_opt.ok_or(Error::OutOfBounds)?,
        ))""", """        let (p0, p1) = self;
        let x_opt = match rhs {
            Dir::N | Dir::S => Some(p0),
            Dir::NE | Dir::E | Dir::SE => p0.inc(),
            Dir::SW | Dir::W | Dir::NW => p0.dec(),
        };
        let y_opt = match rhs {
            Dir::E | Dir::W => Some(p1),
            Dir::N | Dir::NE | Dir::NW => p1.dec(),
            Dir::S | Dir::SE | Dir::SW => p1.inc(),
        };
        match (x_opt, y_opt) {
            (Some(x), Some(y)) => Ok((x, y)),
            _ => Err(Error::OutOfBounds),
        }"""))
r("dir-fromstr-match", "C08", ("dir.rs", """        let mut chars = s.chars();
        let c = chars.next().ok_or(Error::DirParseError)?;
        if chars.next().is_some() {
            return Err(Error::DirParseError);
        }
        Dir::try_from(c)""", """        let mut chars = s.chars();
        match (chars.next(), chars.next()) {
            (Some(c), None) => Dir::try_from(c),
            _ => Err(Error::DirParseError),
        }"""))
r("dir-char-or", "C08", ("dir.rs", """            'N' => Ok(Dir::N),
            'E' => Ok(Dir::E),
            'S' => Ok(Dir::S),
            'W' => Ok(Dir::W),
            'n' => Ok(Dir::N),
            'e' => Ok(Dir::E),
            's' => Ok(Dir::S),
            'w' => Ok(Dir::W),
""", """            'N' | 'n' => Ok(Dir::N),
            'E' | 'e' => Ok(Dir::E),
            'S' | 's' => Ok(Dir::S),
            'W' | 'w' => Ok(Dir::W),
"""))
# ---- postrait, pos, posdir
r("pos-xy-abs", "C11 C20 C23", ("postrait.rs", """    fn manhattan(&self, pos: &Self) -> usize {
        let dx = if self.x() > pos.x() {
            self.x().checked_sub(pos.x()).unwrap()
        } else {
            pos.x().checked_sub(self.x()).unwrap()
        };
        let dy = if self.y() > pos.y() {
            self.y().checked_sub(pos.y()).unwrap()
        } else {
            pos.y().checked_sub(self.y()).unwrap()
        };
        into_or_panic!(dx) + into_or_panic!(dy)
    }
""", """    fn manhattan(&self, pos: &Self) -> usize {
        let (dx, dy) = self.deltas(pos);
        dx + dy
    }

    /// Absolute differences of the coordinates
    fn deltas(&self, pos: &Self) -> (usize, usize) {
        let dx = if self.x() > pos.x() {
            self.x().checked_sub(pos.x()).unwrap()
        } else {
            pos.x().checked_sub(self.x()).unwrap()
        };
        let dy = if self.y() > pos.y() {
            self.y().checked_sub(pos.y()).unwrap()
        } else {
            pos.y().checked_sub(self.y()).unwrap()
        };
        (into_or_panic!(dx), into_or_panic!(dy))
    }
"""))
r("pos-inside-minmax", "C11", ("postrait.rs", """        let (xmin, xmax) = if pos1.x() < pos2.x() {
            (pos1.x(), pos2.x())
        } else {
            (pos2.x(), pos1.x())
        };
        let (ymin, ymax) = if pos1.y() < pos2.y() {
            (pos1.y(), pos2.y())
        } else {
            (pos2.y(), pos1.y())
        };
        xmin <= self.x() && self.x() <= xmax && ymin <= self.y() && self.y() <= ymax""", """        let between = |v, a, b| (a <= v && v <= b) || (b <= v && v <= a);
        between(self.x(), pos1.x(), pos2.x())
            && ((pos1.y() <= self.y() && self.y() <= pos2.y())
                || (pos2.y() <= self.y() && self.y() <= pos1.y()))"""))
r("pos-next-match", "C12 C13", ("postrait.rs", """        if let Some(x) = self.x().inc() {
            return Some(Self::new_((x, self.y())));
        }
        self.y().inc().map(|y| Self::new_((Self::Xtype::MIN, y)))""", """        match (self.x().inc(), self.y().inc()) {
            (Some(x), _) => Some(Self::new_((x, self.y()))),
            (None, Some(y)) => Some(Self::new_((Self::Xtype::MIN, y))),
            (None, None) => None,
        }"""))
r("pos-iter-helper", "C12", ("postrait.rs", """        } else if let Some(cur) = self.cur {
            if XFIRST {
                self.cur = cur.next();
            } else {
                self.cur = cur.next_y();
            }
        }
        old""", """        } else {
            self.cur = self
                .cur
                .and_then(|cur| if XFIRST { cur.next() } else { cur.next_y() });
        }
        old"""))
r("pos-range-step", "C13", ("postrait.rs", """            let mut pos = pos0.next();
            if let Some(p) = &pos {
                if p.x() < self.topleft.x() {
                    pos = P::new(self.topleft.x(), p.y()).ok();
                } else if p.x() > self.botright.x() {
                    let y = p.y().inc();
                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                }
            }
            self.value = pos.filter(|p| p.y() <= self.botright.y());
            Some(pos0)""", """            let pos = if pos0.x() < self.botright.x() {
                pos0.x().inc().and_then(|x| P::new(x, pos0.y()).ok())
            } else {
                pos0.y().inc().and_then(|y| P::new(self.topleft.x(), y).ok())
            };
            self.value = pos.filter(|p| p.y() <= self.botright.y());
            Some(pos0)"""))
r("pos-tlbr-loop", "C11", ("postrait.rs", """            let (tl_tuple, br_tuple) =
                iter.fold((firstpos.tuple(), firstpos.tuple()), |(tl, br), pos| {
                    let t = pos.tuple();
                    (
                        (
                            if t.0 < tl.0 { t.0 } else { tl.0 },
                            if t.1 < tl.1 { t.1 } else { tl.1 },
                        ),
                        (
                            if t.0 > br.0 { t.0 } else { br.0 },
                            if t.1 > br.1 { t.1 } else { br.1 },
                        ),
                    )
                });
            Ok((Self::new_(tl_tuple), Self::new_(br_tuple)))""", """            let mut tl = firstpos.tuple();
            let mut br = firstpos.tuple();
            for pos in iter {
                let (x, y) = pos.tuple();
                if x < tl.0 {
                    tl.0 = x;
                }
                if y < tl.1 {
                    tl.1 = y;
                }
                if x > br.0 {
                    br.0 = x;
                }
                if y > br.1 {
                    br.1 = y;
                }
            }
            Ok((Self::new_(tl), Self::new_(br)))"""))
r("pos-tousize-order", "C05 C14", ("postrait.rs", """        let y = into_or_panic!(self.y());
        let x = into_or_panic!(self.x());
        y * Self::width() + x""", """        let x: usize = into_or_panic!(self.x());
        let y: usize = into_or_panic!(self.y());
        x + Self::width() * y"""))
r("pos-tryusize-split", "C05", ("postrait.rs", """        let width = Self::width();
        Self::new(i % width, i / width)""", """        let y = i / Self::width();
        let x = i - y * Self::width();
        Self::new(x, y)"""))
r("pos-new-map", "C04", ("postrait.rs", """        let x = Self::Xtype::try_from(x).map_err(|_| Error::OutOfBounds)?;
        let y = Self::Ytype::try_from(y).map_err(|_| Error::OutOfBounds)?;
        Ok(Self::new_((x, y)))""", """        match (Self::Xtype::try_from(x), Self::Ytype::try_from(y)) {
            (Ok(x), Ok(y)) => Ok(Self::new_((x, y))),
            _ => Err(Error::OutOfBounds),
        }"""))
r("pos-new-const-if", "C04", ("pos.rs", """        let Ok(x) = BoundedU16::<0, XMAX>::new(x) else {
            return Err(Error::OutOfBounds);
        };
        let Ok(y) = BoundedU16::<0, YMAX>::new(y) else {
            return Err(Error::OutOfBounds);
        };
        Ok(Pos((x, y)))""", """        if x > XMAX || y > YMAX {
            return Err(Error::OutOfBounds);
        }
        Ok(Self::new_unwrap(x, y))"""))
r("pos-flip-self", "C10 C15 C18", ("postrait.rs", """        Self::new(Self::Xtype::MAX.checked_sub(self.x()).unwrap(), self.y()).unwrap()""", """        let x = Self::Xtype::MAX.checked_sub(self.x()).unwrap();
        Self::new_((x, self.y()))"""))
r("pos-corner-helper", "C10", ("postrait.rs", """        (self.x() == Self::Xtype::MIN || self.x() == Self::Xtype::MAX)
            && (self.y() == Self::Ytype::MIN || self.y() == Self::Ytype::MAX)""", """        let x_edge = self.x() == Self::Xtype::MIN || self.x() == Self::Xtype::MAX;
        let y_edge = self.y() == Self::Ytype::MAX || self.y() == Self::Ytype::MIN;
        y_edge && x_edge"""))
r("posdir-to-if", "C09", ("posdir.rs", """        match (tsrc.0.cmp(&tdst.0), tsrc.1.cmp(&tdst.1)) {
            (Equal, Equal) => None,
            (_, Greater) => Some(Dir::N),
            (Less, _) => Some(Dir::E),
            (_, Less) => Some(Dir::S),
            (Greater, _) => Some(Dir::W),
        }""", """        if tsrc.1 > tdst.1 {
            Some(Dir::N)
        } else if tsrc.0 < tdst.0 {
            Some(Dir::E)
        } else if tsrc.1 < tdst.1 {
            Some(Dir::S)
        } else if tsrc.0 > tdst.0 {
            Some(Dir::W)
        } else {
            None
        }"""))
r("posdir-add-map", "C06", ("posdir.rs", "        Ok(Self::from((self.0 + rhs)?))", "        (self.0 + rhs).map(Self::from)"))
# ---- grid
r("grid-flip-loops", "C15", ("grid.rs", """        for y in P::iter_y() {
            for x in 0..P::width() / 2 {
                let pos1 = P::new(x, y).unwrap();""", """        for x in 0..P::width() / 2 {
            for y in P::iter_y() {
                let pos1 = P::new(x, y).unwrap();"""))
r("grid-flip-while", "C15", ("grid.rs", """        for y in 0..P::height() / 2 {
            for x in P::iter_x() {
                let pos1 = P::new(x, y).unwrap();
                let pos2 = pos1.flip_v();
                self.0.swap(pos1.to_usize(), pos2.to_usize());
            }
        }""", """        let mut y = 0;
        while y < P::height() / 2 {
            for x in P::iter_x() {
                let pos1 = P::new(x, y).unwrap();
                self.0.swap(pos1.to_usize(), pos1.flip_v().to_usize());
            }
            y += 1;
        }"""))
r("grid-rot-len", "C15", ("grid.rs", """    pub fn rotate_cw(&mut self) {
        for y in 0..Pos::<W, W>::height() / 2 {
            for x in y..Pos::<W, W>::height() - 1 - y {""", """    pub fn rotate_cw(&mut self) {
        let side = Pos::<W, W>::height();
        for y in 0..side / 2 {
            for x in y..side - 1 - y {"""))
r("grid-rot-helper", "C15", ("grid.rs", """                self.0.swap(pos1.to_usize(), pos2.to_usize());
                self.0.swap(pos1.to_usize(), pos3.to_usize());
                self.0.swap(pos1.to_usize(), pos4.to_usize());""", """                self.swap_pos(&pos1, &pos2);
                self.swap_pos(&pos1, &pos3);
                self.swap_pos(&pos1, &pos4);"""), ("grid.rs", """impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
""", """impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
    fn swap_pos(&mut self, a: &Pos<W, W>, b: &Pos<W, W>) {
        self.0.swap(a.to_usize(), b.to_usize());
    }
"""))
r("grid-line-expr", "C14", ("grid.rs", """        let start = lineno * width;
        let end = start + width;
        &self.0[start..end]""", """        let start: usize = width * lineno;
        &self.0[start..start + width]"""))
r("grid-index-inline", "C14 C16", ("grid.rs", """    fn index(&self, pos: P) -> &Self::Output {
        self.get(&pos)""", """    fn index(&self, pos: P) -> &Self::Output {
        &self[&pos]"""))
r("grid-vecvec-get", "C16", ("grid.rs", """            for (x, c) in line.into_iter().enumerate() {
                let p = P::new(x, y)?;
                self[p] = c;
            }""", """            for (x, c) in line.into_iter().enumerate() {
                *self.get_mut(&P::new(x, y)?) = c;
            }"""))
r("grid-fromiter-match", "C16", ("grid.rs", """            if let Some(fromiter) = it.next() {
                *item = fromiter;
            } else {
                panic!("iterator too short for grid type");
            }""", """            match it.next() {
                Some(fromiter) => *item = fromiter,
                None => panic!("iterator too short for grid type"),
            }"""))
r("grid-tryfrom-split", "C16", ("grid.rs", """        if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
            return Err(Error::OutOfBounds);
        }""", """        let (width, height) = (P::width(), P::height());
        if vec.len() > height {
            return Err(Error::OutOfBounds);
        }
        if !vec.iter().all(|v| v.len() <= width) {
            return Err(Error::OutOfBounds);
        }"""))
r("grid-extend-var", "C16", ("grid.rs", """        for (pos, member) in iter.into_iter() {
            self[pos] = member;
        }""", """        for (p, value) in iter {
            self[p] = value;
        }"""))
# ---- gridbool
r("gb-get-shift", "C17 C18", ("gridbool.rs", "        self.0[byte] & bit != 0", "        (self.0[byte] & bit) == bit"))
r("gb-bytebit-ops", "C17 C18", ("gridbool.rs", """        let byte = i / 32;
        let bit = 0x80000000 >> (i % 32);
        (byte, bit)""", """        let byte = i >> 5;
        let bit = 1u32 << (31 - (i & 31));
        (byte, bit)"""))
r("gb-set-match", "C17 C18 C19", ("gridbool.rs", """        if value {
            self.set_t(posref)
        } else {
            self.set_f(posref)
        }""", """        let (byte, bit) = Self::byte_bit(posref.to_usize());
        if value {
            self.0[byte] |= bit;
        } else {
            self.0[byte] &= !bit;
        }"""))
r("gb-flip-swap", "C18", ("gridbool.rs", """        for y in P::iter_y() {
            for x in 0..P::width() / 2 {
                let pos1 = P::new(x, y).unwrap();
                let pos2 = pos1.flip_h();
                let tmp = self.get(&pos1);
                self.set(&pos1, self.get(&pos2));
                self.set(&pos2, tmp);
            }
        }""", """        for y in P::iter_y() {
            for x in 0..P::width() / 2 {
                let left = P::new(x, y).unwrap();
                self.swap(&left, &left.flip_h());
            }
        }"""), ("gridbool.rs", """    /// Flip all elements horizontally.
""" , """    fn swap(&mut self, a: &P, b: &P) {
        let (va, vb) = (self.get(a), self.get(b));
        self.set(a, vb);
        self.set(b, va);
    }

    /// Flip all elements horizontally.
"""))
r("gb-rot-vars", "C18", ("gridbool.rs", """                let values = [
                    self.get(&pos0),
                    self.get(&pos1),
                    self.get(&pos2),
                    self.get(&pos3),
                ];
                self.set(&pos0, values[3]);
                self.set(&pos1, values[0]);
                self.set(&pos2, values[1]);
                self.set(&pos3, values[2]);""", """                let v0 = self.get(&pos0);
                let v3 = self.get(&pos3);
                self.set(&pos3, self.get(&pos2));
                self.set(&pos2, self.get(&pos1));
                self.set(&pos1, v0);
                self.set(&pos0, v3);"""))
r("gb-setiter-foreach", "C18", ("gridbool.rs", """        for pos in positer {
            self.set_t(&pos);
        }""", """        positer.for_each(|pos| self.set_t(&pos));"""))
r("gb-index-match", "C17", ("gridbool.rs", """    fn index(&self, pos: P) -> &Self::Output {
        // Trick to be able to return reference to boolean as required
        // by trait:
        if self.get(&pos) {
            &Self::TRUE
        } else {
            &Self::FALSE
        }""", """    fn index(&self, pos: P) -> &Self::Output {
        &self[&pos]"""))
# ---- sets, maps, paths
r("set-hash-qualified", "C19", ("setpos.rs", """    for collections::HashSet<P>
where
    P: Eq + std::hash::Hash,
{
    fn contains(&self, pos: &P) -> bool {
        self.contains(pos)""", """    for collections::HashSet<P>
where
    P: Eq + std::hash::Hash,
{
    fn contains(&self, pos: &P) -> bool {
        self.get(pos).is_some()"""))
r("map-hash-match", "C19", ("mappos.rs", """    for (collections::HashMap<P, Item>, Item)
where
    P: Eq + std::hash::Hash,
{
    fn new(item: Item) -> Self {
        (Default::default(), item)
    }
    fn get(&self, pos: &P) -> &Item {
        self.0.get(pos).unwrap_or(&self.1)""", """    for (collections::HashMap<P, Item>, Item)
where
    P: Eq + std::hash::Hash,
{
    fn new(item: Item) -> Self {
        (collections::HashMap::new(), item)
    }
    fn get(&self, pos: &P) -> &Item {
        match self.0.get(pos) {
            Some(item) => item,
            None => &self.1,
        }"""))
r("path-reverse", "C20 C22", ("mappos.rs", """    let distance = orig.manhattan(dest);
    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
""", """    let mut ret = Vec::<Dir>::new();
"""), ("mappos.rs", "        ret.push_front(-dir);", "        ret.push(-dir);"), ("mappos.rs", "    Ok(Vec::from(ret))", "    ret.reverse();\n    Ok(ret)"))
r("path-count-up", "C20 C23", ("mappos.rs", "    let mut maxiter = P::dimensions() + 1;", "    let mut steps = 0;"), ("mappos.rs", """        maxiter -= 1;
        if maxiter == 0 {""", """        steps += 1;
        if steps > P::dimensions() {"""))
r("path-match", "C20", ("mappos.rs", "        let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;", """        let Some(dir) = *map.get(&pos) else {
            return Err(Error::InvalidMovement);
        };"""))
r("path-loop", "C20 C24", ("mappos.rs", """    while &pos != orig {
        let dir""", """    loop {
        if pos == *orig {
            break;
        }
        let dir"""))
# ---- searches
r("bf-not-contains", "C21 C22", ("bf.rs", """                    if self.visited.contains(&next_pos) {
                        continue;
                    }
                    self.nextfront.push((next_pos, -dir));
                    self.visited.insert(next_pos);""", """                    if !self.visited.contains(&next_pos) {
                        self.visited.insert(next_pos);
                        self.nextfront.push((next_pos, -dir));
                    }"""))
r("bf-local-front", "C21 C22", ("bf.rs", """                    self.nextfront.push((next_pos, -dir));""", """                    nextfront.push((next_pos, -dir));"""), ("bf.rs", """        for &(pos, _) in &front {""", """        let mut nextfront = Vec::new();
        for &(pos, _) in &front {"""), ("bf.rs", """        Some(front)
""", """        self.nextfront = nextfront;
        Some(front)
"""))
r("bf-iter-field", "C21 C22", ("bf.rs", "        for &(pos, _) in &front {\n", "        for entry in front.iter() {\n            let pos = entry.0;\n"))
r("bf-helper", "C21 C22", ("bf.rs", """                if let Some(next_pos) = (self.go)(pos, dir) {
                    if self.visited.contains(&next_pos) {
                        continue;
                    }
                    self.nextfront.push((next_pos, -dir));
                    self.visited.insert(next_pos);
                }""", """                if let Some(next_pos) = (self.go)(pos, dir) {
                    self.enqueue(next_pos, dir);
                }"""), ("bf.rs", """        // Process origins:
        let _ = bfs.next();
        bfs
    }
}
""", """        // Process origins:
        let _ = bfs.next();
        bfs
    }
}

impl<GoFn, MySetPos, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize>
    BfIterator<GoFn, MySetPos, P, D, WORDS, SIZE>
where
    MySetPos: SetPos<P, WORDS, SIZE>,
    P: Copy,
{
    fn enqueue(&mut self, pos: P, dir: Dir) {
        if self.visited.contains(&pos) {
            return;
        }
        self.nextfront.push((pos, -dir));
        self.visited.insert(pos);
    }
}
"""))
r("bfs-nested", "C22", ("bf.rs", """    for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
        from.set(pos, Some(dir));
        if found(pos) {
            return Ok((pos, from));
        }
    }""", """    for front in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig) {
        for (pos, dir) in front {
            from.set(pos, Some(dir));
            if found(pos) {
                return Ok((pos, from));
            }
        }
    }"""))
r("bfs-path-let", "C22", ("bf.rs", """    Ok((dest, camefrom_into_path(mapmov, orig, &dest)?))""", """    let path = camefrom_into_path(mapmov, orig, &dest)?;
    Ok((dest, path))"""))
r("astar-hoist", "C23", ("astar.rs", """            for dir in Dir::iter::<D>() {
                let newcost = self.cost.get(&pos) + 1;
                if let Some(next_pos)""", """            let newcost = self.cost.get(&pos) + 1;
            for dir in Dir::iter::<D>() {
                if let Some(next_pos)"""))
r("astar-loop-match", "C23", ("astar.rs", """        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
            let pos = mov.0;""", """        loop {
            let Some((Reverse(priority), mov)) = self.frontier.pop() else {
                return None;
            };
            let pos = mov.0;"""), ("astar.rs", """            return Some(mov);
        }
        None
    }""", """            return Some(mov);
        }
    }"""))
r("astar-push-order", "C23", ("astar.rs", """                        self.cost.set(next_pos, newcost);
                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                        self.frontier.push((priority, (next_pos, -dir)));""", """                        let estimate = newcost + heuristic::<P, D>(&next_pos, &self.dest);
                        self.frontier.push((Reverse(estimate), (next_pos, -dir)));
                        self.cost.set(next_pos, newcost);"""))
r("astar-new-order", "C23", ("astar.rs", """        it.frontier.push((Reverse(0), (*orig, Dir::default())));
        it.cost.set(*orig, 0);
        it""", """        it.cost.set(*orig, 0);
        it.frontier.push((Reverse(0), (*orig, Dir::N)));
        it"""))
r("ucs-hoist", "C24", ("ucs.rs", """            let pos = mov.0;
            if priority > *self.cost.get(&pos) {
""", """            let (pos, _) = mov;
            let poscost = *self.cost.get(&pos);
            if poscost < priority {
"""))
r("ucs-else-continue", "C24", ("ucs.rs", """                if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                    if newcost < *self.cost.get(&next_pos) {
                        self.cost.set(next_pos, newcost);
                        let priority = Reverse(newcost);
                        self.frontier.push((priority, (next_pos, -dir)));
                    }
                }""", """                let Some((next_pos, costincr)) = (self.go)(pos, dir) else {
                    continue;
                };
                let newcost = self.cost.get(&pos).saturating_add(costincr);
                if newcost >= *self.cost.get(&next_pos) {
                    continue;
                }
                self.cost.set(next_pos, newcost);
                self.frontier.push((Reverse(newcost), (next_pos, -dir)));"""))
r("ucs-mapmov-eq", "C24", ("ucs.rs", """        from.set(pos, Some(dir));
        if pos == *dest {
            return Ok(from);
        }""", """        from.set(pos, Some(dir));
        if dest == &pos {
            return Ok(from);
        }"""))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors_b.py")).read())

def body(t, old):  # comments may stand in the way of an edit
    if old not in t:
        u = re.sub(r"(?m)^\s*//.*\n", "", t)
        if old in u:
            return u
    return t

def one(i, props=None):
    ps, edits = R[i]
    S = f"/tmp/refac/{i}"
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {S} --one-top-level=repo", shell=True, check=True)
    for f, old, new in edits:
        p = f"{S}/repo/src/sqrid/{f}"
        t = body(open(p).read(), old)
        if old not in t:
            print(i, "EDIT NOT FOUND", repr(old[:60]))
            shutil.rmtree(S)
            return
        open(p, "w").write(t.replace(old, new, 1) if f != "boundedint.rs" else t.replace(old, new))
    for pid in props or ps:
        env = dict(os.environ, VX_REPO=f"{S}/repo", VX_WORK=f"{S}/work", VERIF_SEED="1")
        t = time.time()
        p = subprocess.run(["python3", f"{V}/check.py", pid], capture_output=True, text=True, env=env)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        kind = "quiet" if p.returncode == 0 else ("NO-INPUT ALARM" if v and "no-failing" in v[0] else ("ALARM" if v else "NO ANSWER"))
        print(i, pid, kind, f"{time.time()-t:.0f}s")
        for l in p.stdout.strip().splitlines():
            print("      ", l[:300])
        if p.stderr.strip():
            print("      ", p.stderr[-500:])
        sys.stdout.flush()
    shutil.rmtree(S)

def apply_to(i, S):
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {S} --one-top-level=repo", shell=True, check=True)
    for f, old, new in R[i][1]:
        p = f"{S}/repo/src/sqrid/{f}"
        t = body(open(p).read(), old)
        assert old in t, old[:60]
        open(p, "w").write(t.replace(old, new, 1) if f != "boundedint.rs" else t.replace(old, new))

if __name__ == "__main__" and sys.argv[1:2] == ["-x"]:  # only apply one edit to a copy
    apply_to(sys.argv[2], sys.argv[3])
elif __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x not in ("-n", "-1")]
    for i in a or R:
        if "-n" in sys.argv:  # only that the edits apply and the tests pass
            ps, edits = R[i]
            S = f"/tmp/refac/{i}"
            shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
            subprocess.run(f"cp -a /repo {S}/repo && git -C {S}/repo checkout -q -- .", shell=True, check=True)
            for f, old, new in edits:
                p = f"{S}/repo/src/sqrid/{f}"; t = body(open(p).read(), old)
                if old not in t: print(i, "EDIT NOT FOUND", repr(old[:60])); continue
                open(p, "w").write(t.replace(old, new, 1) if f != "boundedint.rs" else t.replace(old, new))
            p = subprocess.run("timeout 300 cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E '^error|FAILED|warning: unused' | head -5", shell=True, cwd=f"{S}/repo", capture_output=True, text=True)
            print(i, "ok" if not p.stdout.strip() else p.stdout)
            shutil.rmtree(S)
        else:
            one(i, R[i][0][:1] if "-1" in sys.argv else None)  # -1: only the first property
