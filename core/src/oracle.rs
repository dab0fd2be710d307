//! Reference reader: what each query on the given bytes must return, written from the format
//! description (and the documented meaning of the error values), independently of the crate's code.
//! All ranges are absolute positions in the hive bytes.
use crate::fold;
use crate::model::units_of;
use nt_hive::NtHiveError as E;
use std::collections::HashSet;
use std::ops::Range;

pub type R<T> = Result<T, E>;

pub use crate::build::{BASE, NIL, SEG};

fn sat(v: u64) -> usize {
    usize::try_from(v).unwrap_or(usize::MAX)
}

#[derive(Clone, Copy)]
pub struct Oracle<'a> {
    pub all: &'a [u8],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub off: u32,
    pub cell: Range<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub off: u32,
    pub cell: Range<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NameR {
    pub latin1: bool,
    pub range: Range<usize>,
}

#[derive(Clone, Debug)]
pub enum Sub {
    Leaf(Vec<R<Node>>),
    Root(Vec<R<Vec<R<Node>>>>),
}

impl Sub {
    /// What iterating over all subkeys must yield.
    pub fn flat(&self) -> Vec<R<Node>> {
        match self {
            Sub::Leaf(v) => v.clone(),
            Sub::Root(v) => {
                let mut o = vec![];
                for l in v {
                    match l {
                        Ok(l) => o.extend(l.iter().cloned()),
                        Err(e) => o.push(Err(e.clone())),
                    }
                }
                o
            }
        }
    }
    pub fn is_root(&self) -> bool {
        matches!(self, Sub::Root(_))
    }
}

#[derive(Clone, Debug)]
pub enum DataR {
    Small(Range<usize>),
    Big { total: usize, segs: Vec<R<Range<usize>>> },
}

impl<'a> Oracle<'a> {
    pub fn new(all: &'a [u8]) -> Self {
        assert!(all.len() >= BASE);
        Self { all }
    }
    fn u16(&self, p: usize) -> u16 {
        u16::from_le_bytes([self.all[p], self.all[p + 1]])
    }
    fn u32(&self, p: usize) -> u32 {
        u32::from_le_bytes([self.all[p], self.all[p + 1], self.all[p + 2], self.all[p + 3]])
    }
    fn sig(&self, p: usize) -> [u8; 2] {
        [self.all[p], self.all[p + 1]]
    }
    pub fn minor(&self) -> u32 {
        self.u32(24)
    }
    pub fn root_offset(&self) -> u32 {
        self.u32(36)
    }

    /// Payload of the cell at a data offset.
    pub fn cell(&self, off: u32) -> R<Range<usize>> {
        let len = self.all.len() as u64;
        let at = BASE as u64 + off as u64;
        if at + 4 > len {
            return Err(E::InvalidHeaderSize { offset: sat(at), expected: 4, actual: sat(len.saturating_sub(at)) });
        }
        let at = at as usize;
        let size = self.u32(at) as i32;
        if size > 0 {
            return Err(E::UnallocatedCell { offset: at, size });
        }
        let size = -(size as i64) as u64;
        if size % 8 != 0 {
            return Err(E::InvalidSizeFieldAlignment { offset: at, size: sat(size), expected_alignment: 8 });
        }
        if size == 0 {
            // not even room for the size field itself
            return Err(E::InvalidHeaderSize { offset: at, expected: 4, actual: 0 });
        }
        let payload = size - 4;
        let left = len - at as u64 - 4;
        if payload > left {
            return Err(E::InvalidSizeField { offset: at, expected: sat(payload), actual: sat(left) });
        }
        Ok(at + 4..at + 4 + payload as usize)
    }

    fn struct_in(&self, cell: &Range<usize>, size: usize) -> R<()> {
        if cell.len() < size {
            return Err(E::InvalidHeaderSize { offset: cell.start, expected: size, actual: cell.len() });
        }
        Ok(())
    }

    fn want_sig(&self, cell: &Range<usize>, want: &'static [u8]) -> R<()> {
        let s = self.sig(cell.start);
        if s != want {
            return Err(E::InvalidTwoByteSignature { offset: cell.start, expected: want, actual: s });
        }
        Ok(())
    }

    pub fn node(&self, off: u32) -> R<Node> {
        let cell = self.cell(off)?;
        self.struct_in(&cell, 76)?;
        self.want_sig(&cell, b"nk")?;
        Ok(Node { off, cell })
    }
    pub fn root(&self) -> R<Node> {
        self.node(self.root_offset())
    }

    fn part(&self, cell: Range<usize>, len: usize, len_field: usize) -> R<Range<usize>> {
        if cell.len() < len {
            return Err(E::InvalidSizeField { offset: len_field, expected: len, actual: cell.len() });
        }
        Ok(cell.start..cell.start + len)
    }

    pub fn node_name(&self, n: &Node) -> R<NameR> {
        let p = n.cell.start;
        let range = self.part(p + 76..n.cell.end, self.u16(p + 72) as usize, p + 72)?;
        Ok(NameR { latin1: self.u16(p + 2) & 0x20 != 0, range })
    }
    pub fn class(&self, n: &Node) -> Option<R<Range<usize>>> {
        let p = n.cell.start;
        let off = self.u32(p + 48);
        if off == NIL {
            return None;
        }
        Some(self.cell(off).and_then(|c| self.part(c, self.u16(p + 74) as usize, p + 74)))
    }
    pub fn volatile_pos(&self, n: &Node) -> usize {
        n.cell.start + 24
    }

    pub fn values(&self, n: &Node) -> Option<R<Vec<R<Val>>>> {
        let p = n.cell.start;
        let off = self.u32(p + 40);
        if off == NIL {
            return None;
        }
        let count = self.u32(p + 36) as u64;
        Some(self.cell(off).and_then(|c| {
            if (c.len() as u64) < count * 4 {
                return Err(E::InvalidSizeField { offset: p + 36, expected: sat(count * 4), actual: c.len() });
            }
            Ok((0..count as usize).map(|i| self.value(self.u32(c.start + 4 * i))).collect())
        }))
    }

    pub fn value(&self, off: u32) -> R<Val> {
        let cell = self.cell(off)?;
        self.struct_in(&cell, 20)?;
        self.want_sig(&cell, b"vk")?;
        Ok(Val { off, cell })
    }
    pub fn val_name(&self, v: &Val) -> R<NameR> {
        let p = v.cell.start;
        let range = self.part(p + 20..v.cell.end, self.u16(p + 2) as usize, p + 2)?;
        Ok(NameR { latin1: self.u16(p + 16) & 1 != 0, range })
    }
    pub fn val_size(&self, v: &Val) -> u32 {
        self.u32(v.cell.start + 4) & 0x7fff_ffff
    }
    pub fn val_type(&self, v: &Val) -> R<u32> {
        let p = v.cell.start + 12;
        let t = self.u32(p);
        if t <= 11 {
            Ok(t)
        } else {
            Err(E::UnsupportedKeyValueDataType { offset: p, actual: t })
        }
    }
    pub fn val_type_raw(&self, v: &Val) -> u32 {
        self.u32(v.cell.start + 12)
    }

    pub fn data(&self, v: &Val) -> R<DataR> {
        let p = v.cell.start;
        let raw = self.u32(p + 4);
        let size = (raw & 0x7fff_ffff) as usize;
        if raw & 0x8000_0000 != 0 {
            if size > 4 {
                return Err(E::InvalidSizeField { offset: p + 4, expected: size, actual: 4 });
            }
            return Ok(DataR::Small(p + 8..p + 8 + size));
        }
        let cell = self.cell(self.u32(p + 8))?;
        if size <= SEG || self.minor() <= 3 {
            if cell.len() < size {
                return Err(E::InvalidDataSize { offset: cell.start, expected: size, actual: cell.len() });
            }
            return Ok(DataR::Small(cell.start..cell.start + size));
        }
        self.struct_in(&cell, 8)?;
        self.want_sig(&cell, b"db")?;
        let segs = self.u16(cell.start + 2) as usize;
        if segs * SEG < size {
            return Err(E::InvalidSizeField { offset: p + 4, expected: size, actual: segs * SEG });
        }
        let list = self.cell(self.u32(cell.start + 4))?;
        if list.len() < segs * 4 {
            return Err(E::InvalidSizeField { offset: cell.start + 2, expected: segs * 4, actual: list.len() });
        }
        let n = size.div_ceil(SEG);
        let segs = (0..n)
            .map(|i| {
                let want = if i + 1 == n { size - i * SEG } else { SEG };
                let c = self.cell(self.u32(list.start + 4 * i))?;
                if c.len() < want {
                    return Err(E::InvalidDataSize { offset: c.start, expected: want, actual: c.len() });
                }
                Ok(c.start..c.start + want)
            })
            .collect();
        Ok(DataR::Big { total: size, segs })
    }

    fn leaf_items(&self, cell: &Range<usize>) -> R<Vec<R<Node>>> {
        let item = if self.sig(cell.start) == *b"li" { 4 } else { 8 };
        let n = self.u16(cell.start + 2) as usize;
        let room = cell.len() - 4;
        if room < n * item {
            return Err(E::InvalidSizeField { offset: cell.start + 2, expected: n * item, actual: room });
        }
        Ok((0..n).map(|i| self.node(self.u32(cell.start + 4 + i * item))).collect())
    }

    /// None: no subkeys list. Err: the list itself is damaged.
    pub fn subkeys(&self, n: &Node) -> Option<R<Sub>> {
        let off = self.u32(n.cell.start + 28);
        if off == NIL {
            return None;
        }
        Some(self.sublist(off))
    }

    fn sublist(&self, off: u32) -> R<Sub> {
        let cell = self.cell(off)?;
        self.struct_in(&cell, 4)?;
        match &self.sig(cell.start) {
            b"li" | b"lf" | b"lh" => self.leaf_items(&cell).map(Sub::Leaf),
            b"ri" => {
                let n = self.u16(cell.start + 2) as usize;
                let room = cell.len() - 4;
                if room < 4 * n {
                    return Err(E::InvalidSizeField { offset: cell.start + 2, expected: n * 4, actual: room });
                }
                Ok(Sub::Root((0..n).map(|i| self.root_leaf(self.u32(cell.start + 4 + 4 * i))).collect()))
            }
            s => Err(E::InvalidTwoByteSignature { offset: cell.start, expected: b"lf|lh|li|ri", actual: *s }),
        }
    }

    fn root_leaf(&self, off: u32) -> R<Vec<R<Node>>> {
        let cell = self.cell(off)?;
        self.struct_in(&cell, 4)?;
        match &self.sig(cell.start) {
            b"li" | b"lf" | b"lh" => {
                if self.u16(cell.start + 2) == 0 {
                    return Err(E::InvalidSizeField { offset: cell.start + 2, expected: 1, actual: 0 });
                }
                self.leaf_items(&cell)
            }
            s => Err(E::InvalidTwoByteSignature { offset: cell.start, expected: b"lf|lh|li", actual: *s }),
        }
    }

    pub fn units(&self, n: &NameR) -> Vec<u16> {
        units_of(n.latin1, &self.all[n.range.clone()])
    }

    // -------------------------------------------------------------------------------------
    // decoded values

    pub fn bytes(&self, d: &DataR) -> R<Vec<u8>> {
        match d {
            DataR::Small(r) => Ok(self.all[r.clone()].to_vec()),
            DataR::Big { segs, total } => {
                let mut v = Vec::with_capacity(*total);
                for s in segs {
                    match s {
                        Ok(r) => v.extend_from_slice(&self.all[r.clone()]),
                        Err(e) => return Err(e.clone()),
                    }
                }
                Ok(v)
            }
        }
    }

    fn seg_list(&self, d: DataR) -> Vec<R<Range<usize>>> {
        match d {
            DataR::Small(r) => vec![Ok(r)],
            DataR::Big { segs, .. } => segs,
        }
    }

    /// Text up to the first NUL; an unreadable segment is an error only if it is needed.
    /// On failure: every error that would be a correct report.
    pub fn string(&self, v: &Val) -> Result<String, Vec<E>> {
        use nt_hive::KeyValueDataType as T;
        let mut errs = vec![];
        match self.val_type(v) {
            Err(e) => errs.push(e),
            Ok(1) | Ok(2) => (),
            Ok(t) => errs.push(E::InvalidKeyValueDataType {
                expected: &[T::RegSZ, T::RegExpandSZ],
                actual: T::n(t).unwrap(),
            }),
        }
        let segs = match self.data(v) {
            Ok(d) => self.seg_list(d),
            Err(e) => {
                errs.push(e);
                vec![]
            }
        };
        let mut units = vec![];
        'outer: for s in segs {
            match s {
                Err(e) => {
                    errs.push(e);
                    break;
                }
                Ok(r) => {
                    for c in self.all[r].chunks_exact(2) {
                        let u = u16::from_le_bytes([c[0], c[1]]);
                        if u == 0 {
                            break 'outer;
                        }
                        units.push(u);
                    }
                }
            }
        }
        if errs.is_empty() {
            Ok(fold::decode(&units, true).unwrap())
        } else {
            Err(errs)
        }
    }

    /// Lines that can be completed before an unreadable segment, and that segment's error, if any.
    pub fn multi(&self, v: &Val) -> Result<(Vec<String>, Option<E>), Vec<E>> {
        use nt_hive::KeyValueDataType as T;
        let mut errs = vec![];
        match self.val_type(v) {
            Err(e) => errs.push(e),
            Ok(7) => (),
            Ok(t) => errs.push(E::InvalidKeyValueDataType { expected: &[T::RegMultiSZ], actual: T::n(t).unwrap() }),
        }
        let segs = match self.data(v) {
            Ok(d) => self.seg_list(d),
            Err(e) => {
                errs.push(e);
                vec![]
            }
        };
        if !errs.is_empty() {
            return Err(errs);
        }
        let mut units = vec![];
        let mut bad = None;
        for s in segs {
            match s {
                Err(e) => {
                    bad = Some(e);
                    break;
                }
                Ok(r) => units.extend(self.all[r].chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]]))),
            }
        }
        if bad.is_some() {
            // only complete lines count; an empty one ends the list before the damage
            let mut lines = vec![];
            let mut cur = vec![];
            for u in units {
                if u == 0 {
                    if cur.is_empty() {
                        return Ok((lines, None));
                    }
                    lines.push(fold::decode(&cur, true).unwrap());
                    cur.clear();
                } else {
                    cur.push(u);
                }
            }
            return Ok((lines, bad));
        }
        Ok((Self::lines(&units), None))
    }

    pub fn int(&self, v: &Val, qword: bool) -> Result<u64, Vec<E>> {
        let want = if qword { 8 } else { 4 };
        let ok_types: &[u32] = if qword { &[11] } else { &[4, 5] };
        let d = match self.data(v) {
            Err(e) => {
                let mut errs = vec![e];
                match self.val_type(v) {
                    Err(e) => errs.push(e),
                    Ok(t) if !ok_types.contains(&t) => errs.push(wrong_type(t, qword)),
                    _ => (),
                }
                return Err(errs);
            }
            Ok(d) => d,
        };
        let mut errs = vec![];
        let t = self.val_type(v);
        match &t {
            Err(e) => errs.push(e.clone()),
            Ok(t) if !ok_types.contains(t) => errs.push(wrong_type(*t, qword)),
            _ => (),
        }
        let (start, len) = match &d {
            DataR::Small(r) => (r.start, r.len()),
            DataR::Big { total, .. } => (BASE + self.u32(v.cell.start + 8) as usize, *total),
        };
        if len != want {
            errs.push(E::InvalidDataSize { offset: start, expected: want, actual: len });
        }
        if !errs.is_empty() {
            return Err(errs);
        }
        let b = &self.all[start..start + want];
        Ok(match t.unwrap() {
            5 => u32::from_be_bytes(b.try_into().unwrap()) as u64,
            4 => u32::from_le_bytes(b.try_into().unwrap()) as u64,
            _ => u64::from_le_bytes(b.try_into().unwrap()),
        })
    }

    /// Lines of a REG_MULTI_SZ whose data is readable as a whole.
    pub fn lines(units: &[u16]) -> Vec<String> {
        let mut out = vec![];
        let mut cur = vec![];
        for u in units {
            if *u == 0 {
                if cur.is_empty() {
                    return out;
                }
                out.push(fold::decode(&cur, true).unwrap());
                cur.clear();
            } else {
                cur.push(*u);
            }
        }
        if !cur.is_empty() {
            out.push(fold::decode(&cur, true).unwrap());
        }
        out
    }

    // -------------------------------------------------------------------------------------
    // header

    /// All violated header conditions, with the error that reports each.
    pub fn header_faults(all: &[u8]) -> Vec<E> {
        let mut v = vec![];
        if all.len() < BASE {
            v.push(E::InvalidHeaderSize { offset: 0, expected: BASE, actual: all.len() });
            return v;
        }
        let o = Oracle { all };
        let sig: [u8; 4] = all[0..4].try_into().unwrap();
        if &sig != b"regf" {
            v.push(E::InvalidFourByteSignature { offset: 0, expected: b"regf", actual: sig });
        }
        if o.u32(4) != o.u32(8) {
            v.push(E::SequenceNumberMismatch { primary: o.u32(4), secondary: o.u32(8) });
        }
        if o.u32(20) != 1 || o.u32(24) < 3 {
            v.push(E::UnsupportedVersion { major: o.u32(20), minor: o.u32(24) });
        }
        if o.u32(28) != 0 {
            v.push(E::UnsupportedFileType { expected: 0, actual: o.u32(28) });
        }
        if o.u32(32) != 1 {
            v.push(E::UnsupportedFileFormat { expected: 1, actual: o.u32(32) });
        }
        let ds = o.u32(40) as u64;
        if ds % 4096 != 0 {
            v.push(E::InvalidSizeFieldAlignment { offset: 40, size: sat(ds), expected_alignment: 4096 });
        }
        let have = (all.len() - BASE) as u64;
        if ds > have {
            v.push(E::InvalidSizeField { offset: 40, expected: sat(ds), actual: sat(have) });
        }
        if o.u32(44) != 1 {
            v.push(E::UnsupportedClusteringFactor { expected: 1, actual: o.u32(44) });
        }
        let calc = crate::build::checksum(all);
        if calc != o.u32(508) {
            v.push(E::InvalidChecksum { expected: calc, actual: o.u32(508) });
        }
        v
    }

    // -------------------------------------------------------------------------------------
    // clear_volatile_subkeys

    /// Depth-first traversal that clear_volatile_subkeys must perform on a hive whose reachable
    /// structures do not overlap: positions of the volatile counts written, in order, and the
    /// first error met. `limit` bounds the visited nodes; None if it was exceeded or if the same
    /// node is met twice (not a tree).
    pub fn clear_plan(&self, limit: usize) -> Option<(Vec<usize>, Option<E>)> {
        let mut pos = vec![];
        let mut seen = HashSet::new();
        let root = match self.root() {
            Ok(n) => n,
            Err(e) => return Some((pos, Some(e))),
        };
        // explicit stack of pending items; the first error ends the traversal
        let mut stack: Vec<Vec<R<Node>>> = vec![vec![Ok(root)]];
        while let Some(top) = stack.last_mut() {
            match top.pop() {
                None => {
                    stack.pop();
                }
                Some(Err(e)) => return Some((pos, Some(e))),
                Some(Ok(n)) => {
                    if !seen.insert(n.off) || seen.len() > limit || stack.len() > 512 {
                        return None;
                    }
                    pos.push(self.volatile_pos(&n));
                    match self.subkeys(&n) {
                        None => (),
                        Some(Err(e)) => return Some((pos, Some(e))),
                        Some(Ok(s)) => {
                            let mut v = s.flat();
                            v.reverse();
                            stack.push(v);
                        }
                    }
                }
            }
        }
        Some((pos, None))
    }

    /// Byte ranges of every structure the traversal above reads (cell headers, key headers, lists).
    pub fn clear_footprint(&self) -> Vec<Range<usize>> {
        let mut out = vec![];
        let mut seen = HashSet::new();
        let mut todo = vec![self.root_offset()];
        let cell_hdr = |off: u32| BASE + off as usize..BASE + off as usize + 4;
        while let Some(off) = todo.pop() {
            if !seen.insert(off) || seen.len() > 200_000 {
                continue;
            }
            if (BASE as u64 + off as u64 + 4) as usize > self.all.len() {
                continue;
            }
            out.push(cell_hdr(off));
            if let Ok(cell) = self.cell(off) {
                if cell.len() < 4 {
                    continue;
                }
                match &self.sig(cell.start) {
                    b"nk" if cell.len() >= 76 => {
                        out.push(cell.start..cell.start + 76);
                        todo.push(self.u32(cell.start + 28));
                    }
                    b"li" | b"lf" | b"lh" | b"ri" => {
                        let item = if matches!(&self.sig(cell.start), b"li" | b"ri") { 4 } else { 8 };
                        let n = self.u16(cell.start + 2) as usize;
                        out.push(cell.start..(cell.start + 4 + n * item).min(cell.end));
                        for i in 0..n {
                            let p = cell.start + 4 + i * item;
                            if p + 4 <= cell.end {
                                todo.push(self.u32(p));
                            }
                        }
                    }
                    _ => out.push(cell.start..cell.start + 4),
                }
            }
        }
        out
    }
}

pub fn wrong_type(t: u32, qword: bool) -> E {
    use nt_hive::KeyValueDataType as T;
    let actual = T::n(t).unwrap();
    if qword {
        E::InvalidKeyValueDataType { expected: &[T::RegQWord], actual }
    } else {
        E::InvalidKeyValueDataType { expected: &[T::RegDWord, T::RegDWordBigEndian], actual }
    }
}

impl Oracle<'_> {
    /// Other correct ways to report what `want` reports, where one field violates two conditions.
    pub fn same_report(&self, want: &E, got: &E) -> bool {
        if want == got {
            return true;
        }
        let at = match want {
            E::UnallocatedCell { offset, .. } | E::InvalidSizeFieldAlignment { offset, .. } => *offset,
            _ => return false,
        };
        if at < BASE || at + 4 > self.all.len() {
            return false;
        }
        let raw = self.u32(at) as i32;
        let size = raw.unsigned_abs() as usize;
        let left = self.all.len() - at - 4;
        match got {
            E::UnallocatedCell { offset, size: s } => raw > 0 && *offset == at && *s == raw,
            E::InvalidSizeFieldAlignment { offset, size: s, expected_alignment } => {
                *offset == at && *s == size && *expected_alignment == 8 && size % 8 != 0
            }
            E::InvalidSizeField { offset, expected, actual } => {
                *offset == at && size >= 4 && size - 4 > left && *expected == size - 4 && *actual == left
            }
            _ => false,
        }
    }
}
