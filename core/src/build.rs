//! Lays a model tree out as hive bytes, with random layout choices, and records where every field went.
use crate::model::{Key, Name, Value};
use crate::rng::Rng;

pub const BASE: usize = 4096;
pub const SEG: usize = 16344;
pub const NIL: u32 = 0xffff_ffff;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FK {
    RootOffset,
    /// size field of a cell; the `aux` of the field tells what the cell holds
    CellSize,
    NodeSig,
    NodeFlags,
    NodeVolatile,
    NodeSubkeyCount,
    NodeSubkeysOff,
    NodeValuesCount,
    NodeValuesOff,
    NodeClassOff,
    NodeNameLen,
    NodeClassLen,
    NameBytes,
    ClassBytes,
    ListSig,
    ListCount,
    LeafItemOff,
    LeafItemHint,
    RootItemOff,
    ValItemOff,
    ValSig,
    ValNameLen,
    ValDataSize,
    ValDataOff,
    ValType,
    ValFlags,
    ValNameBytes,
    DataBytes,
    BigSig,
    BigCount,
    BigListOff,
    BigSegOff,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CK {
    Node,
    Class,
    ValueList,
    Value,
    Data,
    Leaf,
    IndexRoot,
    Big,
    BigList,
    Segment,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub kind: FK,
    /// absolute position in the hive bytes
    pub pos: usize,
    pub len: usize,
    /// preorder number of the key this belongs to
    pub key: u32,
    /// value index or item index
    pub idx: u32,
    /// kind of the cell that contains the field
    pub cell: CK,
    /// data offset of that cell (0 for the root offset field)
    pub cell_off: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LeafKind {
    Li,
    Lf,
    Lh,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ListPlan {
    Leaf(LeafKind),
    Root(Vec<(LeafKind, usize)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Any,
    AnyLeaf,
    Li,
    Lf,
    Lh,
    /// index root over leaves, random partition
    Root,
    /// index root with leaves of exactly this many entries (last one shorter)
    RootOf(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Forward,
    Reverse,
    Shuffled,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub minor: u32,
    pub order: Order,
    pub form: Form,
    /// one in `gap` cells is preceded by a free cell (0: never)
    pub gap: u64,
    /// maximum slack in 8-byte units added to cells
    pub slack: u64,
    pub trailing: usize,
    /// how often data of at most 4 bytes is put in a cell of its own (in 1/16)
    pub small_in_cell: u64,
    /// additional (unused) big-data segments
    pub extra_segments: usize,
    pub bins: bool,
    pub fast: bool,
    /// exact list layout for the root key's subkeys
    pub root_plan: Option<ListPlan>,
}

impl Default for Opts {
    fn default() -> Self {
        Self {
            minor: 5,
            order: Order::Forward,
            form: Form::Any,
            gap: 0,
            slack: 0,
            trailing: 0,
            small_in_cell: 0,
            extra_segments: 0,
            bins: true,
            fast: false,
            root_plan: None,
        }
    }
}

impl Opts {
    pub fn random(r: &mut Rng) -> Self {
        Self {
            minor: crate::dict::sometimes(r, 12, 3, 0xffff_ffff).map_or_else(|| *r.pick(&[3, 4, 5, 5, 5, 6, 7, 1000]), |n| n as u32),
            order: *r.pick(&[Order::Forward, Order::Reverse, Order::Shuffled, Order::Shuffled]),
            form: *r.pick(&[Form::Any, Form::Any, Form::Any, Form::Li, Form::Lf, Form::Lh, Form::Root]),
            gap: *r.pick(&[0, 2, 8]),
            slack: *r.pick(&[0, 0, 1, 4]),
            trailing: if r.chance(1, 4) { r.range(1, 5000) as usize } else { 0 },
            small_in_cell: *r.pick(&[0, 1, 8]),
            extra_segments: 0,
            bins: true,
            fast: false,
            root_plan: None,
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "minor {} order {:?} form {:?} gap {} slack {} trailing {}",
            self.minor, self.order, self.form, self.gap, self.slack, self.trailing
        )
    }
}

#[derive(Clone, Debug)]
pub struct NodeInfo {
    pub cell_off: u32,
    pub depth: u32,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
    /// by preorder number
    pub nodes: Vec<NodeInfo>,
    pub root_off: u32,
    pub cells: Vec<(u32, CK)>,
}

struct Cell {
    kind: CK,
    payload: Vec<u8>,
    fix: Vec<(usize, usize)>,
    fields: Vec<(FK, usize, usize, u32)>,
    key: u32,
    pad: usize,
}

struct B<'r> {
    cells: Vec<Cell>,
    nodes: Vec<(usize, u32)>,
    r: &'r mut Rng,
    o: Opts,
}

fn put16(p: &mut [u8], at: usize, v: u16) {
    p[at..at + 2].copy_from_slice(&v.to_le_bytes());
}
fn put32(p: &mut [u8], at: usize, v: u32) {
    p[at..at + 4].copy_from_slice(&v.to_le_bytes());
}

impl B<'_> {
    fn cell(&mut self, kind: CK, key: u32, payload: Vec<u8>) -> usize {
        let pad = if self.o.slack > 0 { self.r.below(self.o.slack + 1) as usize * 8 } else { 0 };
        self.cells.push(Cell { kind, payload, fix: vec![], fields: vec![], key, pad });
        self.cells.len() - 1
    }

    fn leaf_kind(&mut self) -> LeafKind {
        match self.o.form {
            Form::Li => LeafKind::Li,
            Form::Lf => LeafKind::Lf,
            Form::Lh => LeafKind::Lh,
            _ => *self.r.pick(&[LeafKind::Li, LeafKind::Lf, LeafKind::Lh]),
        }
    }

    fn plan(&mut self, n: usize) -> ListPlan {
        let root = match self.o.form {
            Form::Any => n > 65535 || self.r.chance(1, 3),
            Form::Root | Form::RootOf(_) => true,
            _ => n > 65535,
        };
        if !root {
            return ListPlan::Leaf(self.leaf_kind());
        }
        let mut parts = vec![];
        let mut left = n;
        let style = self.r.below(4);
        let max_leaf = match self.o.form {
            Form::RootOf(k) => k,
            _ => match style {
                0 => 1,
                1 => n.max(1),
                _ => 1 + self.r.idx(n.max(1)),
            },
        }
        .min(65535);
        while left > 0 {
            let k = match self.o.form {
                Form::RootOf(k) => k,
                _ if style == 3 => 1 + self.r.idx(max_leaf),
                _ => max_leaf,
            }
            .min(left);
            let kind = self.leaf_kind();
            parts.push((kind, k));
            left -= k;
        }
        if parts.len() > 65535 {
            let k = n.div_ceil(65535);
            parts.clear();
            left = n;
            while left > 0 {
                let c = k.min(left);
                parts.push((LeafKind::Lf, c));
                left -= c;
            }
        }
        ListPlan::Root(parts)
    }

    fn leaf(&mut self, kind: LeafKind, key: u32, items: &[usize], names: &[&Name], base_idx: usize) -> usize {
        let item = if kind == LeafKind::Li { 4 } else { 8 };
        let mut p = vec![0u8; 4 + item * items.len()];
        p[0..2].copy_from_slice(match kind {
            LeafKind::Li => b"li",
            LeafKind::Lf => b"lf",
            LeafKind::Lh => b"lh",
        });
        put16(&mut p, 2, items.len() as u16);
        let mut fix = vec![];
        let mut fields = vec![(FK::ListSig, 0, 2, 0), (FK::ListCount, 2, 2, 0)];
        let hint_style = self.r.below(3);
        for (i, it) in items.iter().enumerate() {
            let at = 4 + i * item;
            fix.push((at, *it));
            if !self.o.fast {
                fields.push((FK::LeafItemOff, at, 4, (base_idx + i) as u32));
            }
            if item == 8 {
                let hint = match hint_style {
                    0 => 0,
                    1 => self.r.next() as u32,
                    _ => name_hint(kind, names[i]),
                };
                put32(&mut p, at + 4, hint);
                if !self.o.fast {
                    fields.push((FK::LeafItemHint, at + 4, 4, (base_idx + i) as u32));
                }
            }
        }
        let c = self.cell(CK::Leaf, key, p);
        self.cells[c].fix = fix;
        self.cells[c].fields = fields;
        c
    }

    fn value(&mut self, key: u32, vi: u32, v: &Value) -> usize {
        let mut p = vec![0u8; 20 + v.name.bytes.len()];
        p[0..2].copy_from_slice(b"vk");
        put16(&mut p, 2, v.name.bytes.len() as u16);
        put32(&mut p, 12, v.ty);
        let mut flags = (self.r.next() as u16) & !1;
        if self.r.chance(3, 4) {
            flags = 0;
        }
        if v.name.latin1 {
            flags |= 1;
        }
        put16(&mut p, 16, flags);
        put16(&mut p, 18, self.r.next() as u16);
        p[20..].copy_from_slice(&v.name.bytes);
        let mut fields = vec![
            (FK::ValSig, 0, 2, vi),
            (FK::ValNameLen, 2, 2, vi),
            (FK::ValDataSize, 4, 4, vi),
            (FK::ValDataOff, 8, 4, vi),
            (FK::ValType, 12, 4, vi),
            (FK::ValFlags, 16, 2, vi),
            (FK::ValNameBytes, 20, v.name.bytes.len(), vi),
        ];
        let mut fix = vec![];
        let n = v.data.len();
        if n <= 4 && !self.r.chance(self.o.small_in_cell, 16) {
            put32(&mut p, 4, n as u32 | 0x8000_0000);
            let junk = self.r.next() as u32;
            put32(&mut p, 8, junk);
            p[8..8 + n].copy_from_slice(&v.data);
            fields.push((FK::DataBytes, 8, n, vi));
        } else if n <= SEG || self.o.minor <= 3 {
            put32(&mut p, 4, n as u32);
            let c = self.cell(CK::Data, key, v.data.clone());
            self.cells[c].fields.push((FK::DataBytes, 0, n, vi));
            fix.push((8, c));
        } else {
            put32(&mut p, 4, n as u32);
            let mut segs = vec![];
            for chunk in v.data.chunks(SEG) {
                // a segment cell may be larger than its data: fill the rest with junk
                let mut b = chunk.to_vec();
                if b.len() < SEG && self.r.chance(1, 2) {
                    let k = self.r.below(64) as usize;
                    let j = self.r.bytes(k);
                    b.extend_from_slice(&j);
                }
                let c = self.cell(CK::Segment, key, b);
                self.cells[c].fields.push((FK::DataBytes, 0, chunk.len(), vi));
                segs.push(c);
            }
            for _ in 0..self.o.extra_segments {
                let b = self.r.bytes(16);
                segs.push(self.cell(CK::Segment, key, b));
            }
            let mut list = vec![0u8; 4 * segs.len()];
            put32(&mut list, 0, 0);
            let l = self.cell(CK::BigList, key, list);
            for (i, s) in segs.iter().enumerate() {
                self.cells[l].fix.push((4 * i, *s));
                self.cells[l].fields.push((FK::BigSegOff, 4 * i, 4, i as u32));
            }
            let mut big = vec![0u8; 8];
            big[0..2].copy_from_slice(b"db");
            put16(&mut big, 2, segs.len() as u16);
            let b = self.cell(CK::Big, key, big);
            self.cells[b].fix.push((4, l));
            self.cells[b].fields = vec![(FK::BigSig, 0, 2, vi), (FK::BigCount, 2, 2, vi), (FK::BigListOff, 4, 4, vi)];
            fix.push((8, b));
        }
        let c = self.cell(CK::Value, key, p);
        self.cells[c].fix = fix;
        self.cells[c].fields = fields;
        c
    }

    fn key(&mut self, k: &Key, parent: Option<usize>, depth: u32) -> usize {
        let id = self.nodes.len() as u32;
        let mut p = vec![0u8; 76 + k.name.bytes.len()];
        p[0..2].copy_from_slice(b"nk");
        let mut flags = if k.name.latin1 { 0x20 } else { 0 };
        if parent.is_none() {
            flags |= 0x0c;
        }
        if self.r.chance(1, 4) {
            // bits without a meaning included
            flags |= self.r.next() as u16 & 0xffdf;
        }
        put16(&mut p, 2, flags);
        let ts = self.r.next();
        p[4..12].copy_from_slice(&ts.to_le_bytes());
        put32(&mut p, 20, k.subkeys.len() as u32);
        put32(&mut p, 24, k.volatile);
        put32(&mut p, 28, NIL);
        put32(&mut p, 32, if self.r.chance(1, 2) { NIL } else { self.r.next() as u32 });
        put32(&mut p, 36, k.values.len() as u32);
        put32(&mut p, 40, NIL);
        put32(&mut p, 44, if self.r.chance(1, 2) { NIL } else { self.r.next() as u32 });
        put32(&mut p, 48, NIL);
        for at in [52, 56, 60, 64, 68] {
            let v = self.r.next() as u32;
            put32(&mut p, at, v);
        }
        put16(&mut p, 72, k.name.bytes.len() as u16);
        put16(&mut p, 74, k.class.as_ref().map(|c| c.len()).unwrap_or(0) as u16);
        p[76..].copy_from_slice(&k.name.bytes);
        let c = self.cell(CK::Node, id, p);
        self.nodes.push((c, depth));
        let mut fix = vec![];
        if let Some(pc) = parent {
            fix.push((16, pc));
        }
        if !k.values.is_empty() {
            let vs: Vec<usize> = k.values.iter().enumerate().map(|(i, v)| self.value(id, i as u32, v)).collect();
            let l = self.cell(CK::ValueList, id, vec![0; 4 * vs.len()]);
            for (i, v) in vs.iter().enumerate() {
                self.cells[l].fix.push((4 * i, *v));
                if !self.o.fast {
                    self.cells[l].fields.push((FK::ValItemOff, 4 * i, 4, i as u32));
                }
            }
            fix.push((40, l));
        }
        if let Some(class) = &k.class {
            let cc = self.cell(CK::Class, id, class.clone());
            self.cells[cc].fields.push((FK::ClassBytes, 0, class.len(), 0));
            fix.push((48, cc));
        }
        if !k.subkeys.is_empty() {
            let kids: Vec<usize> = k.subkeys.iter().map(|s| self.key(s, Some(c), depth + 1)).collect();
            let names: Vec<&Name> = k.subkeys.iter().map(|s| &s.name).collect();
            let plan = match &self.o.root_plan {
                Some(p) if depth == 0 => p.clone(),
                _ => self.plan(kids.len()),
            };
            let list = match plan {
                ListPlan::Leaf(kind) => self.leaf(kind, id, &kids, &names, 0),
                ListPlan::Root(parts) => {
                    let mut at = 0;
                    let mut leaves = vec![];
                    for (kind, n) in parts {
                        leaves.push(self.leaf(kind, id, &kids[at..at + n], &names[at..at + n], at));
                        at += n;
                    }
                    let mut rp = vec![0u8; 4 + 4 * leaves.len()];
                    rp[0..2].copy_from_slice(b"ri");
                    put16(&mut rp, 2, leaves.len() as u16);
                    let rc = self.cell(CK::IndexRoot, id, rp);
                    self.cells[rc].fields = vec![(FK::ListSig, 0, 2, 0), (FK::ListCount, 2, 2, 0)];
                    for (i, l) in leaves.iter().enumerate() {
                        self.cells[rc].fix.push((4 + 4 * i, *l));
                        if !self.o.fast {
                            self.cells[rc].fields.push((FK::RootItemOff, 4 + 4 * i, 4, i as u32));
                        }
                    }
                    rc
                }
            };
            fix.push((28, list));
        }
        self.cells[c].fix = fix;
        let f = &mut self.cells[c].fields;
        f.extend_from_slice(&[
            (FK::NodeSig, 0, 2, 0),
            (FK::NodeFlags, 2, 2, 0),
            (FK::NodeSubkeyCount, 20, 4, 0),
            (FK::NodeVolatile, 24, 4, 0),
            (FK::NodeSubkeysOff, 28, 4, 0),
            (FK::NodeValuesCount, 36, 4, 0),
            (FK::NodeValuesOff, 40, 4, 0),
            (FK::NodeClassOff, 48, 4, 0),
            (FK::NodeNameLen, 72, 2, 0),
            (FK::NodeClassLen, 74, 2, 0),
            (FK::NameBytes, 76, k.name.bytes.len(), 0),
        ]);
        c
    }
}

pub fn name_hint(kind: LeafKind, n: &Name) -> u32 {
    match kind {
        LeafKind::Li => 0,
        LeafKind::Lf => {
            let mut b = [0u8; 4];
            for (i, u) in n.units().iter().take(4).enumerate() {
                b[i] = if *u < 256 { *u as u8 } else { 0 };
            }
            u32::from_le_bytes(b)
        }
        LeafKind::Lh => {
            let mut h = 0u32;
            for u in n.units() {
                h = h.wrapping_mul(37).wrapping_add(crate::fold::up(u) as u32);
            }
            h
        }
    }
}

/// XOR-32 checksum of the first 508 bytes, with the two reserved results mapped away.
pub fn checksum(base: &[u8]) -> u32 {
    let mut x = 0u32;
    let mut i = 0;
    while i < 508 {
        x ^= (base[i] as u32)
            | (base[i + 1] as u32) << 8
            | (base[i + 2] as u32) << 16
            | (base[i + 3] as u32) << 24;
        i += 4;
    }
    match x {
        0 => 1,
        0xffff_ffff => 0xffff_fffe,
        v => v,
    }
}

pub fn fix_checksum(bytes: &mut [u8]) {
    let c = checksum(bytes);
    bytes[508..512].copy_from_slice(&c.to_le_bytes());
}

/// Writes a base block for `data_size` bytes of hive data.
pub fn base_block(r: &mut Rng, minor: u32, root: u32, data_size: u32) -> Vec<u8> {
    let mut b = vec![0u8; BASE];
    if r.chance(1, 2) {
        // reserved areas and name may hold anything
        let k = r.bytes(BASE - 48);
        b[48..].copy_from_slice(&k);
    }
    b[0..4].copy_from_slice(b"regf");
    let seq = if r.chance(1, 2) { r.range(1, 3) as u32 } else { r.next() as u32 };
    let seq = crate::dict::sometimes(r, 10, 0, 0xffff_ffff).map_or(seq, |n| n as u32);
    put32(&mut b, 4, seq);
    put32(&mut b, 8, seq);
    let ts = r.next();
    b[12..20].copy_from_slice(&ts.to_le_bytes());
    put32(&mut b, 20, 1);
    put32(&mut b, 24, minor);
    put32(&mut b, 28, 0);
    put32(&mut b, 32, 1);
    put32(&mut b, 36, root);
    put32(&mut b, 40, data_size);
    put32(&mut b, 44, 1);
    fix_checksum(&mut b);
    b
}

pub fn build(r: &mut Rng, tree: &Key, o: &Opts) -> Built {
    let mut b = B { cells: vec![], nodes: vec![], r, o: o.clone() };
    let root_cell = b.key(tree, None, 0);
    let B { cells, nodes, r, .. } = b;

    let mut order: Vec<usize> = (0..cells.len()).collect();
    match o.order {
        Order::Forward => (),
        Order::Reverse => order.reverse(),
        Order::Shuffled => r.shuffle(&mut order),
    }

    let mut data: Vec<u8> = Vec::new();
    let mut off = vec![0u32; cells.len()];
    let mut bin_end = 0usize;
    for &ci in &order {
        let c = &cells[ci];
        let size = (4 + c.payload.len()).div_ceil(8) * 8 + c.pad;
        let gap = if o.gap > 0 && r.chance(1, o.gap) { r.range(1, 12) as usize * 8 } else { 0 };
        if data.len() + gap + size > bin_end {
            // close the bin with a free cell, open a new one
            close_bin(&mut data, bin_end, r, o);
            let need = 32 + gap + size;
            let bin = need.div_ceil(4096) * 4096;
            let bin = if r.chance(1, 4) { bin + 4096 } else { bin };
            let start = data.len();
            bin_end = start + bin;
            data.extend_from_slice(b"hbin");
            data.extend_from_slice(&(start as u32).to_le_bytes());
            data.extend_from_slice(&(bin as u32).to_le_bytes());
            data.extend_from_slice(&[0; 20]);
        }
        if gap > 0 {
            data.extend_from_slice(&(gap as i32).to_le_bytes());
            if o.fast {
                data.resize(data.len() + gap - 4, 0);
            } else {
                let j = r.bytes(gap - 4);
                data.extend_from_slice(&j);
            }
        }
        off[ci] = data.len() as u32;
        data.extend_from_slice(&(-(size as i32)).to_le_bytes());
        data.extend_from_slice(&c.payload);
        let rest = size - 4 - c.payload.len();
        let j = r.bytes(rest);
        data.extend_from_slice(&j);
    }
    close_bin(&mut data, bin_end, r, o);

    let mut fields = vec![];
    let nfields = !o.fast;
    for (ci, c) in cells.iter().enumerate() {
        let start = off[ci] as usize;
        for (at, target) in &c.fix {
            put32(&mut data, start + 4 + at, off[*target]);
        }
        if nfields {
            let idx = c.fields.first().map(|f| f.3).unwrap_or(0);
            fields.push(Field { kind: FK::CellSize, pos: BASE + start, len: 4, key: c.key, idx, cell: c.kind, cell_off: off[ci] });
        }
        for (kind, at, len, idx) in &c.fields {
            if nfields || *kind == FK::NodeVolatile {
                fields.push(Field {
                    kind: *kind,
                    pos: BASE + start + 4 + at,
                    len: *len,
                    key: c.key,
                    idx: *idx,
                    cell: c.kind,
                    cell_off: off[ci],
                });
            }
        }
    }

    let root_off = off[root_cell];
    let mut bytes = base_block(r, o.minor, root_off, data.len() as u32);
    fields.push(Field { kind: FK::RootOffset, pos: 36, len: 4, key: 0, idx: 0, cell: CK::Node, cell_off: 0 });
    bytes.extend_from_slice(&data);
    if o.trailing > 0 {
        let j = r.bytes(o.trailing);
        bytes.extend_from_slice(&j);
    }
    Built {
        bytes,
        fields,
        nodes: nodes.iter().map(|(c, d)| NodeInfo { cell_off: off[*c], depth: *d }).collect(),
        root_off,
        cells: cells.iter().enumerate().map(|(i, c)| (off[i], c.kind)).collect(),
    }
}

fn close_bin(data: &mut Vec<u8>, bin_end: usize, r: &mut Rng, o: &Opts) {
    let rest = bin_end.saturating_sub(data.len());
    if rest >= 8 {
        data.extend_from_slice(&(rest as i32).to_le_bytes());
        if !o.fast && r.chance(1, 2) {
            let j = r.bytes(rest - 4);
            data.extend_from_slice(&j);
        }
    }
    if data.len() < bin_end {
        data.resize(bin_end, 0);
    }
}

impl Built {
    pub fn fields_of(&self, k: FK) -> impl Iterator<Item = &Field> {
        self.fields.iter().filter(move |f| f.kind == k)
    }
    pub fn get32(&self, pos: usize) -> u32 {
        u32::from_le_bytes(self.bytes[pos..pos + 4].try_into().unwrap())
    }
}

pub fn set(bytes: &mut [u8], pos: usize, len: usize, v: u64) {
    bytes[pos..pos + len].copy_from_slice(&v.to_le_bytes()[..len]);
}

/// Moves the hive data up by `shift` bytes (a multiple of 4096): returns header and data to be placed there.
pub fn rebase(b: &Built, shift: u32) -> (Vec<u8>, Vec<u8>) {
    let mut bytes = b.bytes.clone();
    for f in &b.fields {
        if !crate::mutate::is_offset(f.kind) {
            continue;
        }
        let v = b.get32(f.pos);
        if v == NIL {
            continue;
        }
        if f.kind == FK::ValDataOff && b.get32(f.pos - 4) & 0x8000_0000 != 0 {
            continue;
        }
        set(&mut bytes, f.pos, 4, v.wrapping_add(shift) as u64);
    }
    let ds = b.get32(40).wrapping_add(shift);
    set(&mut bytes, 40, 4, ds as u64);
    fix_checksum(&mut bytes);
    let data = bytes.split_off(BASE);
    (bytes, data)
}
