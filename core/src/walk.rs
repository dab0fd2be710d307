//! Walks a hive through the public API in lockstep with the reference reader.
use crate::fold;
use crate::obs::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use nt_hive::*;
use nt_hive::NtHiveError as E;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::Range;
use zerocopy::SplitByteSlice;

pub const SUBKEYS: u32 = 1;
pub const NAME: u32 = 2;
pub const CLASS: u32 = 4;
pub const VALUES: u32 = 8;
pub const VNAME: u32 = 16;
pub const META: u32 = 32;
pub const DATA: u32 = 64;
pub const STR: u32 = 128;
pub const INT: u32 = 256;
pub const MULTI: u32 = 512;
pub const SUBKEY: u32 = 1024;
pub const VALUE: u32 = 2048;
pub const SUBPATH: u32 = 4096;
pub const ALL: u32 = 0x1fff;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// operations that are compared; SUBKEYS, VALUES and NAME are always used to navigate
    pub test: u32,
    /// error values must be equal, not only "an error"
    pub exact: bool,
    pub max_nodes: usize,
    pub max_items: usize,
    pub max_data: usize,
    /// lookups per node
    pub lookups: usize,
    /// compare decoded texts and numbers, not only success and failure
    pub content: bool,
    /// the text of every error must contain its numbers
    pub messages: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Self { test: ALL, exact: true, max_nodes: 400, max_items: 4000, max_data: 1 << 21, lookups: 4, content: true, messages: false }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub nodes: u64,
    pub values: u64,
    pub bytes: u64,
    pub slices: u64,
    pub hist: HashMap<(&'static str, &'static str), u64>,
    pub digest: u64,
}

impl Stats {
    pub fn feed(&mut self, v: u64) {
        self.digest = mix(self.digest ^ v);
    }
    pub fn feed_bytes(&mut self, b: &[u8]) {
        self.feed(crate::rng::digest(b));
    }
    fn note(&mut self, op: &'static str, out: &'static str) {
        self.queries += 1;
        *self.hist.entry((op, out)).or_insert(0) += 1;
        self.feed(crate::rng::fnv(op.as_bytes()) ^ crate::rng::fnv(out.as_bytes()));
    }
    fn note_err(&mut self, op: &'static str, e: &E) {
        self.note(op, kind(e));
        for n in err_numbers(e) {
            self.feed(n);
        }
    }
    pub fn errors(&self) -> u64 {
        self.hist.iter().filter(|((_, o), _)| *o != "ok" && *o != "none").map(|(_, n)| n).sum()
    }
    pub fn table(&self) -> BTreeMap<String, u64> {
        self.hist.iter().map(|((a, b), n)| (format!("{a}:{b}"), *n)).collect()
    }
}

pub struct Walker<'a> {
    pub base: usize,
    pub o: Oracle<'a>,
    pub cfg: Cfg,
    pub st: Stats,
}

impl<'a> Walker<'a> {
    pub fn new(base: *const u8, all: &'a [u8], cfg: Cfg) -> Self {
        Self { base: base as usize, o: Oracle::new(all), cfg, st: Stats::default() }
    }

    fn fail<T>(&self, flag: u32, op: &str, detail: String) -> Res<T> {
        if self.cfg.test & flag != 0 {
            diff(op, detail)
        } else {
            Err(Fault::Skip(format!("{op}: {detail}")))
        }
    }

    fn run<T>(&self, flag: u32, op: &str, f: impl FnOnce() -> T) -> Res<T> {
        if self.cfg.test & flag != 0 {
            call(op, f)
        } else {
            nav(op, f)
        }
    }

    fn message(&mut self, flag: u32, op: &str, e: &E) -> Res {
        if self.cfg.messages {
            if let Err(m) = message_fits(e) {
                return self.fail(flag, op, m);
            }
        }
        Ok(())
    }

    /// Compares Ok/Err (and the error); returns the pair if both are Ok.
    fn pair<T, U>(&mut self, flag: u32, op: &'static str, ctx: &str, got: Result<T, E>, want: R<U>) -> Res<Option<(T, U)>> {
        match (got, want) {
            (Ok(g), Ok(w)) => {
                self.st.note(op, "ok");
                Ok(Some((g, w)))
            }
            (Err(g), Err(w)) => {
                if self.cfg.exact && !self.o.same_report(&w, &g) {
                    return self.fail(flag, op, format!("{ctx}: reports {g:?} instead of {w:?}"));
                }
                self.message(flag, op, &g)?;
                self.st.note_err(op, &g);
                Ok(None)
            }
            (Ok(_), Err(w)) => self.fail(flag, op, format!("{ctx}: succeeds instead of reporting {w:?}")),
            (Err(g), Ok(_)) => self.fail(flag, op, format!("{ctx}: fails with {g:?}")),
        }
    }

    fn pair_any<T, U>(&mut self, flag: u32, op: &'static str, ctx: &str, got: Result<T, E>, want: Result<U, Vec<E>>) -> Res<Option<(T, U)>> {
        match (got, want) {
            (Err(g), Err(w)) => {
                if self.cfg.exact && !w.iter().any(|w| self.o.same_report(w, &g)) {
                    return self.fail(flag, op, format!("{ctx}: reports {g:?} instead of one of {w:?}"));
                }
                self.message(flag, op, &g)?;
                self.st.note(op, "error");
                Ok(None)
            }
            (g, Ok(w)) => self.pair(flag, op, ctx, g, Ok(w)),
            (g, Err(w)) => self.pair(flag, op, ctx, g, Err(w[0].clone())),
        }
    }

    fn pair_opt<T, U>(
        &mut self,
        flag: u32,
        op: &'static str,
        ctx: &str,
        got: Option<Result<T, E>>,
        want: Option<R<U>>,
    ) -> Res<Option<(T, U)>> {
        match (got, want) {
            (None, None) => {
                self.st.note(op, "none");
                Ok(None)
            }
            (Some(g), Some(w)) => self.pair(flag, op, ctx, g, w),
            (None, Some(Ok(_))) => self.fail(flag, op, format!("{ctx}: None instead of a result")),
            (None, Some(Err(w))) => self.fail(flag, op, format!("{ctx}: None instead of {w:?}")),
            (Some(Ok(_)), None) => self.fail(flag, op, format!("{ctx}: a result instead of None")),
            (Some(Err(g)), None) => self.fail(flag, op, format!("{ctx}: {g:?} instead of None")),
        }
    }

    pub fn slice(&mut self, flag: u32, op: &str, ctx: &str, got: &[u8], want: &Range<usize>) -> Res {
        let at = (got.as_ptr() as usize).wrapping_sub(self.base);
        if at != want.start || got.len() != want.len() {
            return self.fail(
                flag,
                op,
                format!("{ctx}: returned {} bytes at file offset {:#x}, designated are {} bytes at {:#x}", got.len(), at as isize, want.len(), want.start),
            );
        }
        if got != &self.o.all[want.clone()] {
            return self.fail(flag, op, format!("{ctx}: bytes at {:#x} differ from the input", at));
        }
        self.st.slices += 1;
        self.st.bytes += got.len() as u64;
        self.st.feed(want.start as u64);
        self.st.feed_bytes(got);
        Ok(())
    }

    fn name(&mut self, flag: u32, op: &'static str, ctx: &str, got: Result<NtHiveNameString, E>, want: R<NameR>) -> Res<Option<NameR>> {
        if let Some((g, w)) = self.pair(flag, op, ctx, got, want)? {
            let (latin1, b) = match &g {
                NtHiveNameString::Latin1(b) => (true, *b),
                NtHiveNameString::Utf16LE(b) => (false, *b),
            };
            if latin1 != w.latin1 {
                return self.fail(flag, op, format!("{ctx}: encoding is {}", if latin1 { "Latin1" } else { "UTF-16" }));
            }
            self.slice(flag, op, ctx, b, &w.range)?;
            return Ok(Some(w));
        }
        Ok(None)
    }

    pub fn walk<B: SplitByteSlice>(&mut self, hive: &Hive<B>, rng: &mut Rng) -> Res {
        let root = self.run(SUBKEYS, "root_key_node", || hive.root_key_node())?;
        let want = self.o.root();
        let Some((root, n)) = self.pair(SUBKEYS, "root_key_node", "root", root, want)? else {
            return Ok(());
        };
        let mut queue = VecDeque::new();
        let mut seen = HashSet::new();
        seen.insert(n.off);
        queue.push_back((root, n));
        let mut items = 0;
        let mut done = 0;
        while let Some((k, n)) = queue.pop_front() {
            done += 1;
            if done > self.cfg.max_nodes {
                break;
            }
            self.node(k, n, &mut queue, &mut seen, &mut items, rng)?;
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn node<'h, B: SplitByteSlice>(
        &mut self,
        k: KeyNode<'h, B>,
        n: Node,
        queue: &mut VecDeque<(KeyNode<'h, B>, Node)>,
        seen: &mut HashSet<u32>,
        items: &mut usize,
        rng: &mut Rng,
    ) -> Res {
        let ctx = format!("key at {:#x}", n.cell.start);
        self.st.nodes += 1;
        {
            let got = self.run(NAME, "name", || k.name())?;
            let want = self.o.node_name(&n);
            self.name(NAME, "name", &ctx, got, want)?;
        }
        if self.cfg.test & CLASS != 0 {
            let got = self.run(CLASS, "class_name", || k.class_name())?;
            let want = self.o.class(&n);
            if let Some((g, w)) = self.pair_opt(CLASS, "class_name", &ctx, got, want)? {
                match &g {
                    NtHiveNameString::Utf16LE(b) => self.slice(CLASS, "class_name", &ctx, b, &w)?,
                    _ => return self.fail(CLASS, "class_name", format!("{ctx}: not UTF-16")),
                }
            }
        }

        // subkeys
        let want_sub = self.o.subkeys(&n);
        let mut flat: Vec<R<Node>> = vec![];
        let got = self.run(SUBKEYS, "subkeys", || k.subkeys())?;
        if let Some((mut it, w)) = self.pair_opt(SUBKEYS, "subkeys", &ctx, got, want_sub)? {
            flat = w.flat();
            for (i, w) in flat.iter().enumerate() {
                *items += 1;
                if *items > self.cfg.max_items {
                    return Ok(());
                }
                let c = format!("{ctx} subkey {i}");
                let got = self.run(SUBKEYS, "subkeys.next", || it.next())?;
                if let Some((child, cn)) = self.pair_opt(SUBKEYS, "subkeys.next", &c, got, Some(w.clone()))? {
                    // the name's position identifies the key
                    let nm = self.run(NAME, "name", || child.name())?;
                    if let (Ok(nm), Ok(w)) = (&nm, self.o.node_name(&cn)) {
                        let b = match nm {
                            NtHiveNameString::Latin1(b) => b,
                            NtHiveNameString::Utf16LE(b) => b,
                        };
                        if (b.as_ptr() as usize).wrapping_sub(self.base) != w.range.start {
                            return self.fail(SUBKEYS, "subkeys.next", format!("{c}: a different key than the listed one"));
                        }
                    }
                    drop(nm);
                    if seen.insert(cn.off) {
                        queue.push_back((child, cn));
                    }
                }
            }
            for _ in 0..2 {
                if self.run(SUBKEYS, "subkeys.next", || it.next().is_some())? {
                    return self.fail(SUBKEYS, "subkeys.next", format!("{ctx}: more than {} subkeys", flat.len()));
                }
            }
        }

        if self.cfg.test & (SUBKEY | SUBPATH) != 0 {
            self.lookups(&k, &n, &flat, rng)?;
        }
        self.values(&k, &n, items, rng)
    }

    /// Subkey lookups. On a well-ordered list the result is determined; otherwise it must be a listed
    /// key with a matching name, an error of the list, or nothing.
    fn lookups<B: SplitByteSlice>(&mut self, k: &KeyNode<B>, n: &Node, flat: &[R<Node>], rng: &mut Rng) -> Res {
        let ctx = format!("key at {:#x}", n.cell.start);
        let sub = self.o.subkeys(n);
        if let Some(Err(w)) = &sub {
            let got = self.run(SUBKEY, "subkey", || k.subkey("x"))?;
            self.pair_opt(SUBKEY, "subkey", &ctx, got, Some(R::<()>::Err(w.clone())))?;
            return Ok(());
        }
        if sub.is_none() {
            let got = self.run(SUBKEY, "subkey", || k.subkey("x"))?;
            self.pair_opt(SUBKEY, "subkey", &ctx, got, None::<R<()>>)?;
            return Ok(());
        }
        let names: Vec<R<(Vec<u16>, Range<usize>)>> = flat
            .iter()
            .map(|r| r.clone().and_then(|n| self.o.node_name(&n)).map(|nm| (self.o.units(&nm), nm.range)))
            .collect();
        let clean = names.iter().all(|x| x.is_ok())
            && names.windows(2).all(|w| {
                fold::cmp_units(&w[0].as_ref().unwrap().0, &w[1].as_ref().unwrap().0) == std::cmp::Ordering::Less
            });
        for j in 0..self.cfg.lookups {
            let mut target: Vec<u16> = if !names.is_empty() && j % 4 != 3 {
                match &names[rng.idx(names.len())] {
                    Ok((u, _)) => crate::model::respell(rng, u),
                    Err(_) => crate::model::rand_units(rng, 8, false),
                }
            } else {
                crate::model::rand_units(rng, 8, false)
            };
            if j % 8 == 6 && !target.is_empty() {
                let i = rng.idx(target.len());
                target[i] = target[i].wrapping_add(1);
            }
            // a &str cannot carry an unpaired surrogate
            let Some(text) = fold::decode(&target, false) else { continue };
            let target: Vec<u16> = text.encode_utf16().collect();
            let with_path = self.cfg.test & SUBPATH != 0 && !text.contains('\\') && !text.is_empty() && rng.chance(1, 2);
            let (op, flag) = if with_path { ("subpath", SUBPATH) } else { ("subkey", SUBKEY) };
            if !with_path && self.cfg.test & SUBKEY == 0 {
                continue;
            }
            let got = if with_path {
                let p = format!("\\{text}\\\\");
                self.run(flag, op, || k.subpath(&p))?
            } else {
                self.run(flag, op, || k.subkey(&text))?
            };
            let matches: Vec<&Range<usize>> = names
                .iter()
                .filter_map(|x| x.as_ref().ok())
                .filter(|(u, _)| fold::cmp_units(u, &target) == std::cmp::Ordering::Equal)
                .map(|(_, r)| r)
                .collect();
            match got {
                None => {
                    self.st.note(op, "none");
                    if clean && !matches.is_empty() {
                        return self.fail(flag, op, format!("{ctx}: {text:?} not found"));
                    }
                }
                Some(Ok(f)) => {
                    self.st.note(op, "ok");
                    let nm = self.run(NAME, "name", || f.name())?;
                    let at = match &nm {
                        Ok(NtHiveNameString::Latin1(b)) | Ok(NtHiveNameString::Utf16LE(b)) => {
                            (b.as_ptr() as usize).wrapping_sub(self.base)
                        }
                        Err(e) => return self.fail(flag, op, format!("{ctx}: {text:?} found a key without readable name: {e:?}")),
                    };
                    if !matches.iter().any(|r| r.start == at) {
                        return self.fail(flag, op, format!("{ctx}: {text:?} found the key whose name is at {at:#x}"));
                    }
                }
                Some(Err(e)) => {
                    self.st.note_err(op, &e);
                    let known = names.iter().any(|x| match x {
                        Ok(_) => false,
                        Err(w) => !self.cfg.exact || self.o.same_report(w, &e),
                    });
                    if !known {
                        return self.fail(flag, op, format!("{ctx}: {text:?} fails with {e:?}, which no entry of the list has"));
                    }
                }
            }
        }
        Ok(())
    }

    fn values<B: SplitByteSlice>(&mut self, k: &KeyNode<B>, n: &Node, items: &mut usize, rng: &mut Rng) -> Res {
        if self.cfg.test & (VALUES | VNAME | META | DATA | STR | INT | MULTI | VALUE) == 0 {
            return Ok(());
        }
        let ctx = format!("key at {:#x}", n.cell.start);
        let want = self.o.values(n);
        let got = self.run(VALUES, "values", || k.values())?;
        let list = match self.pair_opt(VALUES, "values", &ctx, got, want.clone())? {
            Some((mut it, w)) => {
                for (i, w) in w.iter().enumerate() {
                    *items += 1;
                    if *items > self.cfg.max_items {
                        return Ok(());
                    }
                    let c = format!("{ctx} value {i}");
                    let got = self.run(VALUES, "values.next", || it.next())?;
                    if let Some((v, vr)) = self.pair_opt(VALUES, "values.next", &c, got, Some(w.clone()))? {
                        self.value(&v, &vr, &c)?;
                    }
                }
                for _ in 0..2 {
                    if self.run(VALUES, "values.next", || it.next().is_some())? {
                        return self.fail(VALUES, "values.next", format!("{ctx}: more than {} values", w.len()));
                    }
                }
                Some(w)
            }
            None => None,
        };

        if self.cfg.test & VALUE != 0 {
            for j in 0..self.cfg.lookups {
                let mut text = None;
                if let Some(w) = list.as_ref().filter(|w| !w.is_empty() && j % 4 != 3) {
                    if let Ok(v) = &w[rng.idx(w.len())] {
                        if let Ok(nm) = self.o.val_name(v) {
                            let u = crate::model::respell(rng, &self.o.units(&nm));
                            text = fold::decode(&u, false);
                        }
                    }
                }
                let text = text.unwrap_or_else(|| if j % 3 == 0 { String::new() } else { "no such value".into() });
                let target: Vec<u16> = text.encode_utf16().collect();
                let want: Option<R<Val>> = match &want {
                    None => None,
                    Some(Err(e)) => Some(Err(e.clone())),
                    Some(Ok(w)) => {
                        let mut res = None;
                        for v in w {
                            match v {
                                Err(e) => {
                                    res = Some(Err(e.clone()));
                                    break;
                                }
                                Ok(v) => match self.o.val_name(v) {
                                    Err(e) => {
                                        res = Some(Err(e));
                                        break;
                                    }
                                    Ok(nm) => {
                                        if fold::cmp_units(&self.o.units(&nm), &target) == std::cmp::Ordering::Equal {
                                            res = Some(Ok(v.clone()));
                                            break;
                                        }
                                    }
                                },
                            }
                        }
                        res
                    }
                };
                let c = format!("{ctx} looking up {text:?}");
                let got = self.run(VALUE, "value", || k.value(&text))?;
                if let Some((v, w)) = self.pair_opt(VALUE, "value", &c, got, want)? {
                    let nm = self.run(VNAME, "value.name", || v.name())?;
                    let want = self.o.val_name(&w);
                    self.name(VALUE, "value", &c, nm, want)?;
                }
            }
        }
        Ok(())
    }

    pub fn value<B: SplitByteSlice>(&mut self, v: &KeyValue<B>, vr: &Val, c: &str) -> Res {
        self.st.values += 1;
        {
            let got = self.run(VNAME, "value.name", || v.name())?;
            let want = self.o.val_name(vr);
            self.name(VNAME, "value.name", c, got, want)?;
        }
        if self.cfg.test & META != 0 {
            let got = self.run(META, "data_size", || v.data_size())?;
            if got != self.o.val_size(vr) {
                return self.fail(META, "data_size", format!("{c}: {got} instead of {}", self.o.val_size(vr)));
            }
            self.st.feed(got as u64);
            let got = self.run(META, "data_type", || v.data_type())?;
            let want = self.o.val_type(vr);
            if let Some((g, w)) = self.pair(META, "data_type", c, got, want)? {
                if g as u32 != w {
                    return self.fail(META, "data_type", format!("{c}: {g:?} instead of {w}"));
                }
            }
        }
        let d = self.o.data(vr);
        let big = match &d {
            Ok(DataR::Big { total, .. }) => *total > self.cfg.max_data,
            _ => false,
        };
        if self.cfg.test & DATA != 0 {
            let got = self.run(DATA, "data", || v.data())?;
            if let Some((g, w)) = self.pair(DATA, "data", c, got, d.clone())? {
                match (g, w) {
                    (KeyValueData::Small(b), DataR::Small(r)) => self.slice(DATA, "data", c, b, &r)?,
                    (KeyValueData::Big(mut it), DataR::Big { segs, .. }) => {
                        for (i, w) in segs.into_iter().enumerate() {
                            if i * SEG > self.cfg.max_data {
                                break;
                            }
                            let c = format!("{c} segment {i}");
                            let got = self.run(DATA, "data.next", || it.next())?;
                            if let Some((b, r)) = self.pair_opt(DATA, "data.next", &c, got, Some(w))? {
                                self.slice(DATA, "data.next", &c, b, &r)?;
                            }
                        }
                        if !big && self.run(DATA, "data.next", || it.next().is_some())? {
                            return self.fail(DATA, "data.next", format!("{c}: more data than its size"));
                        }
                    }
                    (KeyValueData::Small(_), _) => return self.fail(DATA, "data", format!("{c}: in one piece, but stored in segments")),
                    (KeyValueData::Big(_), _) => return self.fail(DATA, "data", format!("{c}: in segments, but stored in one piece")),
                }
            }
        }
        if self.cfg.test & INT != 0 {
            for qword in [false, true] {
                let op = if qword { "qword_data" } else { "dword_data" };
                let got = self.run(INT, op, || if qword { v.qword_data() } else { v.dword_data().map(|x| x as u64) })?;
                let want = self.o.int(vr, qword);
                if let Some((g, w)) = self.pair_any(INT, op, c, got, want)? {
                    if g != w && self.cfg.content {
                        return self.fail(INT, op, format!("{c}: {g:#x} instead of {w:#x}"));
                    }
                    self.st.feed(g);
                }
            }
        }
        #[cfg(feature = "alloc")]
        if !big {
            if self.cfg.test & DATA != 0 {
                let got = self.run(DATA, "into_vec", || v.data().and_then(|d| d.into_vec()))?;
                let want = d.and_then(|d| self.o.bytes(&d));
                if let Some((g, w)) = self.pair(DATA, "into_vec", c, got, want)? {
                    if g != w {
                        return self.fail(DATA, "into_vec", format!("{c}: {} bytes differ from the stored {}", g.len(), w.len()));
                    }
                }
            }
            if self.cfg.test & STR != 0 {
                let got = self.run(STR, "string_data", || v.string_data())?;
                let want = self.o.string(vr);
                if let Some((g, w)) = self.pair_any(STR, "string_data", c, got, want)? {
                    if g != w && self.cfg.content {
                        return self.fail(STR, "string_data", format!("{c}: {g:?} instead of {w:?}"));
                    }
                    self.st.feed_bytes(g.as_bytes());
                }
            }
            if self.cfg.test & MULTI != 0 {
                let got = self.run(MULTI, "multi_string_data", || v.multi_string_data())?;
                let want = self.o.multi(vr);
                let r = self.pair_any(MULTI, "multi_string_data", c, got, want)?;
                if let Some((mut it, (lines, bad))) = r.filter(|_| self.cfg.content) {
                    for (i, l) in lines.iter().enumerate() {
                        match self.run(MULTI, "multi.next", || it.next())? {
                            Some(Ok(s)) if s == *l => self.st.feed_bytes(s.as_bytes()),
                            x => return self.fail(MULTI, "multi.next", format!("{c}: line {i} is {x:?} instead of {l:?}")),
                        }
                    }
                    match (self.run(MULTI, "multi.next", || it.next())?, bad) {
                        (None, None) => {
                            for _ in 0..2 {
                                if let Some(x) = self.run(MULTI, "multi.next", || it.next())? {
                                    return self.fail(MULTI, "multi.next", format!("{c}: {x:?} after the end"));
                                }
                            }
                        }
                        (Some(Err(e)), Some(w)) if !self.cfg.exact || self.o.same_report(&w, &e) => (),
                        (g, w) => return self.fail(MULTI, "multi.next", format!("{c}: {g:?} after {} lines instead of {w:?}", lines.len())),
                    }
                }
            }
        }
        Ok(())
    }
}
