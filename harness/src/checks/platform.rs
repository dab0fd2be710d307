//! C18, the part inside one build: byte-slice types and alignments. The other builds run `hivematrix`.
use crate::cx::*;
use hivecore::cases::{self, Size};
use hivecore::mslice::{Mon, MonMut};
use hivecore::obs::*;
use hivecore::query::{self, Frame};
use hivecore::rng::{digest, mix};
use nt_hive::*;
use std::cell::{Ref, RefCell, RefMut};
use zerocopy::SplitByteSlice;

pub const C18: Check = Check {
    id: "C18",
    rule: "one workload of intact, damaged, extreme and segmented hives with their queries is answered through every byte-slice \
           type and every alignment in one build, and by separate builds: optimised without overflow checks, unoptimised, \
           core-only, alloc-only, 32-bit and big-endian (under Miri), and a program without allocator; all transcripts must \
           be equal; non-trivial: the hive opened and has a key; distinct by bytes",
    phases: &[
        Phase { name: "slice types and alignments", quick: 12_000, thorough: 800_000, f: types },
        Phase { name: "alignment to pages and tails", quick: 1500, thorough: 100_000, f: pages },
    ],
};

fn ask<B: SplitByteSlice>(c: &cases::Case, hive: Result<Hive<B>>, base: usize, len: usize, ptr: &str) -> Res<Vec<u64>> {
    let mut out = vec![];
    let f = Frame { base, len };
    call(ptr, || {
        match &hive {
            Err(e) => out.push(query::error(e)),
            Ok(h) => {
                cases::ask(h, &f, c.keys, &c.core, &mut out);
                cases::ask(h, &f, c.keys, &c.alloc, &mut out);
            }
        };
    })
    .map_err(|e| e.skip())?;
    Ok(out)
}

fn compare(c: &cases::Case, what: &str, want: &[u64], got: &[u64]) -> Res {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let op = if i == 0 || want.len() != got.len() {
        "the keys found".to_string()
    } else {
        let ks = want[0] as usize;
        let core = query::usable(ks, &c.core);
        let alloc = query::usable(ks, &c.alloc);
        core.get(i - 1).or_else(|| i.checked_sub(core.len() + 2).and_then(|j| alloc.get(j))).map(|q| format!("{q:?}")).unwrap_or_default()
    };
    diff("query", format!("answers through {what} differ from those through an aligned &[u8]: {op}"))
}

fn types(cx: &mut Cx, n: u64) -> Res {
    let c = cases::case(cx.seed, n, Size::Normal);
    cx.set_hive(&c.bytes, c.what.clone());
    let len = c.bytes.len();
    cx.eval(1);
    cx.ev(cases::kind_of(n), 1);
    let base = |b: &[u8]| b.as_ptr() as usize;
    // one buffer with room for any shift
    let mut room = vec![0u64; len / 8 + 4];
    // SAFETY: u64s viewed as bytes.
    let room: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(room.as_mut_ptr() as *mut u8, (len / 8 + 4) * 8) };
    room[..len].copy_from_slice(&c.bytes);
    let want = {
        let b = &room[..len];
        ask(&c, Hive::without_validation(b), base(b), len, "&[u8]")?
    };
    let mut answers = want.len() as u64;
    let shift = 1 + cx.rng.idx(15);
    room.copy_within(..len, shift);
    {
        let b = &room[shift..shift + len];
        let got = ask(&c, Hive::without_validation(b), base(b), len, "shifted &[u8]")?;
        compare(&c, &format!("&[u8] at an address of {} mod 16", base(b) % 16), &want, &got)?;
        let got = ask(&c, Hive::without_validation(Mon(b)), base(b), len, "Mon")?;
        compare(&c, "a foreign byte-slice type", &want, &got)?;
    }
    {
        let p = room[shift..].as_ptr() as usize;
        let got = ask(&c, Hive::without_validation(&mut room[shift..shift + len]), p, len, "&mut [u8]")?;
        compare(&c, "&mut [u8]", &want, &got)?;
        let got = ask(&c, Hive::without_validation(MonMut(&mut room[shift..shift + len])), p, len, "MonMut")?;
        compare(&c, "a foreign mutable byte-slice type", &want, &got)?;
    }
    let cell = RefCell::new(c.bytes.clone());
    {
        let r: Ref<[u8]> = Ref::map(cell.borrow(), |v| &v[..]);
        let p = base(&r);
        let got = ask(&c, Hive::without_validation(r), p, len, "Ref<[u8]>")?;
        compare(&c, "Ref<[u8]>", &want, &got)?;
    }
    {
        let r: RefMut<[u8]> = RefMut::map(cell.borrow_mut(), |v| &mut v[..]);
        let p = base(&r);
        let got = ask(&c, Hive::without_validation(r), p, len, "RefMut<[u8]>")?;
        compare(&c, "RefMut<[u8]>", &want, &got)?;
    }
    // opening with validation
    let open = cases::opening(&c.bytes);
    let again = cases::opening(&room[shift..shift + len]);
    compare(&c, "Hive::new at another address", &open, &again)?;
    // clearing through each mutable type
    let mut results = vec![];
    let mut m = c.bytes.clone();
    results.push(("&mut [u8]", cases::clearing(&mut m[..]), digest(&m)));
    let r = cases::clearing(&mut room[shift..shift + len]);
    results.push(("misaligned &mut [u8]", r, digest(&room[shift..shift + len])));
    room[shift..shift + len].copy_from_slice(&c.bytes);
    let r = cases::clearing(MonMut(&mut room[shift..shift + len]));
    results.push(("a foreign mutable byte-slice type", r, digest(&room[shift..shift + len])));
    let r = cases::clearing(RefMut::map(cell.borrow_mut(), |v| &mut v[..]));
    results.push(("RefMut<[u8]>", r, digest(&cell.borrow())));
    for (what, r, d) in &results {
        if (*r, *d) != (results[0].1, results[0].2) {
            return diff("clear_volatile_subkeys", format!("result through {what} differs from the one through an aligned &mut [u8]"));
        }
    }
    answers *= 6;
    cx.ev("answers compared", answers);
    cx.ev("clear_volatile_subkeys compared", results.len() as u64);
    if want.first().is_some_and(|k| *k > 0) && want.len() > 4 {
        cx.fp(mix(digest(&c.bytes)));
        cx.sample(|| format!("{}: {} answers through 6 slice types, shift {shift}", c.what, want.len()));
    }
    Ok(())
}

/// The same bytes at the very end of a page whose successor is not readable.
fn pages(cx: &mut Cx, n: u64) -> Res {
    let c = cases::case(cx.seed ^ 0x55, n, Size::Normal);
    cx.set_hive(&c.bytes, c.what.clone());
    let len = c.bytes.len();
    cx.eval(1);
    let want = ask(&c, Hive::without_validation(&c.bytes[..]), c.bytes.as_ptr() as usize, len, "&[u8]")?;
    let total = (len.div_ceil(4096) + 2) * 4096;
    // SAFETY: a fresh anonymous mapping; its first and last pages are made inaccessible.
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            return Err(Fault::Skip("mmap failed".into()));
        }
        let p = p as *mut u8;
        let start = p.add(total - 4096 - len);
        std::ptr::copy_nonoverlapping(c.bytes.as_ptr(), start, len);
        libc::mprotect(p.add(total - 4096) as *mut _, 4096, libc::PROT_NONE);
        libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
        let b = std::slice::from_raw_parts(start, len);
        let r = ask(&c, Hive::without_validation(b), start as usize, len, "&[u8] at the end of a page")
            .and_then(|got| compare(&c, "&[u8] at the end of a page", &want, &got));
        libc::munmap(p as *mut _, total);
        r?;
    }
    cx.ev("hives at the end of a page", 1);
    cx.ev("answers compared", want.len() as u64);
    if want.len() > 4 {
        cx.fp(mix(digest(&c.bytes) ^ 1));
    }
    Ok(())
}
