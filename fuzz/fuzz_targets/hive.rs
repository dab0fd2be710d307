//! Coverage-guided exploration under AddressSanitizer: every public call on whatever the bytes
//! describe. First byte: options; the rest is a hive.
#![no_main]
use hivecore::exercise::{Budget, Ex};
use hivecore::rng::Rng;
use libfuzzer_sys::fuzz_target;

fuzz_target!(|data: &[u8]| {
    let Some((o, bytes)) = data.split_first() else { return };
    let mut b = bytes.to_vec().into_boxed_slice();
    if o & 1 == 0 && b.len() >= 512 {
        hivecore::build::fix_checksum(&mut b);
    }
    let bd = Budget { nodes: 30, items: 1500, data: 1 << 18, thorough: o & 2 == 0 };
    let mut r = Rng::derive(*o as u64 >> 2, "fuzz", bytes.len() as u64, 0);
    let mut e = Ex::new(&mut r, bd);
    let res = e.open(&b).and_then(|_| {
        let mut m = b.clone();
        e.clear(&mut m[..])
    });
    if let Err(f) = res {
        eprintln!("FAULT {}", f.text());
        std::process::abort();
    }
});
