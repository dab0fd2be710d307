use crate::cx::Check;

mod damage;
mod data;
mod enumerate;
mod handles;
mod header;
mod iters;
mod lookup;
mod names;
mod platform;
mod program;
mod purity;
mod robust;
mod sweep;
mod util;
mod volatile;
mod work;

pub fn all() -> Vec<Check> {
    vec![
        robust::C01,
        work::C02,
        enumerate::C03,
        lookup::C04,
        lookup::C05,
        lookup::C06,
        names::C07,
        names::C08,
        data::C09,
        data::C10,
        data::C11,
        header::C12,
        volatile::C13,
        iters::C14,
        damage::C15,
        damage::C16,
        purity::C17,
        platform::C18,
        handles::C19,
        program::C20,
    ]
}
