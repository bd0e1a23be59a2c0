//! Harnesses for the symbolic executor, and (in the native build) the replayer
//! for the counterexamples it finds.
mod common;
#[allow(dead_code)]
mod values;
#[allow(dead_code)]
mod file;
mod ops;
#[cfg(any(feature = "p18", feature = "p19", feature = "p20", feature = "p21", feature = "p22", feature = "p24", feature = "all"))]
#[allow(dead_code)]
mod typed;
#[cfg(feature = "sym")]
mod models;

/// Declares harness functions and a table of them.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() $body )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(any(feature = $f, feature = "all"))] mod $m;)*
        fn table() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
            vec![$(#[cfg(any(feature = $f, feature = "all"))] $m::TABLE),*]
        }
    };
}

modules! {
    "p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "p06" p06, "p07" p07, "p08" p08,
    "p09" p09, "p10" p10, "p11" p11, "p12" p12, "p13" p13, "p14" p14, "p15" p15, "p16" p16, "p17" p17,
    "p18" p18, "p19" p19, "p20" p20, "p21" p21, "p22" p22, "p23" p23, "p24" p24, "p25" p25,
}

fn find(name: &str) -> Option<extern "C-unwind" fn()> {
    for t in table() {
        for (n, f) in t {
            if *n == name {
                return Some(*f);
            }
        }
    }
    None
}

#[cfg(feature = "sym")]
fn main() {
    // keeps every harness reachable; never run
    let a = std::env::args().nth(1).unwrap();
    find(&a).unwrap()();
}

#[cfg(not(feature = "sym"))]
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness name");
    let f = find(&name).expect("known harness");
    common::set_inputs(a.map(|s| s.parse().expect("number")).collect());
    match std::panic::catch_unwind(|| f()) {
        Ok(()) => {
            println!("REPLAY held");
        }
        Err(e) => {
            if common::panic_allowed() {
                println!("REPLAY held (allowed panic)");
            } else {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                println!("REPLAY violated: panic: {m}");
                std::process::exit(1);
            }
        }
    }
}
