//! One input is a case of one relation of the property named by T2D_PROP: the
//! first byte chooses the relation, the others are its draws. An input that
//! breaks the relation ends the process, so that libFuzzer keeps it.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use t2d_harness::engine::{install_panic_hook, run_case, Obs, Prop, Src};
use t2d_harness::props;

static PROP: OnceLock<Prop> = OnceLock::new();

fuzz_target!(
    init: {
        let id = std::env::var("T2D_PROP").expect("T2D_PROP names a property");
        let p = props::all().into_iter().find(|p| p.id == id).expect("it exists");
        let _ = PROP.set(p);
        // relations catch panics themselves
        install_panic_hook();
    },
    |input: &[u8]| {
        let p = PROP.get().unwrap();
        let Some((r, draws)) = props::fuzz_relation(p, input) else { return };
        let mut s = Src::from_bytes(draws);
        if let Err(f) = run_case(r, &mut s, &mut Obs::default()) {
            eprintln!("{}: {}", r.name, f.msg);
            std::process::abort();
        }
    }
);
