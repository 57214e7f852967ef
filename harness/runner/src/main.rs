mod adv;
mod cairo;
mod common;
mod dair;
mod blocks;
#[cfg(feature = "pieces")]
mod pieces;
mod small;
mod stark;

#[cfg(debug_assertions)]
pub use lambdaworks_stark::starks::debug::validate_trace;
/// The crate only has trace validation in debug builds.
#[cfg(not(debug_assertions))]
pub fn validate_trace<F: lambdaworks_math::field::traits::IsFFTField, A: lambdaworks_stark::starks::traits::AIR<Field = F>>(
    _: &A,
    _: &[lambdaworks_math::polynomial::Polynomial<lambdaworks_math::field::element::FieldElement<F>>],
    _: &lambdaworks_stark::starks::domain::Domain<F>,
    _: &A::RAPChallenges,
) -> bool {
    panic!("no trace validation in this build")
}
use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn main() {
    common::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a[1].as_str();
    let run: fn(&Value) -> Value = match cmd {
        "stark" => stark::run_any,
        "cairo" => cairo::run,
        "small" => small::run,
        #[cfg(feature = "pieces")]
        "pieces" => pieces::run,
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2)
        }
    };
    let f = std::fs::File::open(&a[2]).expect("scenario file");
    let scs: Vec<Value> = BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("json"))
        .collect();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let outs: Vec<std::sync::Mutex<Option<Value>>> =
        (0..scs.len()).map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= scs.len() {
                        break;
                    }
                    let v = run(&scs[i]);
                    *outs[i].lock().unwrap() = Some(v);
                })
                .unwrap();
        }
    });
    let mut w = BufWriter::new(std::fs::File::create(&a[3]).expect("out"));
    for o in outs {
        let v = o.into_inner().unwrap().expect("scenario produced no result");
        writeln!(w, "{}", v).unwrap();
    }
}
