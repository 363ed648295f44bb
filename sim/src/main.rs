mod common;
mod dsim;
mod exec;
#[cfg(feature = "ida")]
mod ihist;
#[cfg(feature = "ida")]
mod iorc;
#[cfg(feature = "ida")]
mod irun;
#[cfg(feature = "ida")]
mod isim;
mod noracle;
mod nrun;
mod nsim;
mod rng;
mod runner;
mod ssim;
mod tsim;

fn main() {
    common::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => runner::run_check(&a[2]),
        Some("worker") => runner::worker(&a[2..]),
        Some("replay") => runner::replay(&a[2]),
        #[cfg(feature = "ida")]
        Some("peaks") => runner::peaks(&a[2..]),
        Some("one") => runner::one(&a[2..]),
        Some("hashes") => runner::hashes(&a[2..]),
        _ => {
            eprintln!("usage: sim run PROPERTY | replay FILE | hashes PROPERTY FROM TO");
            2
        }
    };
    std::process::exit(code);
}
