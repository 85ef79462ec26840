//! vx: mechanical extraction of cesride functions into a Verus file.
//! Usage: vx <repo> <specdir> <unit> <out.rs> <out.json> [fn,fn..]
mod res;
mod rw;
mod tmpl;
mod print;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx <repo> <specdir> <unit> <out.rs> <out.json> [fn,fn..]");
        std::process::exit(2);
    }
    match tmpl::run(&a[1], &a[2], &a[3], &a[4], &a[5], &a.get(6).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default()) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("TRANSLATION: {e}");
            std::process::exit(3);
        }
    }
}
