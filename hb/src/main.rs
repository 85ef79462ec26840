#![allow(clippy::all)]
mod cesr;
mod ctx;
mod p_doc;
mod p_num;
mod p_prim;
mod p_sig;
mod p_th;
#[cfg(feature = "wasm")]
mod p_wasm;
mod types;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: hb ID quick|thorough SEED REPO OUT.json");
        std::process::exit(2)
    }
    let (ints, strs) = ctx::harvest(&a[4]);
    let mut c = ctx::Ctx::new(&a[1], &a[2], a[3].parse().unwrap_or(1), &a[5], ints, strs);
    match a[1].as_str() {
        "C01" => p_prim::c01(&mut c),
        "C02" => p_prim::c02(&mut c),
        "C03" => p_prim::c03(&mut c),
        "C04" => p_prim::c04(&mut c),
        "C05" => p_prim::c05(&mut c),
        "C06" => p_prim::c06(&mut c),
        "C07" => p_prim::c07(&mut c),
        "C08" => p_prim::c08(&mut c),
        "C09" => p_prim::c09(&mut c),
        "C10" => p_prim::c10(&mut c),
        "C11" => p_num::c11(&mut c),
        "C12" => p_num::c12(&mut c),
        "C13" => p_num::c13(&mut c),
        "C14" => p_num::c14(&mut c),
        "C15" => p_sig::c15(&mut c),
        "C16" => p_sig::c16(&mut c),
        "C17" => p_sig::c17(&mut c),
        "C27" => p_sig::c27(&mut c),
        "C18" => p_th::c18(&mut c),
        "C19" => p_th::c19(&mut c),
        "C20" => p_doc::c20(&mut c),
        "C21" => p_doc::c21(&mut c),
        "C22" => p_doc::c22(&mut c),
        "C23" => p_doc::c23(&mut c),
        "C24" => p_doc::c24(&mut c),
        "C28" => p_doc::c28(&mut c),
        #[cfg(feature = "wasm")]
        "C25" => p_wasm::c25(&mut c),
        #[cfg(feature = "wasm")]
        "C29" => p_wasm::c29(&mut c),
        _ => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2)
        }
    }
    c.finish();
}
