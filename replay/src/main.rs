//! Bounded search for concrete failing inputs on the real snapcd code.
//! Usage: replay PROPERTY SEED SECONDS OUT [--only CASE]
//! Prints one JSON line with what it covered; writes failing cases to OUT.
mod util;
mod store_cases;
mod key_cases;
mod db_cases;
mod tree_cases;
mod fs_cases;
mod cli_cases;
mod show_cases;
mod end_cases;
mod same_cases;
mod patch_cases;
mod co_cases;

use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    if prop == "C28" { if let Some(t) = co_cases::contained(&a) { print!("{}", t); std::io::stdout().flush().unwrap(); return; } }
    let mut c = util::Ctx::new(prop, seed, secs, only);
    match prop {
        "C01" => store_cases::c01(&mut c),
        "C02" => store_cases::c02(&mut c),
        "C03" => key_cases::c03(&mut c),
        "C04" => key_cases::c04(&mut c),
        "C05" => key_cases::c05(&mut c),
        "C22" => key_cases::c22(&mut c),
        "C07" => tree_cases::c07(&mut c),
        "C08" => db_cases::c08(&mut c),
        "C09" => { cli_cases::c09(&mut c); db_cases::c09(&mut c) }
        "C14" => db_cases::c14(&mut c),
        "C20" => db_cases::c20(&mut c),
        "C10" => fs_cases::c10(&mut c),
        "C11" => fs_cases::c11(&mut c),
        "C12" => fs_cases::c12(&mut c),
        "C13" => fs_cases::c13(&mut c),
        "C16" => fs_cases::c16(&mut c),
        "C17" => fs_cases::c17(&mut c),
        "C19" => fs_cases::c19(&mut c),
        "C15" => cli_cases::c15(&mut c),
        "C18" => cli_cases::c18(&mut c),
        "C21" => cli_cases::c21(&mut c),
        "C23" => show_cases::c23(&mut c),
        "C27" => patch_cases::c27(&mut c),
        "C28" => co_cases::c28(&mut c),
        "C25" => end_cases::c25(&mut c),
        "C26" => end_cases::c26(&mut c),
        "C24" => same_cases::c24(&mut c),
        "C06" => key_cases::c06(&mut c),
        _ => {}
    }
    std::fs::write(&a[4], c.report()).unwrap();
    println!("{}", c.summary());
    std::io::stdout().flush().unwrap();
}
