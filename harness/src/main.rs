#![feature(alloc_error_hook)]
#![allow(clippy::type_complexity)]
#[macro_use]
mod engine;
mod alloc;
mod api;
mod dict;
mod gen;
mod http;
mod mock;
mod net;
mod props;
mod rfc;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    engine::install_panic_hook();
    alloc::install_hook();
    rfc::self_test();
    // the authority the default TLS configuration trusts
    std::env::set_var("SSL_CERT_FILE", engine::verif_dir().join("harness/fixtures/trusted.pem"));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut replay = None;
    let mut only = None;
    let mut tier = std::env::var("VERIF_TIER").ok();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => replay = it.next(),
            "--suite" => only = it.next(),
            "--tier" => tier = it.next(),
            "--list" => {
                for p in props::all() {
                    println!("{} {}", p.id, p.suites.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
                }
                return;
            }
            "--literals" => {
                dict::print();
                return;
            }
            "--child" => {
                let what = it.next().unwrap_or_default();
                props::child(&what);
                return;
            }
            _ => id = Some(a),
        }
    }
    let id = match id {
        Some(i) => i,
        None => {
            println!("usage: check ID [--suite NAME] [--replay FILE]");
            std::process::exit(2);
        }
    };
    let all = props::all();
    let p = match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("ERROR no such property {}", id);
            std::process::exit(2);
        }
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = match tier.as_deref() {
        Some("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    engine::watchdog(tier);
    let code = match replay {
        Some(f) => engine::replay_file(p, &f),
        None => engine::run_prop(p, seed, tier, only.as_deref()),
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
