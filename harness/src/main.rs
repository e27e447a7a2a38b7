//! uch: one property per run. `uch P01 --tier quick --seed 1 [--replay FILE]`.
#![allow(dead_code)]
mod core;
mod gn;
mod codec;
mod real;
mod refcfg;
mod refurl;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod cfg;
mod p06_12;
mod p23_26;
mod defcfg;
mod p13;
mod p14;
mod cli;
mod p17;
mod p15;
mod http;
mod p16;
mod p27;
mod p28;
mod p29;
mod p30;
mod p31;
mod p32;
mod p33;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let dir = std::env::var("UCH_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    if args.first().is_some_and(|x| x.ends_with("/p28 tool")) {return p28::tool();}
    if args.get(1).map(|x| x.as_str()) == Some("cache-child") {return p15::child(&args[2], args.len() > 3);}
    let p = match args.get(1).map(|x| x.as_str()) {
        Some("P01") => p01::prop(),
        Some("P02") => p02::prop(),
        Some("P03") => p03::prop(),
        Some("P04") => p04::prop(),
        Some("P05") => p05::prop(),
        Some("P06") => p06_12::p06(),
        Some("P07") => p06_12::p07(),
        Some("P08") => p06_12::p08(),
        Some("P09") => p06_12::p09(),
        Some("P10") => p06_12::p10(),
        Some("P11") => p06_12::p11(),
        Some("P12") => p06_12::p12(),
        Some("P13") => p13::p13(),
        Some("P14") => p14::p14(),
        Some("P15") => p15::prop(),
        Some("P16") => p16::prop(),
        Some("P17") => p17::p17(),
        Some("P23") => p23_26::p23(),
        Some("P24") => p23_26::p24(),
        Some("P25") => p23_26::p25(),
        Some("P26") => p23_26::p26(),
        Some("P27") => p27::prop(),
        Some("P28") => p28::prop(),
        Some("P29") => p29::prop(),
        Some("P30") => p30::prop(),
        Some("P31") => p31::prop(),
        Some("P32") => p32::prop(),
        Some("P33") => p33::prop(),
        Some("P18") => p18::prop(),
        Some("P19") => p19::prop(),
        Some("P20") => p20::prop(),
        Some("P21") => p21::prop(),
        Some("P22") => p22::prop(),
        x => {eprintln!("unknown property {x:?}"); std::process::exit(2)}
    };
    core::install_hook();
    // Read by the Env kind of var. No other thread runs yet.
    unsafe {std::env::set_var("UCH_ENV_SET", "env value"); std::env::set_var("UCH_ENV_EMPTY", ""); std::env::remove_var("UCH_ENV_UNSET"); std::env::set_var("SSL_CERT_FILE", "/dev/null"); std::env::set_var("SSL_CERT_DIR", "/nonexistent"); for v in ["http_proxy", "https_proxy", "all_proxy", "no_proxy"] {std::env::remove_var(v); std::env::remove_var(v.to_uppercase());}}
    let code = match get("--replay") {Some(f) => core::replay(&p, &f), None => core::run_prop(&p, &tier, seed, &dir)};
    std::process::exit(code);
}
