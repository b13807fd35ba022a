mod engine;
mod instr;
mod meta;
mod tags;
mod p_values;
mod p_store;
mod p_codec;
mod img;
mod jpeg;
mod p_jpeg;
mod heif;
mod p_heif;
mod jxl;
mod p_jxl;
mod webp;
mod p_webp;
mod png;
mod xml;
mod p_png;
mod tiff;
mod tiffimg;
mod p_all;
mod p_tiff;
mod p_fuzz;
mod p_large;
mod reshape;
mod p_flow;
mod p_any;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: instr::Counting = instr::Counting;

fn props() -> Vec<engine::Prop> {
    let mut v = vec![];
    v.extend(p_values::props());
    v.extend(p_store::props());
    v.extend(p_codec::props());
    v.extend(p_jpeg::props());
    v.extend(p_png::props());
    v.extend(p_heif::props());
    v.extend(p_jxl::props());
    v.extend(p_webp::props());
    v.extend(p_tiff::props());
    v.extend(p_all::props());
    v.extend(p_fuzz::props());
    v.extend(p_flow::props());
    v.extend(p_any::props());
    v
}

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "run" => engine::run(&props, s(2), s(3) == "thorough", num(4), &PathBuf::from(s(5)), a.get(6).map(|x| x.as_str())),
        "worker" => engine::worker(&props, s(2), s(3) == "thorough", num(4), num(5), &PathBuf::from(s(6)), &PathBuf::from(s(7)), num(8), a.get(9).map(|x| x.as_str())),
        "one" => engine::one(&props, s(2), s(3), &PathBuf::from(s(4)), &PathBuf::from(s(5))),
        "replay" => engine::replay(&props, &PathBuf::from(s(2)), &PathBuf::from(s(3))),
        "list" => { for p in &props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: vh run <id> <tier> <seed> <verif dir> [part] | replay <file> <verif dir> | list"); 2 }
    };
    std::process::exit(code);
}
