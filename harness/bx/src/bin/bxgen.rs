//! bxgen <profile> <seed> <programs> <styles> <shards> <dir> [tapes]
//! Writes the generated programs as Rust source, in one crate per shard.
//! With a file of tapes (one per line, words separated by spaces), those are used.
use bx::{emit, gen, tape::{mix, Tape}};
use std::fmt::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, n, styles, shards, dir) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<usize>().unwrap(), &a[6]);
    let prof = gen::Prof::get(id);
    let mut h = seed;
    for b in id.bytes() {
        h = mix(h, b as u64);
    }
    let tapes: Vec<(Vec<u32>, u64)> = match a.get(7) {
        Some(f) => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .map(|l| {
                let (style, words) = l.split_once(':').unwrap();
                (words.split_whitespace().map(|w| w.parse().unwrap()).collect(), style.parse().unwrap())
            })
            .collect(),
        None => (0..n)
            .flat_map(|i| {
                let mut t = Tape::random(mix(h, i));
                let _ = gen::generate(&prof, &mut t);
                let t = t.used().to_vec();
                // of several spellings, the first is the plainest
                (0..styles).map(move |s| (t.clone(), if styles > 1 && s == 0 { 0 } else { mix(h ^ 0x51, i * 16 + s) }))
            })
            .collect(),
    };
    let mut mains = vec![(String::new(), String::new()); shards];
    let mut list = String::new();
    for (i, (t, style)) in tapes.iter().enumerate() {
        let p = gen::generate(&prof, &mut Tape::replay(t));
        // style 0: the plainest spelling
        let mut st = if *style == 0 { Tape::replay(&[]) } else { Tape::random(*style) };
        let src = emit::emit(&p, &mut st);
        let k = i % shards;
        let d = format!("{}/s{}", dir, k);
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(format!("{}/p{}.rs", d, i), src).unwrap();
        let words: Vec<String> = t.iter().map(|w| w.to_string()).collect();
        let _ = write!(mains[k].0, "mod p{};\n", i);
        let _ = write!(mains[k].1, "    bxrt::Entry {{ id: {}, tape: &[{}], run: p{}::run }},\n", i, words.join(","), i);
        let _ = write!(list, "{} {}:{}\n", i, style, words.join(" "));
    }
    for (k, (mods, ents)) in mains.iter().enumerate() {
        if mods.is_empty() {
            continue;
        }
        let s = format!("#![allow(warnings, overflowing_literals, unused, arithmetic_overflow)]\n{}\nstatic ENTRIES: &[bxrt::Entry] = &[\n{}];\n\nfn main() {{ bxrt::main(ENTRIES) }}\n", mods, ents);
        std::fs::write(format!("{}/s{}/main.rs", dir, k), s).unwrap();
    }
    std::fs::write(format!("{}/tapes.txt", dir), list).unwrap();
}
