//! Checks that need no generated definitions: fixed types, generated inputs and histories.
#![allow(clippy::all)]
mod args;
mod bulk;
mod io;
mod life;
#[cfg(feature = "tpl")]
mod outs;
mod scalars;
mod strings;
mod values;

use bx::prop::{replay, run, Failure, Prop, Stats};
use bx::tape::mix;
use bxrt::json;

/// a group: name, property, weight, may it run beside others?
pub type Group = (&'static str, Prop, f64, bool);

fn groups(id: &str) -> Vec<Group> {
    match id {
        "C01" => scalars::groups(),
        "C13" => args::groups(),
        "C15" => bulk::collections(),
        "C16" => bulk::punctuated(),
        "C17" => strings::groups(),
        "C18" => bulk::hostile(),
        "C19" => bulk::split(),
        "C22" => io::groups(),
        "C28" => life::groups(),
        "C27" => args::wrapper_groups(),
        "C04" => scalars::failing_groups(),
        "C06" => values::assert_groups(),
        "C14" => values::alias_groups(),
        #[cfg(feature = "tpl")]
        "C29" => outs::groups(),
        "C30" => values::groups(),
        _ => panic!("no groups for {}", id),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let gs = groups(&a[1]);
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(r) = opt("--replay") {
        let (g, words) = r.split_once(':').unwrap();
        let tape: Vec<u32> = words.split_whitespace().map(|w| w.parse().unwrap()).collect();
        let p = gs.iter().find(|x| x.0 == g).expect("group");
        let (m, d) = replay(p.1, &tape);
        println!("{}\n{}", m.clone().unwrap_or_else(|| "held".into()), d);
        std::process::exit(m.is_some() as i32);
    }
    let seed: u64 = opt("--seed").unwrap().parse().unwrap();
    let n: u64 = opt("--n").unwrap().parse().unwrap();
    let threads: u64 = opt("--threads").unwrap().parse().unwrap();
    let only = opt("--group");
    let progress = opt("--progress");
    let raw = opt("--raw").is_some();
    let out_path = opt("--out").unwrap();
    {
        let out_path = out_path.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some((group, tape)) = bx::prop::stuck(60) {
                let out = format!(
                    "{{\"evaluations\":0,\"distinct\":0,\"samples\":[],\"by\":{{}},\"failures\":[{{\"group\":{},\"tape\":{},\"seed\":0,\"n\":0,\"stuck\":true,\"message\":\"no answer within 60 s\"}}]}}\n",
                    json::s(&group),
                    json::list(tape.iter().map(|x| x.to_string()))
                );
                let _ = std::fs::write(&out_path, out);
                std::process::exit(0);
            }
        });
    }
    let mut st = Stats::default();
    let mut fails: Vec<Failure> = vec![];
    for (name, p, w, par) in gs {
        if only.as_deref().map_or(false, |o| o != name) {
            continue;
        }
        if let Some(f) = &progress {
            std::fs::write(f, name).unwrap();
        }
        let t = if par { threads } else { 1 };
        let each = if raw { n } else { ((n as f64 * w) as u64 / t).max(1) };
        let hs: Vec<_> = (0..t)
            .map(|i| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let mut st = Stats::default();
                        let f = run(name, p, each, if raw { seed } else { mix(seed, i) }, &mut st);
                        (st, f)
                    })
                    .unwrap()
            })
            .collect();
        let mut one = None;
        for h in hs {
            let (mut s, f) = h.join().unwrap();
            if st.samples.iter().filter(|x| x.starts_with(&format!("{}:", name))).count() >= 2 {
                s.samples.clear();
            }
            s.samples.truncate(2);
            let mut all = std::mem::take(&mut st.samples);
            all.extend(std::mem::take(&mut s.samples));
            st.merge(s);
            st.samples = all;
            if let Some(f) = f {
                if one.as_ref().map_or(true, |o: &Failure| o.tape.len() > f.tape.len()) {
                    one = Some(f);
                }
            }
        }
        if let Some(f) = one {
            fails.push(f);
        }
        // kept for the count only; the hashes of this group are done
    }
    st.samples.truncate(16);
    let out = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"samples\":{},\"by\":{{{}}},\"failures\":{}}}\n",
        st.evaluations,
        st.nontrivial.len(),
        json::list(st.samples.iter().map(|s| json::s(&s.chars().take(600).collect::<String>()))),
        st.by.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect::<Vec<_>>().join(","),
        json::list(fails.iter().map(|f| format!(
            "{{\"group\":{},\"tape\":{},\"seed\":{},\"n\":{},\"message\":{}}}",
            json::s(&f.group),
            json::list(f.tape.iter().map(|x| x.to_string())),
            f.seed,
            f.n,
            json::s(&f.msg)
        ))),
    );
    std::fs::write(out_path, out).unwrap();
}
