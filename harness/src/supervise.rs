//! Command line, and the parent process that confirms crashes and hangs of a search.
//!
//!   verif-harness ID                     search (VERIF_SEED, VERIF_TIER)
//!   verif-harness ID --replay FILE       one recorded case
//!   verif-harness ID --case INDEX        one case of the search
//!   verif-harness ID --guided BINARY     coverage-guided search, with the binary of guided/
use crate::engine::*;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const CONFIRM_CPU_S: u64 = 25;
/// A case that shows no progress for this long is taken aside and confirmed on its own under a CPU-time limit, unless the
/// process hardly got to run in the meantime.
const STALL_S: u64 = 45;
const STALL_CPU_S: f64 = 30.0;
/// Without progress for this long, whether it ran or not.
const STALL_MAX_S: u64 = 240;

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let Some(id) = args.first() else {
        eprintln!("usage: verif-harness ID [--replay FILE | --case N]");
        return 2;
    };
    if id == "--list" {
        for p in crate::props::all() {
            println!("{}", p.id);
        }
        return 0;
    }
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let Some(p) = crate::props::all().into_iter().find(|p| p.id == *id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let mut o = Options {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        verif_dir: env("VERIF_DIR").unwrap_or_else(|| "/verif".into()),
        slots: None,
        cases: env("VERIF_CASES").and_then(|s| s.parse().ok()),
        from: env("VERIF_FROM").and_then(|s| s.parse().ok()).unwrap_or(0),
        threads: env("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
    };
    unsafe { setrlimit(RLIMIT_CORE, &[0, 0]) };
    if let Some(f) = opt("--replay") {
        return replay(p, &o, &f);
    }
    if let Some(n) = opt("--case") {
        return one_case(p, &o, n.parse().unwrap_or(0));
    }
    if let Some(f) = opt("--child") {
        o.slots = Some(fs::OpenOptions::new().write(true).open(f).expect("slot file"));
        return search(p, &o);
    }
    if let Some(b) = opt("--guided") {
        return guided(p, &o, &b);
    }
    supervise(p, &o)
}

/// Coverage-guided search: 8 libFuzzer processes that begin from random inputs. A process that finds a violation says so
/// itself; the input of one that dies or stalls is confirmed on its own, as in the random search.
fn guided(p: &Prop, o: &Options, bin: &str) -> i32 {
    let t0 = Instant::now();
    let secs: u64 = std::env::var("VERIF_GUIDED_S").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let dir = std::env::temp_dir().join(format!("verif-guided-{}-{}", p.id, std::process::id()));
    let path = |n: String| dir.join(n).to_string_lossy().into_owned();
    let mut kids = vec![];
    for k in 0..8u64 {
        let corpus = path(format!("c{k}"));
        let art = path(format!("a{k}"));
        for d in [&corpus, &art] {
            fs::create_dir_all(d).expect("scratch directory");
        }
        for i in 0..100 {
            let n = [200, 1000, 3000, 6000][i as usize % 4];
            let _ = fs::write(format!("{corpus}/{i}"), blob(hash64(&[prop_seed(p, o.seed), k, i]), n));
        }
        let kid = Command::new(bin)
            .args([&corpus, "-max_len=6000", "-len_control=0", "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1"])
            .arg(format!("-max_total_time={secs}"))
            .arg(format!("-seed={}", 1 + (prop_seed(p, o.seed) ^ k) % 1_000_000_000))
            .arg(format!("-artifact_prefix={art}/"))
            .env("VERIF_PROP", p.id)
            .env("VERIF_DIR", &o.verif_dir)
            .stdout(fs::File::create(path(format!("out{k}"))).expect("log"))
            .stderr(fs::File::create(path(format!("err{k}"))).expect("log"))
            .spawn();
        match kid {
            Ok(c) => kids.push((k, c)),
            Err(e) => {
                eprintln!("guided search: {e}");
                return 2;
            }
        }
    }
    let (mut runs, mut edges, mut found, mut odd) = (0u64, 0u64, vec![], 0);
    for (k, mut c) in kids {
        let st = c.wait().expect("wait");
        let out = fs::read_to_string(path(format!("out{k}"))).unwrap_or_default();
        let err = fs::read_to_string(path(format!("err{k}"))).unwrap_or_default();
        let num = |key: &str| err.rsplit(key).next().and_then(|s| s.split_whitespace().next()).and_then(|s| s.parse::<u64>().ok());
        runs += num("stat::number_of_executed_units:").unwrap_or(0);
        edges = edges.max(num("cov: ").unwrap_or(0));
        match st.code() {
            Some(0) => {}
            Some(1) if out.contains("VIOLATION") => found.push(out),
            _ => {
                let mut confirmed = false;
                for f in fs::read_dir(path(format!("a{k}"))).into_iter().flatten().flatten() {
                    let Ok(b) = fs::read(f.path()) else { continue };
                    if f.file_name().to_string_lossy().starts_with("slow-unit") {
                        continue;
                    }
                    let v: Vec<u64> = b.iter().map(|x| *x as u64).collect();
                    let t = Options { thorough: true, verif_dir: o.verif_dir.clone(), slots: None, ..*o };
                    let r = write_replay(&t, p, "bytes", &v, "the process dies or does not finish", None);
                    let exe = std::env::current_exe().expect("exe");
                    let st = Command::new(exe).args([p.id, "--replay", &r]).env("VERIF_CONFIRM", "1").stdout(Stdio::null()).status();
                    if matches!(st.as_ref().map(|s| s.code()), Ok(Some(0 | 2))) {
                        let _ = fs::remove_file(&r);
                    } else {
                        confirmed = true;
                        found.push(format!("VIOLATION property={} replay={r}\n", p.id));
                    }
                }
                odd += !confirmed as u32;
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if let Some(f) = found.first() {
        print!("{f}");
    }
    if odd > 0 {
        eprintln!("guided search: {odd} processes ended early with nothing to confirm");
    }
    println!("{}: coverage-guided: {runs} runs in 8 processes, {edges} edges, {} violations, {:.0}s", p.id, found.len(), t0.elapsed().as_secs_f64());
    let e = format!("{}/evidence/{}.json", o.verif_dir, p.id);
    if let Ok(s) = fs::read_to_string(&e) {
        let extra = format!(",\"coverage_guided\":{{\"runs\":{runs},\"processes\":8,\"edges\":{edges},\"violations\":{}}}}},\"assumptions\"", found.len());
        let mut s = s.replacen("},\"assumptions\"", &extra, 1);
        if !found.is_empty() {
            if let Some(i) = s.rfind("\"violations\":") {
                s.replace_range(i.., &format!("\"violations\":{}}}\n", found.len()));
            }
        }
        let _ = fs::write(&e, s);
    }
    (!found.is_empty()) as i32
}

fn limit_cpu() {
    if std::env::var("VERIF_CONFIRM").is_ok() {
        unsafe { setrlimit(RLIMIT_CPU, &[CONFIRM_CPU_S, CONFIRM_CPU_S + 1]) };
    }
}

fn one_case(p: &Prop, o: &Options, i: u64) -> i32 {
    limit_cpu();
    let mut g = G::random(prop_seed(p, o.seed), i, o.thorough);
    g.want_desc = true;
    if std::env::var("VERIF_CONFIRM").is_ok() {
        eprintln!("confirming case {i}");
    }
    let r = run_case(|| (p.run)(&mut g));
    finish(p, r, g.desc)
}

fn finish(p: &Prop, r: R, desc: Option<String>) -> i32 {
    if let Some(d) = desc {
        println!("case: {d}");
    }
    match r {
        Ok(()) => {
            println!("{}: holds on this case", p.id);
            0
        }
        Err(Fail(m)) => {
            println!("{}: violated: {m}", p.id);
            1
        }
    }
}

fn replay(p: &Prop, o: &Options, f: &str) -> i32 {
    limit_cpu();
    let text = fs::read_to_string(f).unwrap_or_default();
    let Some((kind, choices)) = parse_choices(&text) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    let thorough = o.thorough || text.contains("\"tier\":\"thorough\"");
    if let Some(name) = kind.strip_prefix("pinned:") {
        let Some((_, f)) = p.pinned.iter().find(|(n, _)| *n == name) else { return 2 };
        return finish(p, run_case(f), None);
    }
    if let Some(i) = kind.strip_prefix("case:") {
        let mut o2 = Options { seed: choices[0], slots: None, verif_dir: o.verif_dir.clone(), ..*o };
        o2.thorough = choices.get(1) == Some(&1);
        return one_case(p, &o2, i.parse().unwrap());
    }
    let mut g = match &kind[..] {
        "bytes" => {
            let mut g = G::from_bytes(choices.iter().map(|c| *c as u8).collect());
            g.thorough = true;
            g
        }
        _ => G::replay(choices, thorough),
    };
    g.want_desc = true;
    let r = run_case(|| (p.run)(&mut g));
    finish(p, r, g.desc)
}

fn read_slots(path: &str) -> Vec<u64> {
    fs::read(path).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// CPU time a child has used, in seconds.
fn cpu(pid: u32) -> f64 {
    let stat = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) as f64 / 100.0
}

fn supervise(p: &Prop, o: &Options) -> i32 {
    match attempt(p, o, false) {
        Some(c) => c,
        // an end no single case explains (a loaded machine, a process ended from outside): again, with patience
        None => attempt(p, o, true).unwrap_or(2),
    }
}

fn attempt(p: &Prop, o: &Options, patient: bool) -> Option<i32> {
    let t0 = Instant::now();
    let slots = format!("{}/target/slots-{}-{}", o.verif_dir, p.id, std::process::id());
    let _ = fs::create_dir_all(format!("{}/target", o.verif_dir));
    fs::write(&slots, vec![0u8; o.threads as usize * 8]).expect("slot file");
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(&exe).args([p.id, "--child", &slots]).spawn().expect("child");
    let mut last = read_slots(&slots);
    let mut since = vec![(Instant::now(), 0.0); last.len()];
    let mut stalled = false;
    let status: ExitStatus = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(50));
        let now = read_slots(&slots);
        let used = cpu(child.id());
        for i in 0..now.len().min(last.len()) {
            if now[i] != last[i] || now[i] == 0 {
                since[i] = (Instant::now(), used);
            }
        }
        last = now;
        let over = |s: &(Instant, f64), t: u64| s.0.elapsed() > Duration::from_secs(t);
        let stuck = since
            .iter()
            .any(|s| over(s, STALL_MAX_S) || !patient && over(s, STALL_S) && used - s.1 > STALL_CPU_S);
        if stuck {
            stalled = true;
            let _ = child.kill();
            break child.wait().expect("wait");
        }
    };
    let current = read_slots(&slots);
    let _ = fs::remove_file(&slots);
    if !stalled {
        if let Some(c @ (0 | 1)) = status.code() {
            return Some(c);
        }
        if status.code().is_some() {
            return status.code();
        }
    }
    // Crash or stall: look for the case that does it on its own.
    eprintln!("search ended abnormally ({status}{}); confirming", if stalled { ", stalled" } else { "" });
    let mut cand: Vec<u64> = current.iter().enumerate().filter(|(_, v)| **v != 0).map(|(_, v)| v - 1).collect();
    cand.sort();
    cand.dedup();
    let evals = cand.iter().max().copied().unwrap_or(0);
    let mut kids: Vec<_> = cand
        .iter()
        .map(|i| {
            let k = Command::new(&exe)
                .args([p.id, "--case", &i.to_string()])
                .env("VERIF_CONFIRM", "1")
                .stdout(Stdio::null())
                .spawn()
                .expect("child");
            (*i, k)
        })
        .collect();
    for (i, k) in kids.iter_mut() {
        let st = k.wait().expect("wait");
        let what = match (st.code(), st.signal()) {
            (Some(0) | Some(2), _) => continue,
            (Some(1), _) => "the case fails".to_string(),
            (_, Some(24 | 9)) => format!("the case does not finish within {CONFIRM_CPU_S} s of CPU time"),
            (_, Some(6)) => "the process aborts (memory request out of proportion, or stack overflow)".to_string(),
            (_, s) => format!("the process dies of signal {s:?}"),
        };
        let path = write_replay(o, p, &format!("case:{i}"), &[o.seed, o.thorough as u64], &what, None);
        println!("case {i}: {what}");
        println!("VIOLATION property={} replay={path}", p.id);
        write_crash_evidence(p, o, evals, t0.elapsed().as_secs_f64());
        for (_, k) in kids.iter_mut() {
            let _ = k.kill();
        }
        return Some(1);
    }
    eprintln!("no single case reproduces the abnormal end");
    None
}
