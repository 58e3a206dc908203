mod alloc;
mod clock;
mod dict;
mod engine;
mod noise_ref;
mod p_codec;
mod p_e2e;
mod p_frame;
mod p_misc;
mod p_noise;
mod p_cert;
mod schema;

use engine::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_codec::props());
    v.extend(p_frame::props());
    v.extend(p_noise::props());
    v.extend(p_cert::props());
    v.extend(p_misc::props());
    v.extend(p_e2e::props());
    v
}

fn ctx() -> Ctx {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    Ctx {
        seed,
        thorough,
        verif: std::env::var("PBT_VERIF").unwrap_or_else(|_| "/verif".into()),
        journal: std::env::var("PBT_JOURNAL").ok(),
    }
}

fn write_replay(ctx: &Ctx, id: &str, f: &Found) -> String {
    let dir = format!("{}/replays", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{:016x}.json", dir, id, f.sub, fnv(&f.tape));
    let v = json!({"property": id, "check": f.sub, "tape": f.tape, "message": f.message, "case": f.shown,
        "thorough": ctx.thorough, "how": "./check.sh --replay <this file>"});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn evidence(ctx: &Ctx, p: &Prop, stats: &[SubStats], found: Option<&Found>, wall: f64) {
    let ev: u64 = stats.iter().map(|s| s.evaluations).sum();
    let nt: u64 = stats.iter().map(|s| s.nontrivial).sum();
    let samples: Vec<&String> = stats.iter().flat_map(|s| s.samples.iter()).collect();
    let per: Vec<Value> = stats
        .iter()
        .map(|s| json!({"check": s.name, "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial, "classes": s.labels,
            "discarded": s.discards, "enumerated_completely": s.exhaustive, "wall_s": s.wall}))
        .collect();
    let mut v = json!({
        "property": p.id, "tier": if ctx.thorough {"thorough"} else {"quick"}, "seed": ctx.seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": p.rule, "samples": samples, "checks": per,
            "exhaustive": !stats.is_empty() && stats.iter().all(|s| s.exhaustive)},
        "assumptions": p.assumptions, "wall_s": wall, "violations": if found.is_some() {1} else {0}
    });
    if let Some(f) = found {
        v["violation"] = json!({"check": f.sub, "message": f.message, "case": f.shown});
    }
    let dir = format!("{}/evidence", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn report(ctx: &Ctx, p: &Prop, stats: &[SubStats], f: &Found, wall: f64) -> i32 {
    let path = write_replay(ctx, p.id, f);
    evidence(ctx, p, stats, Some(f), wall);
    println!("check {} failed: {}", f.sub, f.message);
    for s in &f.shown {
        println!("  case: {}", s);
    }
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

/// Runs all sub-checks of one property in this process.
fn child(id: &str) -> i32 {
    install_panic_hook();
    let ctx = ctx();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    noise_ref::selftest();
    let t0 = Instant::now();
    let only = std::env::var("PBT_ONLY").ok();
    let mut stats = vec![];
    for si in 0..p.subs.len() {
        if only.as_ref().map(|o| !p.subs[si].name.contains(o.as_str())).unwrap_or(false) {
            continue;
        }
        let (st, f) = run_sub(&ctx, p, si);
        if std::env::var("PBT_V").is_ok() {
            println!("  {} {} cases {} nontrivial {:.2}s {:?} discards {:?}", st.name, st.evaluations, st.nontrivial, st.wall, st.labels, st.discards);
        }
        stats.push(st);
        if let Some(f) = f {
            return report(&ctx, p, &stats, &f, t0.elapsed().as_secs_f64());
        }
    }
    evidence(&ctx, p, &stats, None, t0.elapsed().as_secs_f64());
    let ev: u64 = stats.iter().map(|s| s.evaluations).sum();
    let nt: u64 = stats.iter().map(|s| s.nontrivial).sum();
    println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", id, ev, nt, t0.elapsed().as_secs_f64());
    0
}

fn status_kind(st: &std::process::ExitStatus) -> Result<i32, String> {
    if let Some(sig) = st.signal() {
        return match sig {
            libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => Err(format!("the process was killed by signal {} (memory error, abort or stack overflow)", sig)),
            _ => Ok(2),
        };
    }
    match st.code() {
        Some(HANG_EXIT) => Err("the operation did not terminate".into()),
        Some(c) => Ok(c),
        None => Ok(2),
    }
}

/// Runs a command with a time limit; None means it had to be killed.
fn limited(mut c: Command, secs: u64) -> Option<std::process::ExitStatus> {
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Parent: runs the child and turns crashes and hangs into violations with a replay.
fn parent(id: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let ctx = ctx();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let work = format!("{}/target/work-{}-{}", ctx.verif, id, std::process::id());
    let _ = std::fs::create_dir_all(&work);
    let t0 = Instant::now();
    let journal = format!("{}/journal", work);
    let st = Command::new(&exe).arg("child").arg(id).env("PBT_JOURNAL", &journal).status();
    let r = match st {
        Err(e) => {
            eprintln!("cannot run: {}", e);
            2
        }
        Ok(st) => match status_kind(&st) {
            Ok(c) => c,
            Err(why) => {
                let mut rc = 2;
                let j = std::fs::read(&journal).unwrap_or_default();
                let mut cands: Vec<(usize, u64)> = j
                    .chunks(24)
                    .filter(|c| c.len() == 24)
                    .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()) as usize, u64::from_le_bytes(c[8..16].try_into().unwrap())))
                    .filter(|c| c.0 > 0)
                    .collect();
                cands.sort();
                cands.reverse();
                for (si, i) in cands {
                    let si = si - 1;
                    let dump = format!("{}/dump", work);
                    let mut c = Command::new(&exe);
                    c.args(["one", id, &si.to_string(), &i.to_string(), &dump]).stderr(std::process::Stdio::null());
                    let bad = match limited(c, 60) {
                        None => true,
                        Some(st) => status_kind(&st).is_err(),
                    };
                    if !bad {
                        continue;
                    }
                    let tape: Vec<u64> = std::fs::read_to_string(&dump).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
                    let name = p.subs[si].name;
                    let tmp = format!("{}/cand.json", work);
                    let tape = shrink_with(tape, Duration::from_secs(30), |t| {
                        std::fs::write(&tmp, json!({"property": id, "check": name, "tape": t, "thorough": ctx.thorough}).to_string()).ok()?;
                        let mut c = Command::new(&exe);
                        c.args(["replay1", &tmp]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                        match limited(c, 10) {
                            None => Some(t.to_vec()),
                            Some(st) if status_kind(&st).is_err() => Some(t.to_vec()),
                            _ => None,
                        }
                    });
                    let f = Found { sub: name, tape, message: why.clone(), shown: vec![] };
                    rc = report(&ctx, p, &[], &f, t0.elapsed().as_secs_f64());
                    break;
                }
                if rc == 2 {
                    eprintln!("the child died ({}) but no single case reproduces it", why);
                }
                rc
            }
        },
    };
    let _ = std::fs::remove_dir_all(&work);
    r
}

fn load(path: &str) -> (String, String, Vec<u64>, bool) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    (
        v["property"].as_str().unwrap_or("").into(),
        v["check"].as_str().unwrap_or("").into(),
        v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
        v["thorough"].as_bool().unwrap_or(false),
    )
}

fn replay1(path: &str) -> i32 {
    install_panic_hook();
    let (id, check, tape, th) = load(path);
    let ps = props();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    match run_given(p, &check, tape, th) {
        None => 2,
        Some((o, shown)) => {
            for s in shown {
                println!("  case: {}", s);
            }
            match o {
                Out::Fail(m) => {
                    println!("check {} failed: {}", check, m);
                    println!("VIOLATION property={} replay={}", id, path);
                    1
                }
                Out::Discard(d) => {
                    println!("discarded: {}", d);
                    0
                }
                Out::Pass => {
                    println!("passes");
                    0
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&a[2]),
        Some("child") => child(&a[2]),
        Some("one") => {
            install_panic_hook();
            let ps = props();
            let p = ps.iter().find(|p| p.id == a[2]).unwrap();
            match run_one(&ctx(), p, a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]) {
                Out::Fail(_) => 1,
                _ => 0,
            }
        }
        Some("replay1") => replay1(&a[2]),
        Some("replay") => {
            let exe = std::env::current_exe().unwrap();
            let mut c = Command::new(exe);
            c.args(["replay1", &a[2]]);
            let (id, ..) = load(&a[2]);
            match limited(c, 120) {
                None => {
                    println!("did not terminate\nVIOLATION property={} replay={}", id, a[2]);
                    1
                }
                Some(st) => match status_kind(&st) {
                    Ok(c) => c,
                    Err(w) => {
                        println!("{}\nVIOLATION property={} replay={}", w, id, a[2]);
                        1
                    }
                },
            }
        }
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("mine") => {
            let (n, s) = dict::mine();
            println!("{}", serde_json::to_string(&json!({"nums": n, "strs": s})).unwrap());
            0
        }
        Some("samples") => {
            p_noise::print_samples(a[2].parse().unwrap(), a.get(3).map_or("", |x| x), a.get(4).map_or(0, |x| x.parse().unwrap()));
            0
        }
        Some("op") => {
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
            p_e2e::print_op(t.split_whitespace().map(|x| x.parse().unwrap()).collect(), a[2].parse().unwrap());
            0
        }
        Some("selftest") => {
            noise_ref::selftest();
            println!("ok");
            0
        }
        _ => {
            eprintln!("usage: pbt run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(rc);
}
