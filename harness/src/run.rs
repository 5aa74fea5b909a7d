//! Search, shrinking, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, ExitCode};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::props;
use crate::src::{hash_str, mix, Src};
use crate::uut;

/// What a case reports about itself.
#[derive(Default)]
pub struct Case {
    /// Write a description of the case to `desc`.
    pub describe: bool,
    pub desc: String,
    pub nontrivial: bool,
    pub hash: u64,
    pub discarded: Option<&'static str>,
    pub labels: Vec<&'static str>,
    /// Property-specific switch, see `Prop::salt`.
    pub tier_thorough: bool,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc.push_str(&f());
            self.desc.push('\n');
        }
    }
    pub fn key(&mut self, s: &str) {
        self.hash = mix(&[self.hash, hash_str(s)]);
    }
    pub fn discard(&mut self, why: &'static str) -> Res {
        self.discarded = Some(why);
        Ok(())
    }
}

/// `Err` is a violation, with an explanation.
pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Case) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Cases over all workers.
    pub quick: u64,
    pub thorough: u64,
    /// A check that runs once in the parent, before the search.
    pub once: Option<fn(&mut Once) -> Res>,
}

/// Context of a run-once check.
pub struct Once {
    pub thorough: bool,
    pub seed: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub known: Vec<String>,
    /// Replays only this input if set.
    pub only: Option<String>,
    /// Set with a violation: the input, for the replay file.
    pub input: Option<String>,
}

const HANG_SECS: u64 = 20;
const SHRINK_SECS: u64 = 15;

pub fn verif_dir() -> String {
    std::env::var("VT_DIR").unwrap_or_else(|_| "/verif".into())
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(&[seed, hash_str(id), index])
}

pub enum Verdict {
    Pass,
    Violation(String),
    /// The harness itself panicked.
    Broken(String),
}

pub fn run_case(p: &Prop, src: &mut Src, case: &mut Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| {
        crate::gen::pool(src);
        (p.case)(src, case)
    })) {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(m)) => Verdict::Violation(m),
        Err(_) => Verdict::Broken(uut::last_panic()),
    }
}

fn opts() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut it = std::env::args().skip(3);
    while let Some(k) = it.next() {
        m.insert(
            k.trim_start_matches("--").to_string(),
            it.next().unwrap_or_default(),
        );
    }
    m
}

pub fn main() -> ExitCode {
    uut::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || {
        eprintln!("usage: vt check ID [--tier T] [--seed N] [--cases N] [--secs N] | vt replay FILE | vt list");
        ExitCode::from(2)
    };
    let Some(cmd) = args.get(1) else {
        return usage();
    };
    match cmd.as_str() {
        "dict" => {
            print!("{}", crate::dict::table());
            ExitCode::SUCCESS
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            ExitCode::SUCCESS
        }
        "check" | "worker" | "trace" | "try" => {
            let Some(p) = args.get(2).and_then(|id| props::find(id)) else {
                return usage();
            };
            let o = opts();
            match cmd.as_str() {
                "check" => check(p, &o),
                "worker" => worker(p, &o),
                "trace" => trace(p, &o),
                _ => try_tape(p, &o["file"]),
            }
        }
        "replay" => match args.get(2) {
            Some(f) => replay(f),
            None => usage(),
        },
        "sub" => props::sub(&args[2..]),
        _ => usage(),
    }
}

fn num(o: &BTreeMap<String, String>, k: &str, d: u64) -> u64 {
    o.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
}

// ---------------------------------------------------------------- worker

/// When the case began, in milliseconds since the worker did, plus 1.
static CASE_AT: AtomicU64 = AtomicU64::new(0);
/// The time the process had computed by then.
static CASE_CPU: AtomicU64 = AtomicU64::new(0);

/// How long the process has been computing, in milliseconds.
fn cpu_ms() -> u64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: 2 is CLOCK_PROCESS_CPUTIME_ID, and `t` is a timespec.
    unsafe { clock_gettime(2, &mut t) };
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

fn case_begins(t0: Instant) {
    CASE_CPU.store(cpu_ms(), Ordering::Relaxed);
    CASE_AT.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
}

/// Ends the process if one case takes far too long: of its own time, because
/// the machine may be busy, or altogether, because it may wait for something.
fn watchdog(t0: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let at = CASE_AT.load(Ordering::Relaxed);
        if at == 0 {
            continue;
        }
        let wall = (t0.elapsed().as_millis() as u64 + 1).saturating_sub(at);
        let cpu = cpu_ms().saturating_sub(CASE_CPU.load(Ordering::Relaxed));
        if cpu > HANG_SECS * 1000 || wall > 6 * HANG_SECS * 1000 {
            std::process::exit(86);
        }
    });
}

fn worker(p: &'static Prop, o: &BTreeMap<String, String>) -> ExitCode {
    let seed = num(o, "seed", 1);
    let shard = num(o, "shard", 0);
    let shards = num(o, "shards", 1);
    let cases = num(o, "cases", 1000);
    let secs = num(o, "secs", 60);
    let dir = &o["dir"];
    let thorough = o.get("tier").map_or(false, |t| t == "thorough");
    let t0 = Instant::now();
    let cur = std::fs::File::create(format!("{dir}/cur.{shard}")).unwrap();
    watchdog(t0);

    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut all_hashes = 0u64;
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut discards: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut next_sample = 1u64;
    let mut violation = None;
    let mut i = shard;
    while i < cases {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let _ = cur.write_all_at(format!("{i:<20}").as_bytes(), 0);
        case_begins(t0);
        let mut src = Src::seeded(case_seed(seed, p.id, i));
        let mut case = Case {
            tier_thorough: thorough,
            describe: false,
            ..Case::default()
        };
        let v = run_case(p, &mut src, &mut case);
        match v {
            Verdict::Pass => {}
            Verdict::Violation(m) => {
                violation = Some((i, src.rec.clone(), m));
                break;
            }
            Verdict::Broken(m) => {
                let _ = std::fs::write(
                    format!("{dir}/broken.{shard}"),
                    format!("case {i}: {m}\ntape: {}", tape_text(&src.rec)),
                );
                return ExitCode::from(70);
            }
        }
        if let Some(d) = case.discarded {
            *discards.entry(d).or_default() += 1;
        } else {
            evals += 1;
            for l in case.labels.iter() {
                *labels.entry(l).or_default() += 1;
            }
            if case.nontrivial {
                if hashes.insert(case.hash) {
                    all_hashes += 1;
                    if all_hashes == next_sample && samples.len() < 4 {
                        next_sample *= 40;
                        let mut again = Case {
                            describe: true,
                            tier_thorough: thorough,
                            ..Case::default()
                        };
                        run_case(p, &mut Src::tape(src.rec.clone()), &mut again);
                        samples.push(again.desc);
                    }
                }
            }
        }
        i += shards;
    }
    CASE_AT.store(0, Ordering::Relaxed);
    if let Some((index, tape, msg)) = violation {
        let deadline = Instant::now() + Duration::from_secs(SHRINK_SECS);
        // The watchdog also guards the shrinking.
        let (tape, msg) = shrink(tape, msg, deadline, &mut |t| {
            CASE_AT.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
            let mut src = Src::tape(t.to_vec());
            let mut case = Case {
                tier_thorough: thorough,
                ..Case::default()
            };
            let v = run_case(p, &mut src, &mut case);
            CASE_AT.store(0, Ordering::Relaxed);
            match v {
                Verdict::Violation(m) => Some((src.rec, m)),
                _ => None,
            }
        });
        let mut f = std::fs::File::create(format!("{dir}/violation.{shard}")).unwrap();
        let mut case = Case {
            describe: true,
            tier_thorough: thorough,
            ..Case::default()
        };
        CASE_AT.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        run_case(p, &mut Src::tape(tape.clone()), &mut case);
        let _ = write!(
            f,
            "tape: {}\nindex: {index}\n{}\n{}",
            tape_text(&tape),
            msg,
            case.desc
        );
        return ExitCode::from(10);
    }
    let mut f = std::fs::File::create(format!("{dir}/stats.{shard}")).unwrap();
    let _ = writeln!(f, "evals {evals}");
    for (k, v) in &labels {
        let _ = writeln!(f, "label {v} {k}");
    }
    for (k, v) in &discards {
        let _ = writeln!(f, "discard {v} {k}");
    }
    let _ = std::fs::write(format!("{dir}/samples.{shard}"), samples.join("\u{0}"));
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{dir}/hashes.{shard}"), bytes);
    ExitCode::SUCCESS
}

fn tape_text(t: &[u64]) -> String {
    t.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")
}

/// Runs one generated case, writing every draw as it is made, for cases that
/// kill the process.
fn trace(p: &'static Prop, o: &BTreeMap<String, String>) -> ExitCode {
    let t0 = Instant::now();
    watchdog(t0);
    case_begins(t0);
    let mut src = match o.get("bytes") {
        Some(f) => Src::bytes(std::fs::read(f).unwrap_or_default()),
        None => Src::seeded(case_seed(num(o, "seed", 1), p.id, num(o, "index", 0))),
    };
    src.trace = std::fs::File::create(&o["file"]).ok();
    let mut case = Case::default();
    match run_case(p, &mut src, &mut case) {
        Verdict::Pass => ExitCode::SUCCESS,
        Verdict::Violation(m) => {
            println!("{m}");
            ExitCode::from(10)
        }
        Verdict::Broken(m) => {
            println!("{m}");
            ExitCode::from(70)
        }
    }
}

/// Runs the tape in `file`: 0 pass, 10 violation, otherwise it died.
fn try_tape(p: &'static Prop, file: &str) -> ExitCode {
    let t0 = Instant::now();
    watchdog(t0);
    case_begins(t0);
    let text = std::fs::read_to_string(file).unwrap_or_default();
    if text.starts_with("property: ") {
        // Numbers of a tape may refer to it.
        crate::dict::set(crate::dict::Dict::read(&text));
    }
    let tape = read_tape(&text);
    let mut case = Case {
        describe: true,
        ..Case::default()
    };
    match run_case(p, &mut Src::tape(tape), &mut case) {
        Verdict::Pass => ExitCode::SUCCESS,
        Verdict::Violation(m) => {
            println!("{m}\n{}", case.desc);
            ExitCode::from(10)
        }
        Verdict::Broken(m) => {
            println!("harness: {m}");
            ExitCode::from(70)
        }
    }
}

fn read_tape(s: &str) -> Vec<u64> {
    let body = s
        .lines()
        .find_map(|l| l.strip_prefix("tape: "))
        .unwrap_or(s);
    body.split_whitespace()
        .filter_map(|t| t.parse().ok())
        .collect()
}

// ---------------------------------------------------------------- shrinking

type TryFn<'a> = dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)> + 'a;

/// Shortens and lowers a failing tape while it keeps failing.
pub fn shrink(
    mut tape: Vec<u64>,
    mut msg: String,
    deadline: Instant,
    attempt: &mut TryFn<'_>,
) -> (Vec<u64>, String) {
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    let out_of_time = || Instant::now() > deadline;
    loop {
        let before = tape.clone();
        // Delete chunks.
        let mut k = (tape.len() / 2).max(1);
        while k >= 1 && !out_of_time() {
            let mut i = tape.len();
            while i > 0 && !out_of_time() {
                let lo = i.saturating_sub(k);
                let mut t = tape.clone();
                t.drain(lo..i.min(t.len()));
                if let Some((rec, m)) = attempt(&t) {
                    let r = if smaller(&rec, &t) { rec } else { t };
                    if smaller(&r, &tape) {
                        tape = r;
                        msg = m;
                        i = i.min(tape.len());
                        continue;
                    }
                }
                i = if k == 1 { i - 1 } else { lo };
            }
            k /= 2;
        }
        // Zero chunks.
        for k in [8, 4, 2, 1] {
            let mut i = 0;
            while i < tape.len() && !out_of_time() {
                let hi = (i + k).min(tape.len());
                if tape[i..hi].iter().any(|&x| x != 0) {
                    let mut t = tape.clone();
                    t[i..hi].iter_mut().for_each(|x| *x = 0);
                    if let Some((rec, m)) = attempt(&t) {
                        let r = if smaller(&rec, &t) { rec } else { t };
                        if smaller(&r, &tape) {
                            tape = r;
                            msg = m;
                        }
                    }
                }
                i += k;
            }
        }
        // Lower single numbers.
        let mut i = 0;
        while i < tape.len() && !out_of_time() {
            let (mut lo, mut hi) = (0, tape[i]);
            while lo < hi && !out_of_time() {
                let mid = lo + (hi - lo) / 2;
                let mut t = tape.clone();
                t[i] = mid;
                match attempt(&t) {
                    Some((rec, m)) => {
                        let r = if smaller(&rec, &t) { rec } else { t };
                        if smaller(&r, &tape) {
                            let keep = r.len() == tape.len();
                            tape = r;
                            msg = m;
                            hi = mid;
                            if !keep {
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    None => lo = mid + 1,
                }
            }
            i += 1;
        }
        if tape == before || out_of_time() {
            return (tape, msg);
        }
    }
}

// ---------------------------------------------------------------- parent

fn known_findings(id: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.contains(&format!("property={id} ")))
        .map(|l| l.to_string())
        .collect()
}

fn spawn(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .spawn()
        .expect("spawn worker")
}

fn finish(mut c: Child) -> i32 {
    match c.wait() {
        Ok(s) => s.code().unwrap_or(-1),
        Err(_) => -1,
    }
}

fn check(p: &'static Prop, o: &BTreeMap<String, String>) -> ExitCode {
    let t0 = Instant::now();
    let env = |k: &str| std::env::var(k).ok();
    let tier = o
        .get("tier")
        .cloned()
        .or_else(|| env("VERIF_TIER"))
        .unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = o
        .get("seed")
        .cloned()
        .or_else(|| env("VERIF_SEED"))
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let cases = num(o, "cases", if thorough { p.thorough } else { 3 * p.quick });
    let secs = num(o, "secs", if thorough { 3000 } else { 120 });
    let shards = num(o, "workers", 8).max(1);

    let known = known_findings(p.id);
    let mut once = Once {
        thorough,
        seed,
        evaluations: 0,
        nontrivial: 0,
        samples: vec![],
        notes: BTreeMap::new(),
        known: vec![],
        only: None,
        input: None,
    };
    let mut violation: Option<(String, String)> = None; // (replay body, message)
    if let Some(f) = p.once {
        match catch_unwind(AssertUnwindSafe(|| f(&mut once))) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                let input = once.input.clone().unwrap_or_default();
                violation = Some((format!("once: {input}\n{m}\n"), m));
            }
            Err(_) => {
                eprintln!("{}: the check itself failed: {}", p.id, uut::last_panic());
                return ExitCode::from(2);
            }
        }
        for k in &once.known {
            if known.iter().any(|l| l.contains(k.as_str())) {
                println!("KNOWN-FINDING: property={} {k}", p.id);
            } else {
                violation = Some((format!("once: {k}\n"), format!("not a listed finding: {k}")));
            }
        }
    }

    let dir = std::env::temp_dir().join(format!("vt.{}.{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let d = dir.display().to_string();
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut discards: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut broken = None;
    if violation.is_none() && cases > 0 {
        let mut kids: Vec<Option<(u64, Child)>> = (0..shards)
            .map(|s| {
                let a: Vec<String> = [
                    "worker", p.id, "--seed", &seed.to_string(), "--shard", &s.to_string(),
                    "--shards", &shards.to_string(), "--cases", &cases.to_string(), "--secs",
                    &secs.to_string(), "--dir", &d, "--tier", &tier,
                ]
                .iter()
                .map(|x| x.to_string())
                .collect();
                Some((s, spawn(&a)))
            })
            .collect();
        let mut bad: Option<(u64, i32)> = None;
        while kids.iter().any(|k| k.is_some()) {
            for k in kids.iter_mut() {
                let Some((s, c)) = k else { continue };
                match c.try_wait() {
                    Ok(None) => {}
                    Ok(Some(st)) => {
                        let code = st.code().unwrap_or(-1);
                        if code != 0 && bad.is_none() {
                            bad = Some((*s, code));
                        }
                        *k = None;
                    }
                    Err(_) => *k = None,
                }
            }
            if bad.is_some() {
                for (_, mut c) in kids.iter_mut().filter_map(|k| k.take()) {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        match bad {
            None => {}
            Some((s, 10)) => {
                let body = std::fs::read_to_string(format!("{d}/violation.{s}")).unwrap_or_default();
                let msg = body.splitn(3, '\n').nth(2).unwrap_or("").to_string();
                violation = Some((body, msg));
            }
            Some((s, 70)) => {
                broken = Some(
                    std::fs::read_to_string(format!("{d}/broken.{s}")).unwrap_or_default(),
                );
            }
            Some((s, code)) => match died(p, seed, s, code, &d) {
                Ok(Some(v)) => violation = Some(v),
                // Too slow among the others, but not alone.
                Ok(None) => once.notes.insert("stopped early by a slow machine".into(), 1).map_or((), |_| ()),
                Err(e) => broken = Some(e),
            },
        }
        for s in 0..shards {
            let st = std::fs::read_to_string(format!("{d}/stats.{s}")).unwrap_or_default();
            for l in st.lines() {
                let mut it = l.splitn(3, ' ');
                match (it.next(), it.next().and_then(|n| n.parse::<u64>().ok()), it.next()) {
                    (Some("evals"), Some(n), _) => evals += n,
                    (Some("label"), Some(n), Some(k)) => *labels.entry(k.into()).or_default() += n,
                    (Some("discard"), Some(n), Some(k)) => {
                        *discards.entry(k.into()).or_default() += n
                    }
                    _ => {}
                }
            }
            if let Ok(x) = std::fs::read_to_string(format!("{d}/samples.{s}")) {
                samples.extend(x.split('\u{0}').filter(|x| !x.is_empty()).map(|x| x.to_string()));
            }
            if let Ok(b) = std::fs::read(format!("{d}/hashes.{s}")) {
                for c in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    if let (Ok(fuzzer), true, true) = (std::env::var("VT_FUZZ"), violation.is_none(), broken.is_none()) {
        let secs = num(o, "fuzz-secs", 900);
        match coverage_guided(p, &fuzzer, &d, secs, seed) {
            Ok(n) => {
                once.notes.insert("executions of the coverage-guided search".into(), n.0);
                once.notes.insert("inputs which reached new code".into(), n.1);
                once.evaluations += n.0;
            }
            Err((tape, msg)) => violation = Some((format!("tape: {}\nindex: 0\n{msg}\n", tape_text(&tape)), msg)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    if let Some(b) = broken {
        eprintln!("{}: the check itself failed:\n{b}", p.id);
        return ExitCode::from(2);
    }

    let wall = t0.elapsed().as_secs_f64();
    samples.sort_by_key(|s| s.len());
    let n = samples.len();
    let mut chosen: Vec<String> = vec![];
    for i in [n / 4, n / 2, (n * 3) / 4] {
        if let Some(s) = samples.get(i) {
            if !chosen.contains(s) {
                chosen.push(s.clone());
            }
        }
    }
    once.samples.truncate(3);
    chosen.extend(once.samples.iter().cloned());
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(
        " \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"discarded\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        json(p.id),
        json(if thorough { "thorough" } else { "quick" }),
        evals + once.evaluations,
        hashes.len() as u64 + once.nontrivial,
        json(p.rule),
        discards.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", "),
        labels.iter().chain(once.notes.iter()).map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", "),
        chosen.iter().map(|s| json(&clip(s, 3000))).collect::<Vec<_>>().join(",\n   "),
        p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        violation.is_some() as u32,
    ));
    let evdir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(format!("{evdir}/{}.json", p.id), ev) {
        eprintln!("cannot write evidence: {e}");
        return ExitCode::from(2);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        evals + once.evaluations,
        hashes.len() as u64 + once.nontrivial,
        wall
    );
    if let Some((body, msg)) = violation {
        let rdir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{}-{:016x}.txt", p.id, hash_str(&body));
        let _ = std::fs::write(&path, format!("property: {}\n{}{body}", p.id, crate::dict::get().text().map_or(String::new(), |t| t + "\n")));
        println!("{}", clip(&msg, 6000));
        println!("VIOLATION property={} replay={path}", p.id);
        return ExitCode::from(1);
    }
    ExitCode::SUCCESS
}

/// libFuzzer with the library instrumented: how many executions, and how many
/// inputs it kept; or a tape which fails, shrunk.
fn coverage_guided(p: &'static Prop, fuzzer: &str, dir: &str, secs: u64, seed: u64) -> Result<(u64, u64), (Vec<u64>, String)> {
    let corpus = format!("{dir}/corpus");
    let _ = std::fs::create_dir_all(&corpus);
    let mut kids: Vec<(String, Child)> = (0..8)
        .filter_map(|k| {
            let tape = format!("{dir}/fuzz.{k}");
            let log = std::fs::File::create(format!("{dir}/fuzzlog.{k}")).ok()?;
            let c = Command::new(fuzzer)
                .current_dir(dir)
                .env("VT_PROP", p.id)
                .env("VT_TAPE", &tape)
                .args([
                    &format!("-max_total_time={secs}"),
                    &format!("-seed={}", seed * 8 + k + 1),
                    "-len_control=20",
                    "-max_len=4000",
                    // Half of them follow the values which are compared, too.
                    &format!("-use_value_profile={}", k % 2),
                    "-timeout=120",
                    "-rss_limit_mb=3000",
                    "-reload=1",
                    "-print_final_stats=1",
                    &format!("-artifact_prefix={dir}/artifact.{k}."),
                    &corpus,
                ])
                .stdout(std::process::Stdio::null())
                .stderr(log)
                .spawn()
                .ok()?;
            Some((tape, c))
        })
        .collect();
    let t0 = Instant::now();
    let mut found = None;
    while !kids.is_empty() && t0.elapsed().as_secs() < secs + 150 && found.is_none() {
        std::thread::sleep(Duration::from_millis(200));
        kids.retain_mut(|(tape, c)| match c.try_wait() {
            Ok(None) => true,
            _ => {
                let text = std::fs::read_to_string(&*tape).unwrap_or_default();
                if text.starts_with("violation\n") {
                    found = Some(read_tape(&text));
                }
                false
            }
        });
    }
    for (_, c) in kids.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let mut units = 0;
    for k in 0..8 {
        let log = std::fs::read(format!("{dir}/fuzzlog.{k}")).unwrap_or_default();
        let log = String::from_utf8_lossy(&log);
        units += log
            .lines()
            .find_map(|l| l.strip_prefix("stat::number_of_executed_units:"))
            .and_then(|n| n.trim().parse::<u64>().ok())
            .unwrap_or(0);
    }
    let kept = std::fs::read_dir(&corpus).map_or(0, |d| d.count() as u64);
    if found.is_none() {
        // Or it was killed by a case, which libFuzzer wrote down.
        for f in std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path().display().to_string()) {
            if f.contains("/artifact.") && f.contains("crash-") {
                let t = format!("{dir}/trace");
                let args: Vec<String> = ["trace", p.id, "--bytes", &f, "--file", &t].iter().map(|s| s.to_string()).collect();
                let code = finish(spawn(&args));
                if !matches!(code, 0 | 10 | 70 | 86) {
                    let text = std::fs::read_to_string(&t).unwrap_or_default();
                    let tape = text.lines().filter_map(|l| l.parse().ok()).collect();
                    return Err((tape, "the case killed the process (abort, stack overflow or out of memory)".into()));
                }
            }
        }
    }
    if let Some(tape) = found {
        let attempt = |t: &[u64]| {
            let mut src = Src::tape(t.to_vec());
            match run_case(p, &mut src, &mut Case::default()) {
                Verdict::Violation(m) => Some((src.rec, m)),
                _ => None,
            }
        };
        if let Some((rec, m)) = attempt(&tape) {
            return Err(shrink(rec, m, Instant::now() + Duration::from_secs(SHRINK_SECS), &mut { attempt }));
        }
    }
    Ok((units, kept))
}

/// A worker was killed by the case it ran: find the tape, confirm and shrink it
/// in child processes.
fn died(p: &'static Prop, seed: u64, shard: u64, code: i32, dir: &str) -> Result<Option<(String, String)>, String> {
    let index = std::fs::read_to_string(format!("{dir}/cur.{shard}"))
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .ok_or_else(|| format!("worker {shard} died with {code} before its first case"))?;
    let f = format!("{dir}/trace");
    let args: Vec<String> = ["trace", p.id, "--seed", &seed.to_string(), "--index", &index.to_string(), "--file", &f]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let again = finish(spawn(&args));
    let dead = |c: i32| c != 0 && c != 10 && c != 70;
    if again == 0 && code == 86 {
        return Ok(None);
    }
    if !dead(again) {
        return Err(format!(
            "worker {shard} died with {code} at case {index}, but the case alone ends with {again}"
        ));
    }
    let tape: Vec<u64> = std::fs::read_to_string(&f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect();
    let what = |c: i32| match c {
        86 => format!("did not finish within {HANG_SECS} s"),
        -1 => "killed the process (abort, stack overflow or out of memory)".to_string(),
        c => format!("ended the process with status {c}"),
    };
    let g = format!("{dir}/tape");
    let mut attempt = |t: &[u64]| {
        std::fs::write(&g, tape_text(t)).ok()?;
        let args: Vec<String> = ["try", p.id, "--file", &g].iter().map(|s| s.to_string()).collect();
        let c = finish(spawn(&args));
        (dead(c) && c == again).then(|| (t.to_vec(), what(c)))
    };
    let secs = if again == 86 { 0 } else { 25 };
    let (tape, msg) = shrink(
        tape,
        what(again),
        Instant::now() + Duration::from_secs(secs),
        &mut attempt,
    );
    let msg = format!("the case {msg}");
    Ok(Some((format!("tape: {}\nindex: {index}\n{msg}\n", tape_text(&tape)), msg)))
}

fn replay(file: &str) -> ExitCode {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return ExitCode::from(2);
        }
    };
    let Some(p) = text
        .lines()
        .find_map(|l| l.strip_prefix("property: "))
        .and_then(props::find)
    else {
        eprintln!("{file}: names no property");
        return ExitCode::from(2);
    };
    if let Some(input) = text.lines().find_map(|l| l.strip_prefix("once: ")) {
        let mut once = Once {
            thorough: false,
            seed: 1,
            evaluations: 0,
            nontrivial: 0,
            samples: vec![],
            notes: BTreeMap::new(),
            known: vec![],
            only: Some(input.to_string()),
            input: None,
        };
        return match p.once.map(|f| f(&mut once)) {
            Some(Err(m)) => {
                println!("{m}\nVIOLATION property={} replay={file}", p.id);
                ExitCode::from(1)
            }
            _ => ExitCode::SUCCESS,
        };
    }
    let args: Vec<String> = ["try", p.id, "--file", file].iter().map(|s| s.to_string()).collect();
    match finish(spawn(&args)) {
        0 => ExitCode::SUCCESS,
        70 => ExitCode::from(2),
        c => {
            if c != 10 {
                println!("the case ended its process with {c}");
            }
            println!("VIOLATION property={} replay={file}", p.id);
            ExitCode::from(1)
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- coverage-guided

/// Runs the case which these bytes stand for, under libFuzzer. A violation ends
/// the process, and its tape is in the file `VT_TAPE`.
pub fn fuzz_one(data: &[u8]) {
    static PROP: std::sync::OnceLock<&'static Prop> = std::sync::OnceLock::new();
    let p = *PROP.get_or_init(|| {
        uut::install_hook();
        props::find(&std::env::var("VT_PROP").expect("VT_PROP")).expect("a property")
    });
    let mut src = Src::bytes(data.to_vec());
    let (m, kind) = match run_case(p, &mut src, &mut Case::default()) {
        Verdict::Pass => return,
        Verdict::Violation(m) => (m, "violation"),
        Verdict::Broken(m) => (m, "broken"),
    };
    if let Ok(f) = std::env::var("VT_TAPE") {
        let _ = std::fs::write(f, format!("{kind}\ntape: {}\n{m}\n", tape_text(&src.rec)));
    }
    std::process::abort();
}
