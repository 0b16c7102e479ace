//! Campaign runner: shards the cases of a property over worker processes, shrinks
//! failures, writes replay files and evidence.

use crate::choices::{mix, shrink, Src};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Read,
    Ret,
    Count,
    Capacity,
    Evict,
    Event,
    Cause,
    Order,
    Callback,
    Iter,
    Leak,
    Uaf,
    Panic,
    Stuck,
    Deadlock,
    Crash,
    Init,
    Lin,
    Policy,
    Config,
    Reclaim,
    Differ,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: Kind,
    pub msg: String,
}

pub fn fail<T>(kind: Kind, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind, msg: msg.into() })
}

#[derive(Default)]
pub struct CaseOut {
    pub fail: Option<Fail>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub trace: Vec<String>,
}

pub struct Part {
    pub name: &'static str,
    pub run: fn(&mut Src, &mut CaseOut, bool),
    pub quick: u64,
    pub thorough: u64,
    /// evaluate shrink candidates in a fresh process each
    pub fresh: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub kinds: Vec<Kind>,
    pub rule: String,
    pub parts: Vec<Part>,
}

const EXIT_STUCK: i32 = 81;
const EXIT_DEADLOCK: i32 = 82;
const EXIT_INCONCLUSIVE: i32 = 83;

static DIE_FILE: Mutex<Option<PathBuf>> = Mutex::new(None);

fn die(code: i32, msg: &str) -> ! {
    crate::interpose::virt_disable();
    if let Ok(g) = DIE_FILE.try_lock() {
        if let Some(p) = g.as_ref() {
            let _ = std::fs::write(p, msg);
        }
    }
    unsafe {
        crate::interpose::raw_syscall(231, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn die_stuck(msg: &str) -> ! {
    die(EXIT_STUCK, msg)
}
pub fn die_deadlock(msg: &str) -> ! {
    die(EXIT_DEADLOCK, msg)
}
pub fn die_inconclusive(msg: &str) -> ! {
    die(EXIT_INCONCLUSIVE, msg)
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

fn run_case(part: &Part, src: &mut Src, trace: bool) -> CaseOut {
    let mut out = CaseOut::default();
    crate::sched::reset_points();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (part.run)(src, &mut out, trace);
    }));
    crate::interpose::virt_disable();
    if r.is_err() && out.fail.is_none() {
        out.fail = Some(Fail { kind: Kind::Panic, msg: format!("panic escaped: {}", last_panic()) });
    }
    out
}

fn case_seed(seed: u64, part: usize, i: u64) -> u64 {
    mix(seed.wrapping_mul(0x1000_0000_01B3) ^ mix((part as u64) << 48 | i))
}

// ---------------------------------------------------------------- worker

fn read_choices(p: &Path) -> Vec<u32> {
    std::fs::read(p)
        .map(|b| b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect())
        .unwrap_or_default()
}
fn write_choices(p: &Path, v: &[u32]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(p, b).unwrap();
}

struct Shard {
    evals: u64,
    nontrivial: u64,
    sigs: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    foreign: BTreeMap<String, u64>,
    foreign_sample: String,
}

/// worker <prop> <seed> <tier> <shard> <nshards> <dir> <start-part> <start-case>
pub fn worker(props: &[Prop], a: &[String]) -> i32 {
    let prop = props.iter().find(|p| p.id == a[0]).expect("unknown property");
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let (shard, n): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let dir = PathBuf::from(&a[5]);
    let (sp, sc): (usize, u64) = (a[6].parse().unwrap(), a[7].parse().unwrap());
    *DIE_FILE.lock().unwrap() = Some(dir.join(format!("die.{shard}")));
    let posf = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(dir.join(format!("pos.{shard}")))
        .unwrap();
    let mut sh = Shard {
        evals: 0,
        nontrivial: 0,
        sigs: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        foreign: BTreeMap::new(),
        foreign_sample: String::new(),
    };
    let mut code = 0;
    let scale: u64 = std::env::var("MVH_SCALE_PCT").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    // for development: one part only
    let only = std::env::var("MVH_PART").ok();
    'parts: for (pi, part) in prop.parts.iter().enumerate().skip(sp) {
        let total = (if thorough { part.thorough } else { part.quick }) * scale / 100;
        if only.as_ref().is_some_and(|o| o != part.name) {
            continue;
        }
        let mut i = shard;
        if pi == sp {
            while i < sc {
                i += n;
            }
        }
        let mut sampled = 0;
        while i < total {
            use std::os::unix::fs::FileExt;
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(pi as u64).to_le_bytes());
            buf[8..].copy_from_slice(&i.to_le_bytes());
            let _ = posf.write_all_at(&buf, 0);
            let cs = case_seed(seed, pi, i);
            let mut src = Src::random(cs);
            let out = run_case(part, &mut src, false);
            sh.evals += 1;
            for l in &out.labels {
                *sh.labels.entry(format!("{}:{}", part.name, l)).or_insert(0) += 1;
            }
            if out.nontrivial {
                sh.nontrivial += 1;
                let mut h = 0xcbf29ce484222325u64 ^ pi as u64;
                for v in &src.rec {
                    h = mix(h ^ *v as u64);
                }
                sh.sigs.insert(h);
                if shard == 0 && sampled < 2 && out.fail.is_none() && src.rec.len() < 4000 {
                    sampled += 1;
                    let mut s2 = Src::replay(src.rec.clone());
                    let o2 = run_case(part, &mut s2, true);
                    let mut t = o2.trace;
                    t.truncate(60);
                    sh.samples.push(format!("part={} case={} : {}", part.name, i, t.join(" | ")));
                }
            }
            if let Some(f) = out.fail {
                if !prop.kinds.contains(&f.kind) {
                    *sh.foreign.entry(format!("{:?}", f.kind)).or_insert(0) += 1;
                    if sh.foreign_sample.is_empty() {
                        sh.foreign_sample = format!("part={} case={i}: {}", part.name, f.msg);
                    }
                } else {
                    let kind = f.kind;
                    let best = if part.fresh {
                        src.rec.clone()
                    } else {
                        shrink(src.rec.clone(), src.spans.clone(), 4000, |c| {
                            let mut s = Src::replay(c.to_vec());
                            let o = run_case(part, &mut s, false);
                            match o.fail {
                                Some(f2) if f2.kind == kind => Some((s.rec, s.spans)),
                                _ => None,
                            }
                        })
                    };
                    write_choices(&dir.join(format!("fail.{shard}.choices")), &best);
                    std::fs::write(
                        dir.join(format!("fail.{shard}")),
                        format!("{pi}\n{i}\n{:?}\n{}", f.kind, f.msg),
                    )
                    .unwrap();
                    code = 1;
                    break 'parts;
                }
            }
            i += n;
        }
    }
    // write the shard summary
    let mut o = String::new();
    o += &format!("evals {}\nnontrivial {}\n", sh.evals, sh.nontrivial);
    for (k, v) in &sh.labels {
        o += &format!("label {k} {v}\n");
    }
    for (k, v) in &sh.foreign {
        o += &format!("foreign {k} {v}\n");
    }
    if !sh.foreign_sample.is_empty() {
        o += &format!("fsample {}\n", sh.foreign_sample.replace('\n', " "));
    }
    for s in &sh.samples {
        o += &format!("sample {}\n", s.replace('\n', " "));
    }
    append(&dir.join(format!("sum.{shard}")), o.as_bytes());
    let b: Vec<u8> = sh.sigs.iter().flat_map(|x| x.to_le_bytes()).collect();
    append(&dir.join(format!("sigs.{shard}")), &b);
    code
}

fn append(p: &Path, b: &[u8]) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
    f.write_all(b).unwrap();
}

/// eval <prop> <part> <choices-file> [trace] [dumpfile]: exit 0 ok, 10 failed.
pub fn eval(props: &[Prop], a: &[String]) -> i32 {
    let prop = props.iter().find(|p| p.id == a[0]).expect("unknown property");
    let part = &prop.parts[a[1].parse::<usize>().unwrap()];
    let trace = a.get(3).map(|s| s == "trace").unwrap_or(false);
    *DIE_FILE.lock().unwrap() = Some(PathBuf::from(format!("{}.die", a[2])));
    let mut src = if let Some(s) = a[2].strip_prefix("seed:") {
        let mut it = s.splitn(2, ',');
        let cs: u64 = it.next().unwrap().parse().unwrap();
        let p = it.next().unwrap();
        *DIE_FILE.lock().unwrap() = Some(PathBuf::from(format!("{p}.die")));
        let mut s = Src::random(cs);
        s.dump = Some(std::fs::File::create(p).unwrap());
        s
    } else {
        Src::replay(read_choices(Path::new(&a[2])))
    };
    let out = run_case(part, &mut src, trace);
    if trace {
        for l in &out.trace {
            println!("  {l}");
        }
    }
    if let Some(f) = out.fail {
        let res = if let Some(s) = a[2].strip_prefix("seed:") {
            s.splitn(2, ',').nth(1).unwrap().to_string()
        } else {
            a[2].clone()
        };
        if !a[2].starts_with("seed:") {
            write_choices(Path::new(&format!("{res}.rec")), &src.rec);
            let sp: Vec<u32> = src.spans.iter().flat_map(|(x, y)| [*x as u32, *y as u32]).collect();
            write_choices(Path::new(&format!("{res}.spans")), &sp);
        }
        println!("FAIL {:?} {}", f.kind, f.msg);
        return 10;
    }
    println!("OK");
    0
}

/// range <prop> <part> <seed> <from> <to> <stride>: runs a range of cases in one process
/// (for crashes that depend on what earlier cases left behind).
pub fn range(props: &[Prop], a: &[String]) -> i32 {
    let prop = props.iter().find(|p| p.id == a[0]).expect("unknown property");
    let pi: usize = a[1].parse().unwrap();
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    let (seed, mut i, to, stride) = (n(2), n(3), n(4), n(5));
    while i <= to {
        let out = run_case(&prop.parts[pi], &mut Src::random(case_seed(seed, pi, i)), false);
        if let Some(f) = out.fail {
            println!("case {i}: {:?} {}", f.kind, f.msg);
        }
        i += stride;
    }
    println!("OK");
    0
}

fn status_kind(st: &std::process::ExitStatus, stdout: &str) -> Option<(Kind, String)> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        if sig == 9 || sig == 15 {
            return None;
        }
        return Some((Kind::Crash, format!("process died with signal {sig}")));
    }
    match st.code() {
        Some(EXIT_STUCK) => Some((Kind::Stuck, "stuck".into())),
        Some(EXIT_DEADLOCK) => Some((Kind::Deadlock, "deadlock".into())),
        // AddressSanitizer's exit code
        Some(77) => Some((Kind::Uaf, "sanitizer report".into())),
        Some(10) => {
            let l = stdout.lines().find(|l| l.starts_with("FAIL "))?;
            let mut it = l.splitn(3, ' ');
            it.next();
            let k = kind_from(it.next()?)?;
            Some((k, it.next().unwrap_or("").to_string()))
        }
        _ => None,
    }
}

fn kind_from(s: &str) -> Option<Kind> {
    use Kind::*;
    for k in [
        Read, Ret, Count, Capacity, Evict, Event, Cause, Order, Callback, Iter, Leak, Uaf, Panic, Stuck, Deadlock,
        Crash, Init, Lin, Policy, Config, Reclaim, Differ,
    ] {
        if format!("{k:?}") == s {
            return Some(k);
        }
    }
    None
}

fn run_timeout(mut c: Command, secs: u64) -> Option<(std::process::ExitStatus, String)> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let out = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        use std::io::Read;
        let mut out = out;
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = std::time::Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some((st, h.join().unwrap_or_default()));
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}

fn eval_sub(exe: &Path, prop: &str, part: usize, file: &Path, c: &[u32]) -> Option<(Kind, String)> {
    write_choices(file, c);
    let mut cmd = Command::new(exe);
    cmd.args(["eval", prop, &part.to_string(), file.to_str().unwrap()]);
    let (st, out) = run_timeout(cmd, 60)?;
    let (k, mut m) = status_kind(&st, &out)?;
    if let Ok(d) = std::fs::read_to_string(format!("{}.die", file.display())) {
        if k == Kind::Stuck || k == Kind::Deadlock {
            m = d;
        }
    }
    Some((k, m))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn load_known(prop: &str, verif: &Path) -> Vec<(String, String)> {
    // lines: known: property=<id> kind=<Kind> match=<substring> ## description
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                if r.starts_with(&format!("property={prop} ")) {
                    let m = r.split("match=").nth(1).unwrap_or("").split(" ## ").next().unwrap_or("").to_string();
                    let d = r.split(" ## ").nth(1).unwrap_or("").to_string();
                    v.push((m, d));
                }
            }
        }
    }
    v
}

/// check <prop>
pub fn check(props: &[Prop], id: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let verif = PathBuf::from(std::env::var("MVH_VERIF").unwrap_or_else(|_| "/verif".into()));
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mvh.{}.{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let n: u64 = std::env::var("MVH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut code = 0;
    let mut violation: Option<(usize, u64, Kind, String, Vec<u32>)> = None;
    let mut in_range: Option<(u64, u64, u64)> = None;
    let mut inconclusive = 0u64;

    struct W {
        ch: std::process::Child,
        pos: [u8; 16],
        since: std::time::Instant,
    }
    let spawn = |shard: u64, sp: usize, sc: u64| -> W {
        let ch = Command::new(&exe)
            .args([
                "worker",
                id,
                &seed.to_string(),
                tier,
                &shard.to_string(),
                &n.to_string(),
                dir.to_str().unwrap(),
                &sp.to_string(),
                &sc.to_string(),
            ])
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        W { ch, pos: [0xff; 16], since: std::time::Instant::now() }
    };
    let mut ws: Vec<Option<W>> = (0..n).map(|s| Some(spawn(s, 0, 0))).collect();
    let mut err = String::new();
    'wait: loop {
        let mut alive = false;
        for s in 0..n as usize {
            let Some(w) = &mut ws[s] else { continue };
            if let Ok(Some(st)) = w.ch.try_wait() {
                let mut stderr = String::new();
                if let Some(mut e) = w.ch.stderr.take() {
                    use std::io::Read;
                    let _ = e.read_to_string(&mut stderr);
                }
                let pos = std::fs::read(dir.join(format!("pos.{s}"))).unwrap_or_default();
                let (pi, ci) = if pos.len() >= 16 {
                    (
                        u64::from_le_bytes(pos[..8].try_into().unwrap()) as usize,
                        u64::from_le_bytes(pos[8..16].try_into().unwrap()),
                    )
                } else {
                    (0, 0)
                };
                ws[s] = None;
                match st.code() {
                    Some(0) => {}
                    Some(1) => {
                        let f = std::fs::read_to_string(dir.join(format!("fail.{s}"))).unwrap_or_default();
                        let mut it = f.splitn(4, '\n');
                        let pi: usize = it.next().unwrap_or("0").parse().unwrap_or(0);
                        let ci: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
                        let kind = kind_from(it.next().unwrap_or("")).unwrap_or(Kind::Crash);
                        let msg = it.next().unwrap_or("").to_string();
                        let c = read_choices(&dir.join(format!("fail.{s}.choices")));
                        violation = Some((pi, ci, kind, msg, c));
                        break 'wait;
                    }
                    Some(EXIT_INCONCLUSIVE) => {
                        inconclusive += 1;
                        ws[s] = Some(spawn(s as u64, pi, ci + 1));
                        alive = true;
                    }
                    _ => {
                        // crash / stuck / deadlock: reproduce to recover the choices
                        let cf = dir.join(format!("crash.{s}.choices"));
                        let mut cmd = Command::new(&exe);
                        cmd.args([
                            "eval",
                            id,
                            &pi.to_string(),
                            &format!("seed:{},{}", case_seed(seed, pi, ci), cf.display()),
                        ]);
                        let r = run_timeout(cmd, 120).and_then(|(st2, out)| status_kind(&st2, &out));
                        let first = status_kind(&st, "");
                        match (r, first) {
                            (Some((k, mut m)), _) => {
                                if let Ok(d) = std::fs::read_to_string(format!("{}.die", cf.display())) {
                                    if k == Kind::Stuck || k == Kind::Deadlock {
                                        m = d;
                                    }
                                }
                                if prop.kinds.contains(&k) {
                                    violation = Some((pi, ci, k, m, read_choices(&cf)));
                                    break 'wait;
                                }
                                inconclusive += 1;
                                eprintln!("note: part {pi} case {ci}: {k:?} {m} (outside this property)");
                                ws[s] = Some(spawn(s as u64, pi, ci + 1));
                                alive = true;
                            }
                            (None, f) => {
                                // Perhaps it depends on the cases before it: repeat
                                // them in one process.
                                if matches!(f, Some((Kind::Crash, _))) && !stderr.contains("memory allocation of") {
                                    for (back, ahead) in [(100, 0), (1_000, 200), (10_000, 2_000), (100_000, 5_000), (100_000, 5_000)] {
                                        let from = (ci % n).max((ci - ci % n).saturating_sub(back * n) + ci % n);
                                        let to = ci + ahead * n;
                                        let mut cmd = Command::new(&exe);
                                        cmd.arg("range").args([id, &pi.to_string()]);
                                        cmd.args([seed, from, to, n].map(|x| x.to_string()));
                                        let r = run_timeout(cmd, 100).and_then(|(st2, out)| status_kind(&st2, &out));
                                        if let Some((Kind::Crash, m)) = r {
                                            in_range = Some((from, to, n));
                                            violation = Some((pi, ci, Kind::Crash, format!("{m} while it ran a range of cases"), vec![]));
                                            break 'wait;
                                        }
                                    }
                                }
                                err = format!(
                                    "worker {s} ended with {st:?} at part {pi} case {ci} and the case alone does not \
                                     reproduce it ({f:?}) stderr: {}",
                                    stderr.chars().take(2000).collect::<String>()
                                );
                                code = 2;
                                break 'wait;
                            }
                        }
                    }
                }
            } else {
                alive = true;
                let pos = std::fs::read(dir.join(format!("pos.{s}"))).unwrap_or_default();
                if pos.len() >= 16 && pos[..16] != w.pos {
                    w.pos.copy_from_slice(&pos[..16]);
                    w.since = std::time::Instant::now();
                } else if w.since.elapsed().as_secs() > 180 {
                    err = format!("worker {s} hangs (watchdog), pos {:?}", w.pos);
                    code = 2;
                    break 'wait;
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    for w in ws.iter_mut().flatten() {
        let _ = w.ch.kill();
        let _ = w.ch.wait();
    }

    // Merge the summaries.
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut fsample = String::new();
    let mut samples = vec![];
    let mut sigs: HashSet<[u8; 8]> = HashSet::new();
    for s in 0..n {
        for l in std::fs::read_to_string(dir.join(format!("sum.{s}"))).unwrap_or_default().lines() {
            let mut it = l.splitn(2, ' ');
            let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            match k {
                "evals" => evals += v.parse::<u64>().unwrap_or(0),
                "nontrivial" => nontrivial += v.parse::<u64>().unwrap_or(0),
                "label" | "foreign" => {
                    let mut it = v.rsplitn(2, ' ');
                    let c: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
                    let name = it.next().unwrap_or("").to_string();
                    *if k == "label" { &mut labels } else { &mut foreign }.entry(name).or_insert(0) += c;
                }
                "fsample" => fsample = v.to_string(),
                "sample" => samples.push(v.to_string()),
                _ => {}
            }
        }
        for c in std::fs::read(dir.join(format!("sigs.{s}"))).unwrap_or_default().chunks_exact(8) {
            sigs.insert(c.try_into().unwrap());
        }
    }

    let mut nviol = 0;
    if let Some((pi, ci, kind, msg, choices)) = violation {
        let part = &prop.parts[pi];
        let f = dir.join("shrink");
        let fresh = part.fresh || matches!(kind, Kind::Crash | Kind::Stuck | Kind::Deadlock);
        let mut best = choices.clone();
        let mut msg = msg;
        if fresh && in_range.is_none() {
            // reproduce + shrink in fresh processes
            let first = eval_sub(&exe, id, pi, &f, &choices);
            if let Some((k, _)) = &first {
                let k = *k;
                let spans = |f: &Path| -> Vec<(usize, usize)> {
                    read_choices(Path::new(&format!("{}.spans", f.display())))
                        .chunks_exact(2)
                        .map(|c| (c[0] as usize, c[1] as usize))
                        .collect()
                };
                let rec0 = read_choices(Path::new(&format!("{}.rec", f.display())));
                let (c0, sp0) = if rec0.is_empty() {
                    // no spans available for a crash: chunks of 8
                    (choices.clone(), chunks(choices.len()))
                } else {
                    (rec0, spans(&f))
                };
                best = shrink(c0, sp0, 600, |c| {
                    let _ = std::fs::remove_file(format!("{}.rec", f.display()));
                    match eval_sub(&exe, id, pi, &f, c) {
                        Some((k2, _)) if k2 == k => {
                            let rec = read_choices(Path::new(&format!("{}.rec", f.display())));
                            if rec.is_empty() {
                                Some((c.to_vec(), chunks(c.len())))
                            } else {
                                Some((rec, spans(&f)))
                            }
                        }
                        _ => None,
                    }
                });
            }
        }
        // final message and trace from the shrunk case
        write_choices(&f, &best);
        let mut cmd = Command::new(&exe);
        cmd.args(["eval", id, &pi.to_string(), f.to_str().unwrap(), "trace"]);
        let mut trace = String::new();
        if in_range.is_some() {
        } else if let Some((st, out)) = run_timeout(cmd, 60) {
            trace = out.clone();
            if let Some((k, m)) = status_kind(&st, &out) {
                if k == kind {
                    if st.code() == Some(10) {
                        msg = m;
                    }
                }
            }
        }
        let known = load_known(id, &verif);
        let hit = known.iter().find(|(m, _)| !m.is_empty() && (msg.contains(m) || trace.contains(m)));
        if let Some((_, d)) = hit {
            println!("KNOWN-FINDING: property={id} {d}");
        } else {
            nviol = 1;
            let rp = verif.join("replays");
            let _ = std::fs::create_dir_all(&rp);
            let path = rp.join(format!("{id}-{seed}-{pi}-{ci}.json"));
            let body = format!(
                "{{\n \"property\": {},\n \"part\": {},\n \"part_name\": {},\n \"seed\": {},\n \"case\": {},\n \
                 \"kind\": \"{:?}\",\n \"message\": {},\n \"range\": {},\n \"choices\": {:?},\n \"trace\": [\n{}\n ]\n}}\n",
                json_str(id),
                pi,
                json_str(part.name),
                seed,
                ci,
                kind,
                json_str(&msg),
                in_range.map_or("null".to_string(), |r| format!("[{}, {}, {}]", r.0, r.1, r.2)),
                best,
                trace.lines().map(|l| format!("  {}", json_str(l.trim()))).collect::<Vec<_>>().join(",\n")
            );
            std::fs::write(&path, body).unwrap();
            println!("{kind:?}: {msg}");
            for l in trace.lines().take(80) {
                println!("{l}");
            }
            println!("VIOLATION property={id} replay={}", path.display());
            code = 1;
        }
    }
    if code == 2 {
        eprintln!("ERROR: {err}");
    }
    for (k, d) in load_known(id, &verif) {
        let _ = k;
        if nviol == 0 && code == 0 {
            println!("KNOWN-FINDING: property={id} {d}");
        }
    }

    // Evidence.
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let lab = labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let forj = foreign.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let sam = samples.iter().take(8).map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   ");
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {evals},\n  \"nontrivial\": {nontrivial},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \
         \"labels\": {{{lab}}},\n  \"ended_by_other_property\": {{{forj}}},\n  \"other_property_sample\": {},\n  \
         \"inconclusive\": {inconclusive},\n  \"samples\": [\n   {sam}\n  ]\n }},\n \"wall_s\": {:.1},\n \"violations\": {nviol}\n}}\n",
        json_str(id),
        sigs.len(),
        json_str(&prop.rule),
        json_str(&fsample),
        t0.elapsed().as_secs_f64(),
    );
    std::fs::write(ev.join(format!("{id}.json")), body).unwrap();
    println!(
        "{id}: {evals} cases, {} distinct non-trivial, {inconclusive} inconclusive, {:.1}s",
        sigs.len(),
        t0.elapsed().as_secs_f64()
    );
    if !foreign.is_empty() {
        println!("note: cases ended by another property's failure: {foreign:?} e.g. {fsample}");
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn chunks(len: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i + 4 <= len {
        v.push((i, i + 4));
        i += 4;
    }
    v
}

/// replay <file.json>
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let i = s.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
        s[i..].split(|c| c == '\n').next().unwrap().trim_end_matches(',').to_string()
    };
    let id = get("property").trim_matches('"').to_string();
    let part = get("part");
    if s.contains("\"range\": [") {
        let mut a = vec![id, part, get("seed")];
        a.extend(get("range").trim_matches(|c| c == '[' || c == ']').split(", ").map(|x| x.to_string()));
        return range(props, &a);
    }
    let ch: Vec<u32> =
        get("choices").trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect();
    let f = std::env::temp_dir().join(format!("mvh.replay.{}", std::process::id()));
    write_choices(&f, &ch);
    let r = eval(props, &[id, part, f.to_str().unwrap().to_string(), "trace".to_string()]);
    let _ = std::fs::remove_file(&f);
    r
}
