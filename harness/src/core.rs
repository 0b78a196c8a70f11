//! Exploration driver: case enumeration, sharding over worker processes, crash/hang
//! supervision, evidence and replay artefacts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const DESC_MAX: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn quick(self) -> bool {
        self == Tier::Quick
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub idx: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    pub dir: PathBuf,
    shard: u64,
    claims: *mut u8,
    nsh: u64,
    idx: u64,
    only: Option<u64>,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    pub notes: BTreeMap<String, u64>,
    status: Option<StatusMap>,
    start: Instant,
    pub budget: Duration,
    pub capped: bool,
    res: Option<std::fs::File>,
}

pub struct Case<'a> {
    pub dir: &'a Path,
    states: &'a mut HashSet<u64>,
    outcomes: &'a mut HashSet<u64>,
    transitions: &'a mut u64,
    pub tier: Tier,
    pub verbose: bool,
}
impl<'a> Case<'a> {
    /// An abstract (model) state visited by this execution.
    pub fn state<H: Hash>(&mut self, h: H) {
        self.states.insert(hash_of(&h));
    }
    /// `n` operations of the real code were executed and compared.
    pub fn steps(&mut self, n: u64) {
        *self.transitions += n;
    }
    /// A distinct observed outcome.
    pub fn outcome<H: Hash>(&mut self, h: H) {
        self.outcomes.insert(hash_of(&h));
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

/// Deterministic 64-bit hash (FNV-1a), independent of process randomness.
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut f = Fnv(0xcbf29ce484222325);
    h.hash(&mut f);
    f.finish()
}

const CLAIMS: u64 = 1 << 24;
fn map_file(path: &Path, len: usize) -> *mut u8 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
struct StatusMap {
    p: *mut u8,
}
// layout: [0..8] case idx+1 (0 = idle), [8..16] start ms since epoch, [16..20] desc len, [20..] desc
impl StatusMap {
    fn open(path: &Path) -> StatusMap {
        StatusMap { p: map_file(path, DESC_MAX + 64) }
    }
    fn put(&self, idx1: u64, desc: &str) {
        let d = desc.as_bytes();
        let n = d.len().min(DESC_MAX);
        unsafe {
            std::ptr::write_volatile(self.p as *mut u64, 0);
            std::ptr::write_volatile(self.p.add(8) as *mut u64, now_ms());
            std::ptr::write_volatile(self.p.add(16) as *mut u32, n as u32);
            std::ptr::copy_nonoverlapping(d.as_ptr(), self.p.add(20), n);
            std::ptr::write_volatile(self.p as *mut u64, idx1);
        }
    }
    fn get(&self) -> (u64, u64, String) {
        unsafe {
            let i = std::ptr::read_volatile(self.p as *const u64);
            let t = std::ptr::read_volatile(self.p.add(8) as *const u64);
            let n = (std::ptr::read_volatile(self.p.add(16) as *const u32) as usize).min(DESC_MAX);
            let s = std::slice::from_raw_parts(self.p.add(20), n).to_vec();
            (i, t, String::from_utf8_lossy(&s).into_owned())
        }
    }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}
/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    /// Workers walk the same sequence of cases; each case goes to the first that reaches it.
    fn claim(&self, idx: u64) -> bool {
        if idx < CLAIMS {
            let a = unsafe { &*(self.claims.add(idx as usize) as *const std::sync::atomic::AtomicU8) };
            a.swap(1, std::sync::atomic::Ordering::Relaxed) == 0
        } else {
            idx % self.nsh == self.shard
        }
    }
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Case) -> Result<(), String>) {
        let idx = self.idx;
        self.idx += 1;
        match self.only {
            Some(o) => {
                if o != idx {
                    return;
                }
            }
            None => {
                if !self.claim(idx) {
                    return;
                }
            }
        }
        if self.capped || self.viols.len() >= 200 {
            return;
        }
        if self.start.elapsed() > self.budget {
            self.capped = true;
            return;
        }
        let d = desc();
        if let Some(s) = &self.status {
            s.put(idx + 1, &d);
        }
        let mut c = Case {
            dir: &self.dir,
            states: &mut self.states,
            outcomes: &mut self.outcomes,
            transitions: &mut self.transitions,
            tier: self.tier,
            verbose: self.only.is_some(),
        };
        let r = match guard(|| f(&mut c)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        };
        crate::io::reset();
        self.traces += 1;
        if let Err(m) = r {
            let mut m = m;
            if m.len() > 2000 {
                let mut k = 2000;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
            }
            let v = Viol { idx, desc: d.clone(), msg: m };
            if let Some(f) = &mut self.res {
                let _ = writeln!(f, "V\t{}\t{}\t{}", v.idx, esc(&v.desc), esc(&v.msg));
            }
            if self.only.is_some() {
                println!("case {} [{}]\n  -> {}", v.idx, v.desc, v.msg);
            }
            self.viols.push(v);
        } else if self.only.is_some() {
            println!("case {} [{}]\n  -> held", idx, d);
        }
        if self.samples.len() < 3 || (self.samples.len() < 6 && idx % 997 == 0) {
            self.samples.push(d);
        }
        if let Some(s) = &self.status {
            s.put(0, "");
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\0"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some('0') => o.push('\0'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Engine {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    /// seconds before one case counts as hung
    pub hang_s: u64,
    /// address-space limit per worker in MiB
    pub mem_mb: u64,
    /// number of workers
    pub workers: u64,
    pub what: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of whole-run reports allowed: exhaustive unless capped
    pub budget_s: (u64, u64),
}

pub fn worker(e: &Engine, tier: Tier, shard: u64, nsh: u64, base: &Path, only: Option<u64>) {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: e.mem_mb << 20, rlim_max: e.mem_mb << 20 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let dir = base.join(format!("w{shard}"));
    std::fs::create_dir_all(&dir).unwrap();
    let mut cx = Ctx {
        tier,
        dir,
        shard,
        claims: if only.is_none() { map_file(&base.join("claims"), CLAIMS as usize) } else { std::ptr::null_mut() },
        nsh,
        idx: 0,
        only,
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        outcomes: HashSet::new(),
        samples: vec![],
        viols: vec![],
        notes: BTreeMap::new(),
        status: if only.is_none() { Some(StatusMap::open(&base.join(format!("status{shard}")))) } else { None },
        start: Instant::now(),
        budget: Duration::from_secs(if tier.quick() { e.budget_s.0 } else { e.budget_s.1 }),
        capped: false,
        res: if only.is_none() { Some(std::fs::File::create(base.join(format!("viol{shard}"))).unwrap()) } else { None },
    };
    (e.run)(&mut cx);
    if only.is_some() {
        std::process::exit(if cx.viols.is_empty() { 0 } else { 1 });
    }
    let mut out = String::new();
    let _ = writeln!(out, "T\t{}\t{}\t{}\t{}", cx.transitions, cx.traces, cx.capped as u8, cx.idx);
    for (k, v) in &cx.notes {
        let _ = writeln!(out, "N\t{}\t{}", esc(k), v);
    }
    for s in &cx.samples {
        let _ = writeln!(out, "S\t{}", esc(s));
    }
    for s in &cx.states {
        let _ = writeln!(out, "H\t{:x}", s);
    }
    for s in &cx.outcomes {
        let _ = writeln!(out, "O\t{:x}", s);
    }
    std::fs::write(base.join(format!("result{shard}.tmp")), out).unwrap();
    std::fs::rename(base.join(format!("result{shard}.tmp")), base.join(format!("result{shard}"))).unwrap();
}

fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d);
        if p.is_dir() {
            let q = p.join(format!("oxmc-{}-{}", std::process::id(), now_ms()));
            if std::fs::create_dir_all(&q).is_ok() {
                return q;
            }
        }
    }
    panic!("no scratch directory");
}

pub struct Known {
    pub case: String,
    pub what: String,
}
/// known_findings.tsv: property <TAB> known|fixed <TAB> exact case description (escaped) <TAB> what fails
pub fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(f) = std::fs::File::open(root.join("known_findings.tsv")) {
        for l in std::io::BufReader::new(f).lines().map_while(Result::ok) {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            let p: Vec<&str> = l.splitn(4, '\t').collect();
            if p.len() == 4 && p[0] == id && p[1] == "known" {
                v.push(Known { case: unesc(p[2]), what: p[3].to_string() });
            }
        }
    }
    v
}

struct Kid {
    child: std::process::Child,
    shard: u64,
    status: StatusMap,
    done: bool,
}

pub fn check(e: &Engine, tier: Tier, root: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let base = scratch_root();
    let exe = std::env::current_exe().unwrap();
    let nsh = e.workers;
    let mut kids: Vec<Kid> = (0..nsh)
        .map(|s| {
            let status = StatusMap::open(&base.join(format!("status{s}")));
            let child = std::process::Command::new(&exe)
                .args(["worker", e.id, tier.name(), &s.to_string(), &nsh.to_string()])
                .arg(&base)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::File::create(base.join(format!("stderr{s}"))).unwrap())
                .spawn()
                .unwrap();
            Kid { child, shard: s, status, done: false }
        })
        .collect();
    let mut viols: Vec<Viol> = vec![];
    let mut engine_error: Option<String> = None;
    loop {
        let mut alive = 0;
        for k in kids.iter_mut() {
            if k.done {
                continue;
            }
            match k.child.try_wait().unwrap() {
                Some(st) => {
                    k.done = true;
                    let ok = base.join(format!("result{}", k.shard)).exists();
                    if !ok || !st.success() {
                        let (i, _, d) = k.status.get();
                        if i > 0 {
                            viols.push(Viol { idx: i - 1, desc: d, msg: format!("the process died while executing this case: {st}") });
                        } else {
                            let err = std::fs::read_to_string(base.join(format!("stderr{}", k.shard))).unwrap_or_default();
                            engine_error = Some(format!("worker {} ended outside a case: {st}: {err}", k.shard));
                        }
                    }
                }
                None => {
                    alive += 1;
                    let (i, t, d) = k.status.get();
                    if i > 0 && now_ms().saturating_sub(t) > e.hang_s * 1000 {
                        let (i2, t2, _) = k.status.get();
                        if i2 == i && t2 == t {
                            let _ = k.child.kill();
                            let _ = k.child.wait();
                            k.done = true;
                            viols.push(Viol { idx: i - 1, desc: d, msg: format!("no progress within {} s", e.hang_s) });
                        }
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (mut trans, mut traces, mut capped, mut total) = (0u64, 0u64, false, 0u64);
    let mut states: HashSet<u64> = HashSet::new();
    let mut outs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    for s in 0..nsh {
        if let Ok(t) = std::fs::read_to_string(base.join(format!("viol{s}"))) {
            for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                if p.len() == 4 && p[0] == "V" {
                    viols.push(Viol { idx: p[1].parse().unwrap_or(0), desc: unesc(p[2]), msg: unesc(p[3]) });
                }
            }
        }
        if let Ok(t) = std::fs::read_to_string(base.join(format!("result{s}"))) {
            for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "T" => {
                        trans += p[1].parse::<u64>().unwrap();
                        traces += p[2].parse::<u64>().unwrap();
                        capped |= p[3] == "1";
                        total = p[4].parse().unwrap();
                    }
                    "N" => *notes.entry(unesc(p[1])).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    "S" => {
                        if samples.len() < 12 {
                            samples.push(unesc(p[1]))
                        }
                    }
                    "H" => {
                        states.insert(u64::from_str_radix(p[1], 16).unwrap());
                    }
                    "O" => {
                        outs.insert(u64::from_str_radix(p[1], 16).unwrap());
                    }
                    _ => {}
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    viols.sort_by_key(|v| v.idx);
    let known = load_known(root, e.id);
    let mut hit = vec![false; known.len()];
    let mut fresh: Vec<Viol> = vec![];
    for v in viols {
        if let Some(k) = known.iter().position(|k| k.case == v.desc) {
            hit[k] = true;
        } else {
            fresh.push(v);
        }
    }
    for (k, h) in known.iter().zip(&hit) {
        if *h {
            println!("KNOWN-FINDING: property={} {}", e.id, k.what);
        }
    }
    // evidence
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_observed_outcomes\":{},\"cases_in_space\":{},\"exhaustive\":{},\"samples\":[",
        json_str(e.id),
        json_str(tier.name()),
        seed,
        states.len(),
        trans,
        traces,
        outs.len(),
        total,
        !capped && engine_error.is_none()
    );
    for (i, s) in samples.iter().enumerate() {
        let s: String = s.chars().take(300).collect();
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, json_str(&s));
    }
    let _ = write!(j, "],\"rule\":{}", json_str(e.what));
    for (k, v) in &notes {
        let _ = write!(j, ",{}:{}", json_str(k), v);
    }
    let _ = write!(j, "}},\"assumptions\":[");
    for (i, s) in e.assumptions.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    let _ = writeln!(j, "],\"wall_s\":{:.2},\"violations\":{}}}", t0.elapsed().as_secs_f64(), fresh.len());
    std::fs::write(evdir.join(format!("{}.json", e.id)), j).unwrap();
    println!(
        "{} {}: cases={} of {} states={} transitions={} outcomes={} capped={} known={} violations={} wall={:.1}s",
        e.id,
        tier.name(),
        traces,
        total,
        states.len(),
        trans,
        outs.len(),
        capped,
        hit.iter().filter(|h| **h).count(),
        fresh.len(),
        t0.elapsed().as_secs_f64()
    );
    if !fresh.is_empty() {
        let rdir = evdir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (n, v) in fresh.iter().enumerate().take(5) {
            let rp = rdir.join(format!("{}-{}.json", e.id, n));
            let _ = std::fs::write(
                &rp,
                format!(
                    "{{\"property\":{},\"case\":{},\"index\":{},\"observed\":{},\"replay\":{}}}\n",
                    json_str(e.id),
                    json_str(&v.desc),
                    v.idx,
                    json_str(&v.msg),
                    json_str(&format!("cd /verif && ./run replay {} {} {}", e.id, tier.name(), v.idx))
                ),
            );
            println!("VIOLATION property={} replay={}", e.id, rp.display());
            let m: String = v.msg.chars().take(600).collect();
            println!("  case [{}]: {}", v.desc.chars().take(400).collect::<String>(), m);
        }
        // digest of the remaining violations, by shape of the message
        let mut kinds: BTreeMap<String, (u64, &Viol)> = BTreeMap::new();
        for v in &fresh {
            let mut k: String = v.msg.split('"').step_by(2).collect::<Vec<_>>().join("\"").chars().filter(|c| !c.is_ascii_digit()).take(140).collect();
            if let Some(i) = k.find('[') {
                k.truncate(i);
            }
            kinds.entry(k).or_insert((0, v)).0 += 1;
        }
        for (n, v) in kinds.values().take(25) {
            println!("  {n} x like [{}]: {}", v.desc.chars().take(160).collect::<String>(), v.msg.chars().take(200).collect::<String>());
        }
        return 1;
    }
    if let Some(m) = engine_error {
        eprintln!("engine error: {m}");
        return 2;
    }
    if traces == 0 {
        eprintln!("engine error: nothing explored");
        return 2;
    }
    0
}
