//! Runs dld on a case through the fork server in the preloaded shim.
use std::collections::HashMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

#[derive(Clone)]
pub struct Config {
    pub dld: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub verif: PathBuf,
    /// Whether dld runs as a user of its own.
    pub unprivileged: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    Eio,
    Enospc,
    Short,
    KillBefore,
    KillAfter,
    Eintr,
    Torn,
    /// a single byte is read or written
    One,
    /// from that call on: reads and writes of a few bytes, no room, no call succeeds
    Drip,
    Full,
    Dead,
}

pub type Bytes = Arc<Vec<u8>>;

/// One run of dld: files in a fresh directory, arguments, and the environment's answers.
#[derive(Clone)]
pub struct Case {
    pub files: Vec<(String, Bytes)>,
    pub dirs: Vec<String>,
    pub args: Vec<String>,
    pub seed: u64,
    pub fault: (Fault, u32),
    /// a second one, at a later call
    pub fault2: (Fault, u32),
    /// path that is looked at afterwards
    pub out: String,
    /// file that exists there before the run
    pub pre_out: Option<(Bytes, u32)>,
    /// environment variables, and other things around a run (see shim.c)
    pub env: Vec<String>,
}

impl Case {
    pub fn new() -> Case {
        Case { files: vec![], dirs: vec![], args: vec!["-o".into(), "out".into()], seed: 0, fault: (Fault::None, 0), fault2: (Fault::None, 0), out: "out".into(), pre_out: None, env: vec![] }
    }
    pub fn file(&mut self, name: &str, b: impl Into<Vec<u8>>) -> &mut Self {
        self.files.push((name.into(), Arc::new(b.into())));
        self
    }
    /// adds a file and names it on the command line
    pub fn input(&mut self, name: &str, b: impl Into<Vec<u8>>) -> &mut Self {
        self.file(name, b);
        self.args.push(name.into());
        self
    }
    pub fn arg(&mut self, a: &str) -> &mut Self {
        self.args.push(a.into());
        self
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stderr: String,
    pub out: Option<(Vec<u8>, u32)>,
    pub events: Vec<u8>,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn hung(&self) -> bool {
        self.signal == Some(14)
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(14)) => "no termination within the time limit".into(),
            (_, Some(s)) => format!("death by signal {}", s),
            _ => "?".into(),
        }
    }
    pub fn err_tail(&self) -> String {
        let s = self.stderr.replace('\n', " ");
        s.chars().take(300).collect()
    }
}

pub const NOBODY: u32 = 65534;

/// Makes dld the owner of a file.
fn give(cfg: &Config, p: &Path) {
    if cfg.unprivileged {
        let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    }
}

pub struct Worker {
    cfg: Config,
    pub dir: PathBuf,
    pub timeout_ms: u32,
    server: Option<(Child, ChildStdin, ChildStdout)>,
    cached: HashMap<String, Bytes>,
    pub last: Option<Case>,
    pub runs: u64,
    /// Runs that made an output.
    pub links: u64,
}

impl Worker {
    pub fn new(cfg: &Config, n: usize) -> Worker {
        let dir = cfg.scratch.join(format!("w{}", n));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("d")).unwrap();
        give(cfg, &dir);
        give(cfg, &dir.join("d"));
        Worker { cfg: cfg.clone(), dir, timeout_ms: 20_000, server: None, cached: HashMap::new(), last: None, runs: 0, links: 0 }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cfg.dld);
        c.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("LD_PRELOAD", &self.cfg.shim)
            .env("DLDMC_SERVER", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit());
        if self.cfg.unprivileged {
            // whatever a broken linker takes for its output file, it can only reach the scratch directory
            c.uid(NOBODY).gid(NOBODY);
        }
        let mut ch = c.spawn().expect("cannot start dld");
        let i = ch.stdin.take().unwrap();
        let o = ch.stdout.take().unwrap();
        self.server = Some((ch, i, o));
    }
    pub fn case_dir(&self) -> PathBuf {
        self.dir.join("d")
    }

    fn prepare(&mut self, c: &Case) {
        let d = self.case_dir();
        // remove everything that is not a cached input of this case
        let want: HashMap<&str, &Bytes> = c.files.iter().map(|(n, b)| (n.as_str(), b)).collect();
        let cached = std::mem::take(&mut self.cached);
        let mut keep: HashMap<String, Bytes> = HashMap::new();
        for (n, b) in cached {
            if let Some(w) = want.get(n.as_str()) {
                if Arc::ptr_eq(w, &b) && !n.contains('/') {
                    keep.insert(n, b);
                }
            }
        }
        if let Ok(rd) = fs::read_dir(&d) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if keep.contains_key(&n) {
                    continue;
                }
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    let _ = fs::remove_dir_all(&p);
                } else {
                    let _ = fs::remove_file(&p);
                }
            }
        }
        for s in &c.dirs {
            if !s.contains("->") && !s.contains("=>") {
                self.mkdirs(s);
            }
        }
        for (n, b) in &c.files {
            if keep.contains_key(n) {
                continue;
            }
            let p = d.join(n);
            if let Some((dir, _)) = n.rsplit_once('/') {
                self.mkdirs(dir);
            }
            fs::write(&p, &b[..]).unwrap();
            give(&self.cfg, &p);
        }
        for (n, b) in &c.files {
            keep.insert(n.clone(), b.clone());
        }
        self.cached = keep;
        for s in &c.dirs {
            if let Some((dir, _)) = s.split(&['-', '=']).next().unwrap().rsplit_once('/') {
                self.mkdirs(dir);
            }
            make_link(&d, s);
        }
        if let Some((b, m)) = &c.pre_out {
            let p = d.join(&c.out);
            fs::write(&p, &b[..]).unwrap();
            fs::set_permissions(&p, fs::Permissions::from_mode(*m)).unwrap();
            give(&self.cfg, &p);
        }
    }

    fn mkdirs(&self, rel: &str) {
        let mut p = self.case_dir();
        for part in rel.split('/') {
            p.push(part);
            if fs::create_dir(&p).is_ok() {
                give(&self.cfg, &p);
            }
        }
    }

    pub fn run(&mut self, c: &Case) -> Outcome {
        self.last = Some(c.clone());
        self.runs += 1;
        self.prepare(c);
        if self.server.is_none() {
            self.start();
        }
        let mut m: Vec<u8> = vec![];
        m.extend(c.seed.to_le_bytes());
        assert!(c.fault.1 < 65536 && c.fault2.1 < 65536);
        m.extend((c.fault.0 as u32 | (c.fault2.0 as u32) << 8).to_le_bytes());
        m.extend((c.fault.1 | c.fault2.1 << 16).to_le_bytes());
        m.extend(self.timeout_ms.to_le_bytes());
        m.extend((c.args.len() as u32 + 1).to_le_bytes());
        m.extend((c.env.len() as u32).to_le_bytes());
        let outp = self.dir.join("stdout");
        let errp = self.dir.join("stderr");
        for p in [&self.case_dir(), &outp, &errp] {
            m.extend(p.to_str().unwrap().as_bytes());
            m.push(0);
        }
        m.extend(b"dld\0");
        let here = self.case_dir();
        for a in c.args.iter().chain(&c.env) {
            assert!(!a.contains('\0'));
            // names in the worker's own directory, spelled absolutely
            if let Some(r) = a.strip_prefix("@ABS/") {
                m.extend(here.join(r).to_str().unwrap().as_bytes());
            } else {
                m.extend(a.as_bytes());
            }
            m.push(0);
        }
        let (_, i, o) = self.server.as_mut().unwrap();
        let mut msg = (m.len() as u32).to_le_bytes().to_vec();
        msg.extend(m);
        i.write_all(&msg).expect("fork server is gone");
        let mut rep = [0u8; 8];
        o.read_exact(&mut rep).expect("fork server is gone");
        let st = u32::from_le_bytes(rep[..4].try_into().unwrap());
        let nev = u32::from_le_bytes(rep[4..].try_into().unwrap());
        let mut events = vec![0u8; nev.min(65536) as usize];
        o.read_exact(&mut events).expect("fork server is gone");
        let (code, signal) = if st & 0x7f == 0 { (Some((st >> 8 & 0xff) as i32), None) } else { (None, Some((st & 0x7f) as i32)) };
        if code == Some(121) || code == Some(122) {
            panic!("fork server child failed: {:?}", code);
        }
        let stderr = String::from_utf8_lossy(&fs::read(&errp).unwrap_or_default()).into_owned();
        let p = self.case_dir().join(&c.out);
        let out = match fs::symlink_metadata(&p) {
            Ok(md) if md.is_file() => Some((fs::read(&p).unwrap_or_default(), md.permissions().mode() & 0o7777)),
            _ => None,
        };
        self.links += u64::from(code == Some(0) && out.is_some());
        Outcome { code, signal, stderr, out, events }
    }
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&fs::read(self.dir.join("stdout")).unwrap_or_default()).into_owned()
    }
    /// Inputs of the last case that no longer have their contents.
    pub fn damaged_inputs(&self, c: &Case) -> Vec<String> {
        c.files.iter().filter(|(n, b)| *n != c.out && fs::read(self.case_dir().join(n)).map(|d| d != ***b).unwrap_or(true)).map(|f| f.0.clone()).collect()
    }
    pub fn forget_cache(&mut self) {
        self.cached.clear();
    }
}

/// "name->target" makes a symbolic link, "name=>target" a hard link.
fn make_link(d: &Path, s: &str) {
    if let Some((n, t)) = s.split_once("->") {
        std::os::unix::fs::symlink(t, d.join(n)).unwrap();
    } else if let Some((n, t)) = s.split_once("=>") {
        fs::hard_link(d.join(t), d.join(n)).unwrap();
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.server.take() {
            drop(i);
            let _ = c.wait();
        }
        let _ = fs::remove_dir_all(&self.dir);
    }
}

pub fn write_replay(cfg: &Config, dir: &Path, c: &Case, text: &str) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir.join("inputs")).unwrap();
    for d in c.dirs.iter().filter(|d| !d.contains("->") && !d.contains("=>")) {
        let _ = fs::create_dir_all(dir.join("inputs").join(d));
    }
    for (n, b) in &c.files {
        let p = dir.join("inputs").join(n);
        let _ = fs::create_dir_all(p.parent().unwrap());
        let _ = fs::write(p, &b[..]);
    }
    if let Some((b, m)) = &c.pre_out {
        let p = dir.join("inputs").join(&c.out);
        let _ = fs::write(&p, &b[..]);
        let _ = fs::set_permissions(&p, fs::Permissions::from_mode(*m));
    }
    let q = |s: &str| format!("'{}'", s.replace('\'', "'\\''"));
    let args: Vec<String> = c.args.iter().map(|a| a.strip_prefix("@ABS/").map(|r| format!("\"$PWD\"/{}", q(r))).unwrap_or_else(|| q(a))).collect();
    let sh = format!(
        "#!/bin/bash\n# {}\ncd \"$(dirname \"$0\")/inputs\" || exit 2\n{}DLDMC_SEED={} {}LD_PRELOAD={} {} {}\n",
        text.replace('\n', "\n# "),
        c.env.iter().map(|e| if e.starts_with('@') { format!("# with {}\n", e) } else { format!("export {}\n", q(e)) }).collect::<String>(),
        c.seed,
        if c.fault.0 == Fault::None { String::new() } else { format!("DLDMC_FAULT={}:{}:{}:{} ", c.fault.0 as u32, c.fault.1, c.fault2.0 as u32, c.fault2.1) },
        q(&cfg.verif.join("target/shim.so").to_string_lossy()),
        q(&cfg.verif.join("target/dld/debug/dld").to_string_lossy()),
        args.join(" ")
    );
    let p = dir.join("replay.sh");
    let _ = fs::write(&p, sh);
    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o755));
    let _ = fs::write(dir.join("violation.txt"), format!("{}\n", text));
}
