//! Compiles generated modules with rustc, many to a crate, runs them and says what became of each.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// How a crate is compiled. Modules with equal settings share a crate.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Settings {
    /// feature set of enumset: a name in libs.json
    pub lib: &'static str,
    pub edition: &'static str,
    /// the name under which enumset is linked
    pub extern_name: String,
    /// inner attributes of the crate
    pub attrs: String,
    /// items at the crate root
    pub root: String,
    /// compile the modules as a no_std library
    pub no_std: bool,
    /// compile the modules as a library that a small program calls (always so with no_std)
    pub library: bool,
    /// the dependency is only renamed in the manifest; the derive finds it there
    pub manifest: bool,
    /// modules to a crate
    pub batch: usize,
    /// only compile
    pub check_only: bool,
}
impl Default for Settings {
    fn default() -> Self {
        Settings {
            lib: "base",
            edition: "2021",
            extern_name: "enumset".to_string(),
            attrs: "#![allow(warnings)]".to_string(),
            root: String::new(),
            no_std: false,
            library: false,
            manifest: false,
            batch: 12,
            check_only: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub level: String,
    pub code: String,
    pub message: String,
    pub rendered: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub errors: Vec<Diag>,
    pub warnings: Vec<Diag>,
    /// what its `run` returned, if it compiled and was run
    pub ran: Option<Result<(), String>>,
}
impl Outcome {
    pub fn compiled(&self) -> bool {
        self.errors.is_empty()
    }
    /// the usual expectation
    pub fn ok(&self) -> Result<(), String> {
        if let Some(e) = self.errors.first() {
            return Err(format!("does not compile:\n{}", e.rendered.trim_end()));
        }
        match &self.ran {
            Some(Err(m)) => Err(m.clone()),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Module {
    pub settings: Settings,
    /// the items of a module with `pub fn run() -> Result<(), impl Display>` (unless only checked)
    pub source: String,
}

pub struct Engine {
    libs: BTreeMap<String, Value>,
    work: PathBuf,
    n: AtomicUsize,
    pub crates: AtomicUsize,
}

const LIMIT: Duration = Duration::from_secs(180);

impl Engine {
    pub fn new(property: &str) -> Engine {
        let target = PathBuf::from(std::env::var("VERIF_TARGET").unwrap_or("/verif/target".to_string()));
        let libs = std::fs::read(target.join("prog/libs.json")).expect("libs.json");
        let work = target.join(format!("prog/work-{}-{}", property, std::process::id()));
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).unwrap();
        Engine {
            libs: serde_json::from_slice(&libs).unwrap(),
            work,
            n: AtomicUsize::new(0),
            crates: AtomicUsize::new(0),
        }
    }
    pub fn done(&self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }

    /// The text of a crate and, for each line, the module it belongs to.
    fn text(&self, s: &Settings, mods: &[(usize, &str)]) -> (String, Vec<Option<usize>>) {
        let mut t = String::new();
        writeln!(t, "{}", s.attrs).unwrap();
        if s.no_std {
            writeln!(t, "#![no_std]").unwrap();
        }
        writeln!(t, "{}", s.root).unwrap();
        let mut owner = vec![None; t.lines().count()];
        for (i, m) in mods {
            let before = t.lines().count();
            writeln!(t, "/// module {}\npub mod m{} {{\n{}\n}}", i, i, m).unwrap();
            owner.resize(before, None);
            owner.resize(t.lines().count(), Some(*i));
        }
        if !s.no_std && !s.library && !s.check_only {
            writeln!(t, "{}", main_fn(mods, "crate")).unwrap();
        }
        (t, owner)
    }

    fn rustc(&self, s: &Settings, dir: &Path, file: &str, extra: &[String]) -> (bool, Vec<Value>, String) {
        let lib = &self.libs[s.lib];
        // a derive that wants all memory must not get it
        let mut c = Command::new("sh");
        c.args(["-c", "ulimit -v 3600000; exec rustc \"$@\"", "sh"]);
        c.arg(file).current_dir(dir);
        c.args(["--edition", s.edition, "--error-format=json", "-Copt-level=0", "-Cdebuginfo=0", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Cincremental=", "-Cstrip=symbols"]);
        c.arg(format!("-Ldependency={}", lib["deps"].as_str().unwrap()));
        c.arg("--extern").arg(format!("{}={}", s.extern_name, lib["enumset"].as_str().unwrap()));
        for x in ["serde", "serde_derive", "serde_json"] {
            if let Some(p) = lib.get(x).and_then(|x| x.as_str()) {
                c.arg("--extern").arg(format!("{}={}", x, p));
            }
        }
        c.args(extra);
        if s.manifest {
            std::fs::write(
                dir.join("Cargo.toml"),
                format!(
                    "[package]\nname = \"user\"\nversion = \"0.1.0\"\nedition = \"{}\"\n[dependencies]\n{} = {{ package = \"enumset\", version = \"1\" }}\n[workspace]\n",
                    s.edition, s.extern_name
                ),
            )
            .unwrap();
            let _ = std::fs::create_dir_all(dir.join("src"));
            let _ = std::fs::write(dir.join("src/lib.rs"), "");
            c.env("CARGO_MANIFEST_DIR", dir).env("CARGO_PKG_NAME", "user").env("CARGO_CRATE_NAME", "user");
        } else {
            c.env_remove("CARGO_MANIFEST_DIR");
        }
        let (ok, out, err) = run(c, LIMIT);
        let _ = out;
        let mut v = Vec::new();
        let mut rest = String::new();
        for l in err.lines() {
            match serde_json::from_str::<Value>(l) {
                Ok(x) => v.push(x),
                Err(_) => {
                    rest.push_str(l);
                    rest.push('\n');
                }
            }
        }
        (ok, v, rest)
    }

    /// Compiles and runs modules with equal settings.
    pub fn batch(&self, s: &Settings, mods: &[&str]) -> Vec<Outcome> {
        let mut out: Vec<Outcome> = vec![Outcome::default(); mods.len()];
        let mut left: BTreeSet<usize> = (0..mods.len()).collect();
        let dir = self.work.join(format!("b{}", self.n.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        loop {
            if left.is_empty() {
                break;
            }
            let sel: Vec<(usize, &str)> = left.iter().map(|i| (*i, mods[*i])).collect();
            let (text, owner) = self.text(s, &sel);
            let file = if s.no_std || s.library { "items.rs" } else { "main.rs" };
            std::fs::write(dir.join(file), &text).unwrap();
            let extra: Vec<String> = if s.check_only {
                vec!["--crate-type=lib".into(), "--crate-name=items".into(), "--emit=metadata".into()]
            } else if s.no_std || s.library {
                vec!["--crate-type=rlib".into(), "--crate-name=items".into()]
            } else {
                vec!["--crate-type=bin".into(), "--crate-name=main".into()]
            };
            self.crates.fetch_add(1, Ordering::SeqCst);
            let (ok, diags, rest) = self.rustc(s, &dir, file, &extra);
            let mut blamed = BTreeSet::new();
            let mut warned: Vec<(usize, Diag)> = Vec::new();
            for d in &diags {
                let level = d["level"].as_str().unwrap_or("");
                if level != "error" && level != "warning" && !level.starts_with("error") {
                    continue;
                }
                let mut lines = Vec::new();
                spans(&d["spans"], file, &mut lines);
                for c in d["children"].as_array().into_iter().flatten() {
                    if lines.is_empty() {
                        spans(&c["spans"], file, &mut lines);
                    }
                }
                let who: BTreeSet<usize> =
                    lines.iter().filter_map(|l| owner.get(l - 1).copied().flatten()).collect();
                let diag = Diag {
                    level: level.to_string(),
                    code: d["code"]["code"].as_str().unwrap_or("").to_string(),
                    message: d["message"].as_str().unwrap_or("").to_string(),
                    rendered: d["rendered"].as_str().unwrap_or("").to_string(),
                };
                for i in who {
                    if level.starts_with("error") {
                        out[i].errors.push(diag.clone());
                        blamed.insert(i);
                    } else {
                        warned.push((i, diag.clone()));
                    }
                }
            }
            if ok {
                for (i, w) in warned {
                    out[i].warnings.push(w);
                }
                if !s.check_only {
                    self.execute(s, &dir, &sel, &mut out);
                }
                break;
            }
            if blamed.is_empty() {
                if sel.len() == 1 {
                    let mut r: String = diags
                        .iter()
                        .filter(|d| d["level"].as_str().map_or(false, |x| x.starts_with("error")))
                        .map(|d| d["rendered"].as_str().unwrap_or("").to_string())
                        .collect();
                    r.push_str(&rest);
                    out[sel[0].0].errors.push(Diag {
                        level: "error".into(),
                        code: String::new(),
                        message: "rustc failed".into(),
                        rendered: r,
                    });
                    break;
                }
                // one by one
                for (i, m) in sel {
                    out[i] = self.batch(s, &[m]).pop().unwrap();
                }
                break;
            }
            for i in blamed {
                left.remove(&i);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        out
    }

    fn execute(&self, s: &Settings, dir: &Path, sel: &[(usize, &str)], out: &mut [Outcome]) {
        if s.no_std || s.library {
            let mut t = String::from("#![allow(warnings)]\nextern crate items;\n");
            writeln!(t, "{}", main_fn(sel, "items")).unwrap();
            std::fs::write(dir.join("main.rs"), t).unwrap();
            let (ok, diags, rest) = self.rustc(
                s,
                dir,
                "main.rs",
                &["--crate-type=bin".into(), "--crate-name=main".into(), "--extern".into(), "items=libitems.rlib".into(), "-L.".into()],
            );
            if !ok {
                let m: String = diags.iter().map(|d| d["rendered"].as_str().unwrap_or("").to_string()).collect();
                for (i, _) in sel {
                    out[*i].ran = Some(Err(format!("cannot be linked into a program: {}{}", m, rest)));
                }
                return;
            }
        }
        let mut from = 0;
        while from < sel.len() {
            let mut c = Command::new("sh");
            c.args(["-c", "ulimit -v 6000000; exec ./main \"$1\"", "sh"]);
            c.current_dir(dir).arg(from.to_string());
            let (_, o, e) = run(c, LIMIT);
            let mut at = from;
            for l in o.lines() {
                let mut w = l.splitn(3, ' ');
                match (w.next(), w.next().and_then(|x| x.parse::<usize>().ok()), w.next()) {
                    (Some("@ok"), Some(i), _) => {
                        out[i].ran = Some(Ok(()));
                        at += 1;
                    }
                    (Some("@fail"), Some(i), m) => {
                        out[i].ran = Some(Err(m.unwrap_or("").replace("\\n", "\n")));
                        at += 1;
                    }
                    _ => {}
                }
            }
            if at < sel.len() {
                out[sel[at].0].ran = Some(Err(format!("the program died: {}", e.trim_end())));
                at += 1;
            }
            from = at;
        }
    }

    /// Compiles and runs any modules, in parallel.
    pub fn all(&self, mods: &[Module], threads: usize, until: Instant) -> Vec<Option<Outcome>> {
        let mut groups: BTreeMap<&Settings, Vec<usize>> = BTreeMap::new();
        for (i, m) in mods.iter().enumerate() {
            groups.entry(&m.settings).or_default().push(i);
        }
        let mut jobs: Vec<(&Settings, Vec<usize>)> = Vec::new();
        for (s, v) in groups {
            for c in v.chunks(s.batch) {
                jobs.push((s, c.to_vec()));
            }
        }
        // settings in turn, so that running out of time cuts all of them short
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        order.sort_by_key(|i| jobs[*i].1[0]);
        let next = AtomicUsize::new(0);
        let out = Mutex::new(vec![None; mods.len()]);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= order.len() || Instant::now() > until {
                        break;
                    }
                    let (s, v) = &jobs[order[k]];
                    let src: Vec<&str> = v.iter().map(|i| mods[*i].source.as_str()).collect();
                    let r = self.batch(s, &src);
                    let mut o = out.lock().unwrap();
                    for (i, x) in v.iter().zip(r) {
                        o[*i] = Some(x);
                    }
                });
            }
        });
        out.into_inner().unwrap()
    }
}

fn main_fn(mods: &[(usize, &str)], krate: &str) -> String {
    let mut t = String::new();
    t.push_str("fn main() { ::std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap().join().unwrap(); }\n");
    t.push_str("fn show(i: usize, f: fn() -> ::std::result::Result<(), ::std::string::String>) {\n    ::std::panic::set_hook(::std::boxed::Box::new(|_| {}));\n    match ::std::panic::catch_unwind(f) {\n        ::std::result::Result::Ok(::std::result::Result::Ok(())) => ::std::println!(\"@ok {}\", i),\n        ::std::result::Result::Ok(::std::result::Result::Err(m)) => ::std::println!(\"@fail {} {}\", i, m.replace('\\n', \"\\\\n\")),\n        ::std::result::Result::Err(p) => { let m = p.downcast_ref::<::std::string::String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| ::std::string::String::from(*x))).unwrap_or_default(); ::std::println!(\"@fail {} panicked: {}\", i, m.replace('\\n', \"\\\\n\")) }\n    }\n}\n");
    t.push_str("fn real_main() {\n    let from: usize = ::std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);\n");
    for (k, (i, _)) in mods.iter().enumerate() {
        writeln!(t, "    if {} >= from {{ show({}, || {}::m{}::run().map_err(|e| ::std::string::ToString::to_string(&e))); }}", k, i, krate, i).unwrap();
    }
    t.push_str("}\n");
    t
}

/// The lines in `file` of the primary spans, through macro expansions.
fn spans(v: &Value, file: &str, out: &mut Vec<usize>) {
    fn go(s: &Value, file: &str, out: &mut Vec<usize>) {
        if s["file_name"].as_str() == Some(file) {
            if let Some(l) = s["line_start"].as_u64() {
                out.push(l as usize);
            }
        }
        if s["expansion"].is_object() {
            go(&s["expansion"]["span"], file, out);
        }
    }
    let all = v.as_array().cloned().unwrap_or_default();
    for s in &all {
        if s["is_primary"].as_bool() == Some(true) {
            go(s, file, out);
        }
    }
    if out.is_empty() {
        for s in &all {
            go(s, file, out);
        }
    }
}

/// Runs a command with a time limit, its output through files.
fn run(mut c: Command, limit: Duration) -> (bool, String, String) {
    use std::io::Read;
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => return (false, String::new(), format!("cannot start {:?}: {}", c, e)),
    };
    let mut o = p.stdout.take().unwrap();
    let mut e = p.stderr.take().unwrap();
    let to = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = o.read_to_end(&mut v);
        v
    });
    let te = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = e.read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let mut late = false;
    let ok = loop {
        match p.try_wait() {
            Ok(Some(s)) => break s.success(),
            _ => {
                if t.elapsed() > limit {
                    let _ = p.kill();
                    let _ = p.wait();
                    late = true;
                    break false;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
    };
    let o = String::from_utf8_lossy(&to.join().unwrap()).to_string();
    let mut e = String::from_utf8_lossy(&te.join().unwrap()).to_string();
    if late {
        e.push_str("took longer than the time limit");
    }
    (ok && !late, o, e)
}
