use super::mdset::*;
use crate::engine::*;
use os_display::Quotable;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CString, OsStr, OsString};
use std::fs::{self, File, OpenOptions};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, FileExt, MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub static PROP: Prop = Prop {
    id: "C29",
    quick: 6_000,
    thorough: 400_000,
    rule: "the program was run on at least two paths and at least one device had a problem or one path could not be opened or sized; distinct by the full choice sequence",
    assumptions: &[
        "devices are regular files that a preloaded library gives the two size ioctls of a block device (no block devices can be made here)",
        "the program reaches the system through the C library, where the library records open flags and writes",
        "the diagnosis is printed in the derived debug format; where it is not, only the set of devices it names is compared",
        "errors while reading a device of known size count as a missing superblock",
    ],
    run,
    pinned: &[],
};

struct Program {
    bin: PathBuf,
    shim: PathBuf,
    nobody: bool,
}

/// The program built from the current tree, and whether it can be run as an unprivileged user.
fn program() -> &'static Program {
    static P: OnceLock<Program> = OnceLock::new();
    P.get_or_init(|| {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let var = |k: &str, d: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| format!("{dir}/target/{d}")));
        let (bin, shim) = (var("VERIF_CLI", "cli/debug/md-recover"), var("VERIF_SHIM", "shim.so"));
        assert!(bin.exists() && shim.exists(), "harness: the program was not built");
        let nobody = Command::new(&bin)
            .arg("--version")
            .uid(65534)
            .gid(65534)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .current_dir("/")
            .status()
            .is_ok_and(|s| s.success());
        Program { bin, shim, nobody }
    })
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("verif-c29-{}-{:?}", std::process::id(), std::thread::current().id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir(&p).expect("scratch directory");
        fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// A file name that contains ~nn~ and otherwise anything.
fn odd_name(g: &mut G, n: usize) -> OsString {
    let mut v = match g.draw(5) {
        0 => b"sd".to_vec(),
        1 => b"a b".to_vec(),
        2 => g.pick(&[&b"-x"[..], b"'q", b"\"d", b"new\nline", b"tab\t", b"$HOME", b"\\n", b"\xff\xfe", b"\xc3\xa9", b"#", b"[]", b"],", b"{:?}", b": ", b"\x1b[31m"])
            .to_vec(),
        3 => {
            let k = g.us(1, 12);
            g.bytes(k)
        }
        _ => vec![b'x'; g.us(1, 200)],
    };
    v.iter_mut().for_each(|c| {
        if *c == 0 || *c == b'/' || *c == b'~' {
            *c = b'_'
        }
    });
    v.extend_from_slice(format!("~{n}~").as_bytes());
    if g.chance(1, 4) {
        v.extend_from_slice(g.pick(&[&b" "[..], b"\n", b"'", b"\xff", b",", b"z"]));
    }
    OsString::from_vec(v)
}

const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EACCES: i32 = 13;
const ENODEV: i32 = 19;
const ENOTDIR: i32 = 20;
const EINVAL: i32 = 22;
const ENOTTY: i32 = 25;
const ENAMETOOLONG: i32 = 36;
const ELOOP: i32 = 40;

/// What one argument is.
#[derive(Clone, Debug)]
enum What {
    Device(usize),
    Bad(i32),
}

fn run(g: &mut G) -> R {
    let prog = program();
    let scratch = Scratch::new();
    let dir = &scratch.0;
    let set = gen_set(g, &SetKnobs { max_mutations: 3, reshape: true, rows: 0 });
    let mut args: Vec<(OsString, What)> = vec![];
    let mut conf = String::new();
    let mut dev_files: Vec<OsString> = vec![];
    let absolute = g.chance(1, 2);
    let path = |g: &mut G, name: &OsStr| -> OsString {
        if absolute {
            dir.join(name).into_os_string()
        } else if g.chance(1, 2) || name.as_bytes()[0] == b'-' {
            Path::new(".").join(name).into_os_string()
        } else {
            name.to_os_string()
        }
    };
    let writable = g.chance(3, 4);
    for (i, d) in set.devs.iter().enumerate() {
        let name = odd_name(g, i);
        let f = File::create_new(dir.join(&name)).expect("device file");
        f.set_len(d.store.len).expect("device size");
        for (at, p) in d.store.written() {
            f.write_all_at(p, at).expect("device content");
        }
        f.set_permissions(fs::Permissions::from_mode(if writable { 0o666 } else { 0o444 })).unwrap();
        // the physical block size; the logical one is 512
        let physical = g.pick(&[512u32, 4096, 4096, 16384, 65536]);
        conf += &format!("{},{physical},0,0;", f.metadata().unwrap().ino());
        if d.store.len % physical as u64 != 0 {
            g.class("size not a multiple of the physical block size");
        }
        let arg = if g.chance(1, 10) {
            let link = odd_name(g, 1000 + i);
            symlink(&name, dir.join(&link)).unwrap();
            path(g, &link)
        } else {
            path(g, &name)
        };
        dev_files.push(name);
        args.push((arg, What::Device(i)));
        // the same device twice, by the same path or another
        if g.chance(1, 20) {
            let again = if g.chance(1, 2) {
                args.last().unwrap().0.clone()
            } else {
                let link = odd_name(g, 200 + i);
                symlink(&dev_files[i], dir.join(&link)).unwrap();
                path(g, &link)
            };
            args.push((again, What::Device(i)));
        }
    }
    let bad = if g.chance(1, 2) { 0 } else { 1 + g.draw(2) as usize };
    for i in 0..bad {
        let name = odd_name(g, 300 + i);
        let at = dir.join(&name);
        let err = match g.draw(9) {
            0 | 1 => ENOENT,
            2 => {
                fs::create_dir(&at).unwrap();
                ENOTTY
            }
            3 => {
                fs::write(&at, vec![7; 20000]).unwrap();
                ENOTTY
            }
            4 if prog.nobody => {
                fs::write(&at, vec![7; 20000]).unwrap();
                fs::set_permissions(&at, fs::Permissions::from_mode(0)).unwrap();
                EACCES
            }
            5 => {
                symlink("nowhere", &at).unwrap();
                ENOENT
            }
            6 => {
                symlink(&name, &at).unwrap();
                ELOOP
            }
            7 => {
                // a device whose size cannot be had
                let f = File::create_new(&at).unwrap();
                f.set_len(40960).unwrap();
                let e = g.pick(&[EIO, ENODEV, EINVAL, EACCES]);
                let which = g.draw(1);
                let ino = f.metadata().unwrap().ino();
                conf += &format!("{ino},512,{},{};", if which == 0 { e } else { 0 }, if which == 1 { e } else { 0 });
                f.set_permissions(fs::Permissions::from_mode(0o666)).unwrap();
                e
            }
            8 => {
                let p = path(g, OsStr::from_bytes(format!("{}~{}~", "y".repeat(260), 400 + i).as_bytes()));
                args.push((p, What::Bad(ENAMETOOLONG)));
                continue;
            }
            _ => {
                fs::write(&at, b"x").unwrap();
                let p = path(g, &name);
                args.push((Path::new(&p).join("below").into_os_string(), What::Bad(ENOTDIR)));
                continue;
            }
        };
        args.push((path(g, &name), What::Bad(err)));
    }
    g.shuffle(&mut args);
    if g.chance(1, 12) {
        let n = g.us(0, args.len());
        args.truncate(n);
    }
    // before
    let snap = |p: &Path| {
        let m = fs::symlink_metadata(p).ok()?;
        let body = if m.is_file() && m.size() < 1 << 20 { fs::read(p).ok() } else { None };
        Some((m.size(), m.mode(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec(), m.ino(), body))
    };
    let list = |d: &Path| -> BTreeMap<OsString, _> {
        fs::read_dir(d).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name(), snap(&e.path()))).collect()
    };
    if writable {
        // so that the program could create files
        fs::set_permissions(dir, fs::Permissions::from_mode(0o777)).unwrap();
    }
    let log = dir.with_extension("log");
    fs::write(&log, b"").unwrap();
    fs::set_permissions(&log, fs::Permissions::from_mode(0o666)).unwrap();
    let before = list(dir);
    let mut c = Command::new(&prog.bin);
    if g.chance(1, 2) || args.iter().any(|a| a.0.as_bytes()[0] == b'-') {
        c.arg("--");
    }
    c.args(args.iter().map(|a| &a.0))
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", &prog.shim)
        .env("VERIF_SHIM_LOG", &log)
        .env("VERIF_SHIM_CONF", &conf)
        .stdin(Stdio::null());
    if prog.nobody {
        c.uid(65534).gid(65534);
    }
    let out = c.output().expect("harness: cannot run the program");
    let logged = fs::read_to_string(&log).unwrap_or_default();
    let _ = fs::remove_file(&log);
    let after = list(dir);
    assert!(logged.starts_with("start\n"), "harness: the preloaded library did not start: {logged:?}");

    let shown: Vec<String> = args.iter().map(|(a, w)| format!("{a:?} ({w:?})")).collect();
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    g.describe(|| format!("{}; arguments {}", set.describe(), shown.join(" ")));
    let at = |m: String| Fail(format!("{m} (arguments {}; output {stdout:?} {stderr:?})", shown.join(" ")));

    // no crash
    if let Some(s) = out.status.signal() {
        return Err(at(format!("killed by signal {s}")));
    }
    ensure!(out.status.code() != Some(101) && !stderr.contains("panicked"), "{}", at("it panicked".into()).0);
    // nothing changed
    for (k, v) in &before {
        match after.get(k) {
            None => return Err(at(format!("{k:?} is gone"))),
            Some(w) => ensure!(v == w, "{}", at(format!("{k:?} was changed")).0),
        }
    }
    if let Some(k) = after.keys().find(|k| !before.contains_key(*k)) {
        return Err(at(format!("{k:?} was created")));
    }
    let mut opened: BTreeSet<Vec<u8>> = BTreeSet::new();
    let paths: BTreeSet<&[u8]> = args.iter().map(|a| a.0.as_bytes()).collect();
    for l in logged.lines() {
        let mut w = l.split(' ');
        let (what, v, p) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        let p: Vec<u8> = (0..p.len() / 2).filter_map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).ok()).collect();
        if what == "write" {
            return Err(at(format!("it wrote to or changed file descriptor {v}")));
        }
        if what == "open" && paths.contains(&p[..]) {
            let f: i64 = v.parse().unwrap_or(0);
            // O_ACCMODE, O_CREAT, O_TRUNC, O_APPEND
            if f & (3 | 0o100 | 0o1000 | 0o2000) != 0 {
                return Err(at(format!("{:?} was opened with flags {f:#o}", OsStr::from_bytes(&p))));
            }
            opened.insert(p);
        }
    }

    let failing: Vec<(&OsString, i32)> =
        args.iter().filter_map(|(a, w)| if let What::Bad(e) = w { Some((a, *e)) } else { None }).collect();
    if !failing.is_empty() {
        g.class("some path cannot be opened or sized");
        if args.len() >= 2 {
            g.nontrivial();
        }
        for (_, e) in &failing {
            g.class(match *e {
                ENOENT => "missing",
                ENOTTY => "not a block device",
                ENOTDIR => "below a file",
                ENAMETOOLONG => "name too long",
                ELOOP => "symbolic link to itself",
                _ => "access refused or size not to be had",
            });
        }
        // compared as bytes, so that a name that is not text cannot hide
        let mut lines: Vec<&[u8]> = out.stdout.split(|b| *b == b'\n').collect();
        ensure!(lines.pop() == Some(&b""[..]), "{}", at("the last line is not complete".into()).0);
        ensure_eq!(lines.len(), failing.len(), "{}", at("lines for failing paths".into()).0);
        let mut left = lines;
        for (a, e) in &failing {
            let err = std::io::Error::from_raw_os_error(*e).to_string();
            let fits = |l: &[u8]| {
                let has = |s: &[u8]| l.windows(s.len().max(1)).any(|w| w == s);
                (has(a.maybe_quote().to_string().as_bytes()) || has(format!("{a:?}").as_bytes()) || has(a.as_bytes()))
                    && (has(err.as_bytes()) || has(format!("os error {e})").as_bytes()))
            };
            match left.iter().position(|l| fits(l)) {
                Some(i) => {
                    left.remove(i);
                }
                None => return Err(at(format!("no line names {a:?} with {err:?}"))),
            }
        }
        return Ok(());
    }

    ensure!(out.status.success(), "{}", at(format!("{}", out.status)).0);
    for a in &paths {
        if !opened.contains(*a) {
            return Err(at(format!("{:?} was not opened", OsStr::from_bytes(a))));
        }
    }
    let supplied: Vec<(String, usize)> = args
        .iter()
        .map(|(a, w)| match w {
            What::Device(i) => (format!("{a:?}"), *i),
            What::Bad(_) => unreachable!(),
        })
        .collect();
    let exp = set.expected(&supplied);
    let named: BTreeSet<String> = exp.values().flatten().flatten().flatten().cloned().collect();
    if args.len() >= 2 && !named.is_empty() {
        g.nontrivial();
        g.class("a diagnosis with problems");
    }
    if args.is_empty() {
        g.class("no paths");
    }
    match parse(&stdout) {
        Some(got) => {
            for (key, want) in &exp {
                let Some(have) = got.get(*key) else { return Err(at(format!("no word on {key}"))) };
                ensure!(have == want, "{}", at(format!("{key} names {have:?} instead of {want:?}")).0);
            }
        }
        None => {
            // some other format: the devices it names
            g.class("other output format");
            for (a, _) in &args {
                let d = format!("{a:?}");
                let is = stdout.contains(&d)
                    || stdout.contains(&a.maybe_quote().to_string())
                    || stdout.contains(&*a.to_string_lossy());
                ensure!(is == named.contains(&d), "{}", at(format!("{d} is {} named", if is { "" } else { "not" })).0);
            }
        }
    }
    Ok(())
}

/// The groups of devices (debug form of their paths) under each heading of a diagnosis in pretty debug format.
fn parse(s: &str) -> Option<BTreeMap<String, Option<BTreeSet<Vec<String>>>>> {
    let mut l = s.lines();
    if l.next()? != "Diagnosis {" {
        return None;
    }
    let mut m = BTreeMap::new();
    let mut field = String::new();
    let mut sets: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut group: Vec<String> = vec![];
    let mut next_is_name = false;
    for l in l {
        if next_is_name {
            group.push(l.trim_start().strip_suffix(',')?.to_string());
            next_is_name = false;
            continue;
        }
        let indent = l.len() - l.trim_start_matches(' ').len();
        let t = &l[indent..];
        if indent == 4 && t.ends_with(": None,") {
            m.insert(t.strip_suffix(": None,")?.to_string(), None);
        } else if indent == 4 && t.ends_with(": Some(") {
            field = t.strip_suffix(": Some(")?.to_string();
        } else if indent == 4 && t == ")," {
            if !group.is_empty() {
                group.sort();
                sets.insert(std::mem::take(&mut group));
            }
            m.insert(std::mem::take(&mut field), Some(std::mem::take(&mut sets)));
        } else if indent == 12 && t == "]," {
            group.sort();
            sets.insert(std::mem::take(&mut group));
        } else if t == "user_reference: Some(" {
            next_is_name = true;
        } else if indent == 0 && t == "}" {
            return Some(m);
        }
    }
    None
}
