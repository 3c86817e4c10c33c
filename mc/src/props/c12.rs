//! Saving survives faults and crashes.
use super::common::*;
use crate::books;
use crate::env::{self, Act, Ev, Fs};
use std::path::Path;
use std::sync::Arc;

#[derive(Clone)]
pub struct Scen {
    pub name: &'static str,
    pub kind: DocKind,
    /// source document
    pub src: Option<Vec<u8>>,
    /// what is at the target before: None nothing, Some(true) the source itself, Some(false) another file
    pub target: Option<bool>,
    pub edit: bool,
    pub file: &'static str,
}
const OTHER: &[u8] = b"PK\x03\x04 an older document that somebody wants to keep";

fn big() -> Vec<u8> {
    let mut w = books::plain();
    let mut rows = String::new();
    let mut x = 12345u64;
    for r in 1..=3000u32 {
        rows.push_str(&format!("<row r=\"{r}\">"));
        for c in 1..=4u32 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            rows.push_str(&format!("<c r=\"{}\"><v>{}</v></c>", wb::cref(r, c), x >> 20));
        }
        rows.push_str("</row>");
    }
    w.sheets[1].2 = fx::sheet(&format!("<sheetData>{rows}</sheetData>"));
    w.calc = None;
    w.zip()
}
fn scens() -> Vec<Scen> {
    let plain = books::plain().zip();
    let rich = books::rich().zip();
    let s = |name, kind, src, target, edit, file| Scen { name, kind, src, target, edit, file };
    use DocKind::*;
    vec![
        s("new workbook over another file", Excel, None, Some(false), true, "t.xlsx"),
        s("new workbook, no target yet", Excel, None, None, true, "t.xlsx"),
        s("workbook over itself", Excel, Some(plain.clone()), Some(true), true, "t.xlsx"),
        s("workbook over another file", Excel, Some(rich), Some(false), true, "t.xlsx"),
        s("workbook over itself, no edit", Excel, Some(plain.clone()), Some(true), false, "t"),
        s("workbook to a new file", Excel, Some(plain), None, true, "t é x.xlsx"),
        s("large workbook over itself", Excel, Some(big()), Some(true), true, "t.xlsx"),
        s("text document over itself", Word, Some(fx::doc_pkg(true, Some(fx::CORE)).zip()), Some(true), false, "t.docx"),
        s("text document over another file", Word, Some(fx::doc_pkg(true, None).zip()), Some(false), false, "t.docx"),
        s("new text document over another file", Word, None, Some(false), false, "t.docx"),
        s("presentation over itself", Ppt, Some(fx::doc_pkg(false, Some(fx::CORE)).zip()), Some(true), false, "t.pptx"),
        s("presentation over another file", Ppt, Some(fx::doc_pkg(false, Some(fx::CORE)).zip()), Some(false), false, "t.pptx"),
    ]
}
pub struct Done {
    pub res: Res<()>,
    pub target: Option<Vec<u8>>,
    pub before: Option<Vec<u8>>,
    pub problems: Vec<String>,
    pub files: Vec<String>,
}
/// Makes this the working directory of this thread alone, where the system lets us.
fn in_dir(dir: &str) -> bool {
    extern "C" {
        fn unshare(flags: i32) -> i32;
    }
    const CLONE_FS: i32 = 0x200;
    unsafe { unshare(CLONE_FS) == 0 && std::env::set_current_dir(dir).is_ok() }
}
/// Ways to name the target.
const HOWS: &[&str] = &[
    "", ", 255 character name", ", a name with a dot in front", ", the name alone", ", ./ and the name", ", a path by way of the folder above", ", a path with a dot", ", a path with two slashes", ", a path up and down again",
];
/// Sets the directory up, opens, edits and saves with the given plan.
fn go(s: &Scen, dir: &str, fs: &mut Fs, how: usize) -> Done {
    let _ = std::fs::create_dir_all(dir);
    let file = match how {
        1 => "n".repeat(255),
        2 => format!(".{}", s.file),
        _ => s.file.to_string(),
    };
    // how the library is told where the files are
    let said = match how {
        3 | 4 | 5 if !in_dir(dir) => dir.to_string() + "/",
        3 => String::new(),
        4 => "./".into(),
        5 => format!("../{}/", dir.rsplit('/').next().unwrap_or_default()),
        6 => format!("{dir}/./"),
        7 => format!("{dir}//"),
        8 => format!("{dir}/../{}/", dir.rsplit('/').next().unwrap_or_default()),
        _ => format!("{dir}/"),
    };
    let target = format!("{dir}/{file}");
    let src = format!("{dir}/source");
    let open = match (&s.src, s.target) {
        (Some(b), Some(true)) => {
            std::fs::write(&target, b).expect("harness: target");
            Some(format!("{said}{file}"))
        }
        (Some(b), _) => {
            std::fs::write(&src, b).expect("harness: source");
            Some(format!("{said}source"))
        }
        _ => None,
    };
    if s.target == Some(false) {
        std::fs::write(&target, OTHER).expect("harness: target");
    }
    let before = std::fs::read(&target).ok();
    env::set_clock(1_600_000_000);
    fs.root = dir.to_string();
    env::fs_on(fs);
    let res = act(s, open.as_deref(), &format!("{said}{file}"));
    env::fs_off();
    let mut problems = vec![];
    if s.target != Some(true) {
        if let Some(b) = &s.src {
            if std::fs::read(&src).ok().as_ref() != Some(b) {
                problems.push("the source file is not what it was".into());
            }
        }
    }
    let after = std::fs::read(&target).ok();
    let mut files: Vec<String> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    files.retain(|f| *f != file && f != "source");
    Done { res, target: after, before, problems, files }
}
fn act(s: &Scen, open_path: Option<&str>, target: &str) -> Res<()> {
    if s.kind != DocKind::Excel {
        return roundtrip(s.kind, open_path, target);
    }
    let mut x = match open(open_path) {
        Res::Ok(x) => x,
        Res::Err(e) => return Res::Err(e),
        Res::Panic(p) => return Res::Panic(p),
    };
    if s.edit {
        let w = if s.src.is_some() { x.get("A") } else { x.add(Some("A")) };
        match w {
            Res::Ok(mut w) => {
                let r = ws_call(&mut w, |w| w.set_row_value_index_mut(5, 5, vec![cell("edited", CellDataType::ShareString)]));
                ws_drop(w);
                if !r.is_ok() {
                    return r;
                }
            }
            Res::Err(e) => return Res::Err(e),
            Res::Panic(p) => return Res::Panic(p),
        }
    }
    x.save(target)
}
/// What the file must be after a save that worked: the same package as without any fault.
fn complete(got: &[u8], want: &[u8]) -> Option<String> {
    if got == want {
        return None;
    }
    let a = match Package::read(got) {
        Ok(a) => a,
        Err(e) => return Some(format!("unreadable: {e}")),
    };
    let b = Package::read(want).expect("harness: reference");
    pkg_diff(&b, &a, false).first().cloned()
}
fn judge(s: &Scen, d: &Done, want: &[u8], out: &mut Out, crash: bool) {
    for p in &d.problems {
        out.bad(p.clone());
    }
    if crash {
        // the process is dead, only the files count; the error it would have seen does not
        match (&d.before, &d.target) {
            (Some(b), Some(t)) => {
                if b != t {
                    if let Some(e) = complete(t, want) {
                        out.bad(format!("after the crash the target is neither the old nor the new file: {e}"));
                    }
                }
            }
            (Some(_), None) => out.bad("after the crash the target is gone"),
            _ => {}
        }
        return;
    }
    match &d.res {
        Res::Panic(p) => out.bad(p.clone()),
        Res::Ok(()) => {
            match &d.target {
                None => out.bad("save reports success, there is no file"),
                Some(t) => {
                    if let Some(e) = complete(t, want) {
                        out.bad(format!("save reports success, the file is not complete: {e}"));
                    }
                }
            }
            if !d.files.is_empty() {
                out.bad(format!("save reports success and leaves {:?}", d.files.iter().map(|f| f.chars().take(12).collect::<String>()).collect::<Vec<_>>()));
            }
        }
        Res::Err(_) => {
            if let Some(b) = &d.before {
                match &d.target {
                    None => out.bad("save failed and the target is gone"),
                    Some(t) if t != b => {
                        if let Some(e) = complete(t, want) {
                            out.bad(format!("save failed and the target is neither the old nor the new file: {e}"));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}
fn dry(s: &Scen, tag: &str) -> (Vec<Ev>, usize, Vec<u8>) {
    let base = crate::engine::scratch_base().join(format!("dry-{tag}"));
    let dir = base.to_string_lossy().into_owned();
    let _ = std::fs::remove_dir_all(&base);
    let s = s.clone();
    let r = std::thread::spawn(move || {
        env::begin(7);
        let mut fs = Fs::default();
        let d = go(&s, &dir, &mut fs, 0);
        (fs.log.clone(), fs.reads, d.target.filter(|_| d.res.is_ok()).unwrap_or_default())
    })
    .join();
    let _ = std::fs::remove_dir_all(&base);
    r.unwrap_or_default()
}
/// Names of files that may lie beside the target: what another run has used, and usual names.
fn beside(s: &Scen, log: &[Ev]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |p: &str| {
        let n = p.rsplit('/').next().unwrap_or_default().to_string();
        if !n.is_empty() && n != s.file && n != "source" && !v.contains(&n) {
            v.push(n);
        }
    };
    for e in log {
        match e {
            Ev::Open { path, .. } | Ev::Write { path, .. } | Ev::Trunc { path, .. } | Ev::Unlink { path } => add(path),
            Ev::Rename { from, to } | Ev::Link { from, to } => {
                add(from);
                add(to);
            }
            Ev::Mkdir { .. } | Ev::Sync { .. } | Ev::Read { .. } => {}
        }
    }
    let stem = s.file.rsplit_once('.').map_or(s.file, |p| p.0);
    for n in [
        format!("{}.tmp", s.file), format!("{stem}.tmp"), format!(".{}.tmp", s.file), format!(".{stem}.tmp"), format!("~{}", s.file), format!("~${}", s.file), format!("{}~", s.file), format!("{}.bak", s.file), format!("{stem}.bak"), format!("{}.new", s.file),
        format!("{}.old", s.file), format!("{}.part", s.file), format!(".{}.swp", s.file), format!("{}.1", s.file), format!("{stem}"), format!("{stem}.xlsx"), format!("{stem}.zip"), "tmp".into(), ".tmp".into(), "temp".into(), "save.tmp".into(), "temp.xlsx".into(),
    ] {
        add(&n);
    }
    v
}
const ACTS: &[(&str, Act)] = &[
    ("EIO", Act::Fail(env::EIO)),
    ("ENOSPC", Act::Fail(env::ENOSPC)),
    ("EACCES", Act::Fail(env::EACCES)),
    ("EINTR", Act::Fail(env::EINTR)),
    ("one byte", Act::Short(1)),
    ("half", Act::Short(0)),
    ("crash", Act::Crash),
    ("crash halfway", Act::CrashTorn),
];
fn is_crash(a: &Act) -> bool {
    matches!(a, Act::Crash | Act::CrashTorn)
}

pub fn check(deep: bool) -> Check {
    let sc: Arc<Vec<Scen>> = Arc::new(scens());
    let dries: Arc<Vec<(Vec<Ev>, usize, Vec<u8>)>> = Arc::new(sc.iter().enumerate().map(|(i, s)| dry(s, &i.to_string())).collect());
    let ns = sc.len();
    let points: usize = dries.iter().map(|d| d.0.len()).max().unwrap_or(0);
    let reads: usize = dries.iter().map(|d| d.1).max().unwrap_or(0).min(if deep { 4000 } else { 1200 });
    let bound_pts = points.max(1);
    let na = ACTS.len();
    let mut spaces = vec![];
    // no fault
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        spaces.push(Space::new(
            "no-fault",
            "every scenario without a fault, with its own name, the longest file name there is, and the target named in other ways (relative paths, dots): the save works, writes the complete package and nothing else",
            (HOWS.len() * ns) as u64,
            move |i| format!("{}{}", s2[i as usize / HOWS.len()].name, HOWS[i as usize % HOWS.len()]),
            move |i, w| {
                let k = i as usize / HOWS.len();
                let mut out = Out::default();
                let mut fs = Fs::default();
                let r = go(&s[k], &w.dir.join("w").to_string_lossy(), &mut fs, i as usize % HOWS.len());
                if d[k].2.is_empty() {
                    out.bad(format!("save without a fault: {}", r.res.show()));
                } else {
                    if !r.res.is_ok() {
                        out.bad(format!("save: {}", r.res.show()));
                    }
                    judge(&s[k], &r, &d[k].2, &mut out, false);
                    if s[k].kind == DocKind::Excel && s[k].edit {
                        match r.target.as_deref().map(Book::read) {
                            Some(Ok(b)) => {
                                if b.sheet("A").and_then(|s| s.grid.get(&(5, 5))).map(|c| c.kind.clone()) != Some(Kind::Text("edited".into())) {
                                    out.bad("the edit is not in the file");
                                }
                            }
                            Some(Err(e)) => out.bad(format!("saved file: {e}")),
                            None => {}
                        }
                    }
                }
                out.transitions = fs.log.len() as u64;
                out.states = fs.log.iter().map(|e| h64(&shape(e))).collect();
                out.nontrivial = true;
                out.outcome = h64(&fs.log.iter().map(shape).collect::<Vec<_>>());
                out
            },
        ));
    }
    // files that happen to lie beside the target
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        let names: Arc<Vec<Vec<String>>> = Arc::new(sc.iter().zip(dries.iter()).map(|(s, d)| beside(s, &d.0)).collect());
        spaces.push(Space::new(
            "bystanders",
            &format!("{ns} scenarios with files of other people in the target directory, under each name an undisturbed save of another run has used there and under the usual names of temporary and backup files; without a fault and with each way to fail or crash at each call: these files are what they were"),
            (ns * (1 + bound_pts * na)) as u64,
            move |i| {
                let mut g = Dig(i);
                let (k, p) = (g.take(ns), g.take(1 + bound_pts * na));
                format!("{}, files beside the target{}", s2[k].name, if p == 0 { String::new() } else { format!(", call {}: {}", (p - 1) / na, ACTS[(p - 1) % na].0) })
            },
            move |i, w| {
                let mut g = Dig(i);
                let (k, p) = (g.take(ns), g.take(1 + bound_pts * na));
                let mut out = Out::default();
                let dir = w.dir.join("w");
                let _ = std::fs::create_dir_all(&dir);
                for (n, f) in names[k].iter().enumerate() {
                    std::fs::write(dir.join(f), format!("file {n} of somebody else")).expect("harness: bystander");
                }
                // what is drawn at random is not drawn twice
                env::begin(1_000_003 + i);
                let mut fs = Fs::default();
                let mut crash = false;
                if p > 0 {
                    let a = ACTS[(p - 1) % na].1.clone();
                    crash = is_crash(&a);
                    fs.plan = Some(((p - 1) / na, a));
                }
                let mut r = go(&s[k], &dir.to_string_lossy(), &mut fs, 0);
                for (n, f) in names[k].iter().enumerate() {
                    if std::fs::read(dir.join(f)).ok() != Some(format!("file {n} of somebody else").into_bytes()) {
                        out.bad(format!("the save changed or removed a file beside the target: {f:?}"));
                    }
                }
                r.files.retain(|f| !names[k].contains(f));
                if r.res.is_ok() || crash || p > 0 {
                    judge(&s[k], &r, &d[k].2, &mut out, crash && fs.fired);
                } else if r.target != r.before {
                    out.bad("save failed and the target is not what it was");
                }
                fin(&mut out, &fs, &r, p);
                out.nontrivial = p == 0 || fs.fired;
                out
            },
        ));
    }
    // one fault
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        spaces.push(Space::new(
            "one-fault",
            &format!("{ns} scenarios, every file system call that can change something (up to {points} in a scenario), {na} ways to fail, be cut short or crash there"),
            (ns * bound_pts * na) as u64,
            move |i| {
                let mut g = Dig(i);
                let (a, p, k) = (g.take(na), g.take(bound_pts), g.take(ns));
                format!("{}: call {p}: {}", s2[k].name, ACTS[a].0)
            },
            move |i, w| {
                let mut g = Dig(i);
                let (a, p, k) = (g.take(na), g.take(bound_pts), g.take(ns));
                let mut out = Out::default();
                let mut fs = Fs { plan: Some((p, ACTS[a].1.clone())), ..Default::default() };
                let r = go(&s[k], &w.dir.join("w").to_string_lossy(), &mut fs, 0);
                judge(&s[k], &r, &d[k].2, &mut out, is_crash(&ACTS[a].1) && fs.fired);
                fin(&mut out, &fs, &r, a);
                // whatever is left, the next save over the same target must not be hurt by it
                if out.problems.is_empty() && fs.fired {
                    again(&s[k], &w.dir.join("w").to_string_lossy(), &d[k].2, &mut out, is_crash(&ACTS[a].1));
                }
                out
            },
        ));
    }
    // every write cut to n bytes, alone and with a later fault
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        let sizes: Vec<usize> = vec![1, 7, 100, 4096, 0];
        let nz = sizes.len();
        let z2 = sizes.clone();
        // index of the fault: none, or the n-th call
        let pts = if deep { 400 } else { 60 };
        spaces.push(Space::new(
            "split-writes",
            &format!("{ns} scenarios, every write transfers at most n bytes for n in 1, 7, 100, 4096, half; alone and with a crash, an error or an interruption at each of the first {pts} calls"),
            (ns * nz * (1 + pts * 3)) as u64,
            move |i| {
                let mut g = Dig(i);
                let (z, k, p) = (g.take(nz), g.take(ns), g.take(1 + pts * 3));
                format!("{}: writes of {} bytes{}", s2[k].name, z2[z], if p == 0 { String::new() } else { format!(", call {}: {}", (p - 1) / 3, ["EIO", "EINTR", "crash"][(p - 1) % 3]) })
            },
            move |i, w| {
                let mut g = Dig(i);
                let (z, k, p) = (g.take(nz), g.take(ns), g.take(1 + pts * 3));
                let mut out = Out::default();
                let size = if d[k].2.len() > 40_000 && sizes[z] == 1 { 64 } else { sizes[z] };
                let mut fs = Fs { every_write: Some(Act::Short(size)), ..Default::default() };
                let acts = [Act::Fail(env::EIO), Act::Fail(env::EINTR), Act::Crash];
                let mut crash = false;
                if p > 0 {
                    let a = acts[(p - 1) % 3].clone();
                    crash = is_crash(&a);
                    fs.plan = Some(((p - 1) / 3, a));
                }
                let r = go(&s[k], &w.dir.join("w").to_string_lossy(), &mut fs, 0);
                let c = crash && fs.crashed;
                judge(&s[k], &r, &d[k].2, &mut out, c);
                fin(&mut out, &fs, &r, p);
                out
            },
        ));
    }
    // two faults
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        let per = bound_pts + 4; // a fault makes for further calls: retries, cleaning up
        spaces.push(Space::new(
            "two-faults",
            &format!("{ns} scenarios, every pair of calls i < j (also the calls made because of the first fault), {na} x {na} ways"),
            (ns * per * per * na * na) as u64,
            move |i| {
                let mut g = Dig(i);
                let (a, b, p, q, k) = (g.take(na), g.take(na), g.take(per), g.take(per), g.take(ns));
                format!("{}: call {p}: {}, call {}: {}", s2[k].name, ACTS[a].0, p + 1 + q, ACTS[b].0)
            },
            move |i, w| {
                let mut g = Dig(i);
                let (a, b, p, q, k) = (g.take(na), g.take(na), g.take(per), g.take(per), g.take(ns));
                let mut out = Out::default();
                let mut fs = Fs { plan: Some((p, ACTS[a].1.clone())), more: vec![(p + 1 + q, ACTS[b].1.clone())], ..Default::default() };
                let r = go(&s[k], &w.dir.join("w").to_string_lossy(), &mut fs, 0);
                let crashed = fs.crashed;
                judge(&s[k], &r, &d[k].2, &mut out, crashed);
                fin(&mut out, &fs, &r, a * na + b);
                out
            },
        ));
    }
    // reads
    {
        let (s, s2, d) = (sc.clone(), sc.clone(), dries.clone());
        let racts: Vec<(&str, Act)> = vec![("EIO", Act::Fail(env::EIO)), ("EINTR", Act::Fail(env::EINTR)), ("one byte", Act::Short(1))];
        let (nr, r2) = (racts.len(), racts.clone());
        let total = reads + 1;
        spaces.push(Space::new(
            "reads",
            &format!("{ns} scenarios, each of the first {reads} reads of the source fails, is interrupted or cut short, or all of them are cut short: the save fails leaving the target, or writes the complete package"),
            (ns * total * nr) as u64,
            move |i| {
                let mut g = Dig(i);
                let (a, k, p) = (g.take(nr), g.take(ns), g.take(total));
                format!("{}: read {}: {}", s2[k].name, if p == 0 { "all".into() } else { (p - 1).to_string() }, r2[a].0)
            },
            move |i, w| {
                let mut g = Dig(i);
                let (a, k, p) = (g.take(nr), g.take(ns), g.take(total));
                let mut out = Out::default();
                if p == 0 && a == 1 {
                    return out; // interrupted for ever
                }
                if p > 0 && p - 1 >= d[k].1 {
                    return out;
                }
                let mut fs = Fs { read_plan: Some((if p == 0 { usize::MAX } else { p - 1 }, racts[a].1.clone())), ..Default::default() };
                let r = go(&s[k], &w.dir.join("w").to_string_lossy(), &mut fs, 0);
                judge(&s[k], &r, &d[k].2, &mut out, false);
                fin(&mut out, &fs, &r, a);
                out
            },
        ));
    }
    // targets that cannot be written, saves refused by the library
    {
        let (s, s2) = (sc.clone(), sc.clone());
        const T: &[&str] = &["a directory", "in a directory that does not exist", "in a file", "empty path", "a full directory", "a name too long", "with a handle still out", "a directory with a trailing slash", "symbolic link to the source"];
        let nt = T.len();
        spaces.push(Space::new(
            "bad-targets",
            &format!("{ns} scenarios with {nt} targets that cannot be replaced: an error, nothing changed"),
            (ns * nt) as u64,
            move |i| format!("{}: target {}", s2[i as usize / nt].name, T[i as usize % nt]),
            move |i, w| bad_target(&s[i as usize / nt], i as usize % nt, w),
        ));
    }
    // the biggest space goes last
    if let Some(i) = spaces.iter().position(|s| s.name == "two-faults") {
        let s = spaces.remove(i);
        spaces.push(s);
    }
    Check {
        id: "C12",
        level: "fault_enumeration",
        rule: "a case is a scenario (document kind, source, what is at the target, edits) with a plan of faults over the numbered file system calls the real library makes (libc entry points replaced in the harness); afterwards the directory is compared with the old target, the source and the package an undisturbed run writes; distinct by scenario and plan; points past the last call of a run are counted as trivial",
        assumptions: vec![
            "the process dies, the system does not: completed calls are in effect after a crash, in order",
            "the target is judged for runs over an existing file; a failed save to a new path may leave a partial new file",
            "the library reaches the file system through the libc calls listed in env.rs (checked: the log of an undisturbed save is not empty)",
        ],
        spaces,
    }
}
fn shape(e: &Ev) -> String {
    match e {
        Ev::Open { creat, trunc, excl, existed, .. } => format!("open {creat} {trunc} {excl} {existed}"),
        Ev::Write { .. } => "write".into(),
        Ev::Trunc { .. } => "trunc".into(),
        Ev::Unlink { .. } => "unlink".into(),
        Ev::Rename { .. } => "rename".into(),
        Ev::Link { .. } => "link".into(),
        Ev::Mkdir { .. } => "mkdir".into(),
        Ev::Sync { .. } => "sync".into(),
        Ev::Read { .. } => "read".into(),
    }
}
fn fin(out: &mut Out, fs: &Fs, r: &Done, tag: usize) {
    out.transitions = fs.log.len() as u64;
    out.nontrivial = fs.fired;
    let log: Vec<String> = fs.log.iter().map(shape).collect();
    out.states = (0..log.len().min(64)).map(|i| h64(&(&log[..=i], tag))).collect();
    out.outcome = h64(&(r.res.is_ok(), r.target == r.before, r.files.len(), log.len()));
    if fs.log.is_empty() && r.res.is_ok() {
        panic!("harness: a save without a file system call under control");
    }
}
/// The next save, undisturbed, into the directory the first one left behind.
fn again(s: &Scen, dir: &str, want: &[u8], out: &mut Out, crash: bool) {
    let target = format!("{dir}/{}", s.file);
    let src = format!("{dir}/again");
    let left: Vec<String> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    let open = s.src.as_ref().map(|b| {
        std::fs::write(&src, b).expect("harness: source");
        src.clone()
    });
    let r = act(s, open.as_deref(), &target);
    match r {
        Res::Ok(()) => match std::fs::read(&target) {
            Err(_) => out.bad("the next save reports success, there is no file"),
            Ok(t) => {
                if let Some(e) = complete(&t, want) {
                    out.bad(format!("the save after it reports success, the file is not complete: {e}"));
                }
                for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
                    let n = e.file_name().to_string_lossy().into_owned();
                    if n != s.file && n != "again" && !left.contains(&n) {
                        out.bad("the save after it leaves another file behind");
                    }
                }
            }
        },
        Res::Panic(p) => out.bad(p),
        Res::Err(_) => {}
    }
}
fn bad_target(s: &Scen, t: usize, w: &Scratch) -> Out {
    let mut out = Out::default();
    let dir = w.dir.join("w");
    let _ = std::fs::create_dir_all(dir.join("d"));
    let p = |n: &str| dir.join(n).to_string_lossy().into_owned();
    std::fs::write(p("d/inside"), OTHER).expect("harness");
    std::fs::write(p("file"), OTHER).expect("harness");
    let open_path = s.src.as_ref().map(|b| {
        std::fs::write(p("source"), b).expect("harness");
        p("source")
    });
    let list = |d: &Path| {
        let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
        fn rec(d: &Path, v: &mut Vec<(String, Option<Vec<u8>>)>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let q = e.path();
                v.push((q.to_string_lossy().into_owned(), std::fs::read(&q).ok()));
                if q.is_dir() && !q.is_symlink() {
                    rec(&q, v);
                }
            }
        }
        rec(d, &mut v);
        v.sort();
        v
    };
    if t == 8 {
        if s.src.is_none() {
            return out;
        }
        std::os::unix::fs::symlink(p("source"), p("link")).expect("harness: link");
    }
    let before = list(&dir);
    let target = match t {
        0 => p("d"),
        1 => p("none/t"),
        2 => p("file/t"),
        3 => String::new(),
        4 => p("d/../d"),
        5 => p(&"n".repeat(256)),
        7 => p("d/"),
        8 => p("link"),
        _ => p("file"),
    };
    let r = if t == 6 {
        if s.kind != DocKind::Excel {
            return out;
        }
        let mut x = match open(open_path.as_deref()) {
            Res::Ok(x) => x,
            r => {
                out.bad(format!("open: {}", r.show()));
                return out;
            }
        };
        let h = if s.src.is_some() { x.get("A") } else { x.add(Some("A")) };
        let Res::Ok(h) = h else {
            out.bad(format!("sheet: {}", h.show()));
            return out;
        };
        let r = x.save(&target);
        ws_drop(h);
        r
    } else {
        act(s, open_path.as_deref(), &target)
    };
    match &r {
        Res::Panic(p) => out.bad(p.clone()),
        Res::Ok(()) if t == 6 => {
            // with the handle's content, or refused
            match std::fs::read(&target).map_err(|e| e.to_string()).and_then(|b| Book::read(&b)) {
                Ok(b) => {
                    let has = b.sheet("A").is_some_and(|s| s.xml.kid("sheetData").is_some());
                    if !has {
                        out.bad("a save with a handle out lost the sheet");
                    }
                }
                Err(e) => out.bad(format!("a save with a handle out: {e}")),
            }
        }
        Res::Ok(()) if t == 8 => {
            if std::fs::read(&target).map_err(|e| e.to_string()).and_then(|b| Package::read(&b).map(|_| ())).is_err() {
                out.bad("a save over a symbolic link reports success, the target is not complete");
            }
        }
        Res::Ok(()) => out.bad("save reports success"),
        Res::Err(_) => {
            if list(&dir) != before {
                out.bad("the refused save changed the directory");
            }
        }
    }
    out.transitions = 1;
    out.nontrivial = true;
    out.outcome = h64(&(t, r.is_ok()));
    out.states = vec![t as u64];
    out
}
