//! Results do not depend on hash order, time, or other open documents.
use super::common::*;
use crate::books;
use crate::env;
use crate::sim::*;
use draviavemal_openxml_office::{document_2007::Word, presentation_2007::PowerPoint};
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- one document

#[derive(Clone, Debug)]
pub enum St {
    Open,
    Do(Op),
    Save,
}
#[derive(Clone)]
pub(super) struct Hist {
    pub(super) name: &'static str,
    pub(super) kind: DocKind,
    pub(super) src: Option<Vec<u8>>,
    pub(super) ops: Vec<Op>,
}
impl Hist {
    fn steps(&self) -> Vec<St> {
        let mut v = vec![St::Open];
        v.extend(self.ops.iter().cloned().map(St::Do));
        v.push(St::Save);
        v
    }
}
enum Doc {
    None,
    Xl(Xl),
    Word(Word),
    Ppt(PowerPoint),
}
/// Runs calls and records what they answer.
struct Player {
    kind: DocKind,
    src: Option<String>,
    out: String,
    doc: Doc,
    slots: BTreeMap<usize, WorkSheet>,
    ids: BTreeMap<usize, StyleId>,
    log: Vec<String>,
    saved: Option<Vec<u8>>,
    dead: bool,
}
impl Player {
    fn new(kind: DocKind, src: Option<String>, out: String) -> Player {
        Player { kind, src, out, doc: Doc::None, slots: BTreeMap::new(), ids: BTreeMap::new(), log: vec![], saved: None, dead: false }
    }
    fn note<T>(&mut self, r: Res<T>, show: impl FnOnce(&T) -> String) -> Option<T> {
        match r {
            Res::Ok(v) => {
                self.log.push(format!("ok {}", show(&v)));
                Some(v)
            }
            Res::Err(e) => {
                let mut e = e;
                for (p, n) in [(self.src.as_deref().unwrap_or("\u{0}"), "SOURCE"), (self.out.as_str(), "TARGET")] {
                    e = e.replace(p, n);
                }
                self.log.push(format!("error {e}"));
                None
            }
            Res::Panic(p) => {
                self.log.push(p);
                self.dead = true;
                None
            }
        }
    }
    fn step(&mut self, s: &St) {
        if self.dead {
            return;
        }
        match s {
            St::Open => {
                let p = self.src.clone();
                match self.kind {
                    DocKind::Excel => {
                        let r = open(p.as_deref());
                        if let Some(x) = self.note(r, |_| String::new()) {
                            self.doc = Doc::Xl(x);
                        }
                    }
                    DocKind::Word => {
                        let r = call(|| Word::new(p, Word::default()));
                        if let Some(x) = self.note(r, |_| String::new()) {
                            self.doc = Doc::Word(x);
                        }
                    }
                    DocKind::Ppt => {
                        let r = call(|| PowerPoint::new(p, PowerPoint::default()));
                        if let Some(x) = self.note(r, |_| String::new()) {
                            self.doc = Doc::Ppt(x);
                        }
                    }
                }
                self.dead |= matches!(self.doc, Doc::None);
            }
            St::Save => {
                let out = self.out.clone();
                for (_, w) in std::mem::take(&mut self.slots) {
                    ws_drop(w);
                }
                let r = match std::mem::replace(&mut self.doc, Doc::None) {
                    Doc::Xl(mut x) => x.save(&out),
                    Doc::Word(w) => call(move || w.save_as(&out)),
                    Doc::Ppt(w) => call(move || w.save_as(&out)),
                    Doc::None => return,
                };
                if self.note(r, |_| String::new()).is_some() {
                    env_free(|| self.saved = std::fs::read(&self.out).ok());
                }
                self.dead = true;
            }
            St::Do(op) => self.op(op),
        }
    }
    fn xl<T>(&mut self, f: impl FnOnce(&mut Xl) -> Res<T>, show: impl FnOnce(&T) -> String) -> Option<T> {
        let Doc::Xl(x) = &mut self.doc else { return None };
        let r = f(x);
        self.note(r, show)
    }
    fn need(&mut self, k: usize) -> bool {
        if !self.ids.contains_key(&k) {
            if let Some(id) = self.xl(|x| x.style(style(k)), |i| format!("style {}", i.get_id())) {
                self.ids.insert(k, id);
            }
        }
        self.ids.contains_key(&k)
    }
    fn act(&mut self, w: &mut WorkSheet, a: &Act) {
        let need: Vec<usize> = match a {
            Act::Put(_, _, c, _) | Act::BadCells(_, _, c) => c.iter().filter_map(|c| c.s).collect(),
            Act::Row(_, r) => r.style.into_iter().collect(),
            Act::Col(_, Some(c), _) => c.style.into_iter().collect(),
            _ => vec![],
        };
        if !need.into_iter().all(|k| self.need(k)) {
            return;
        }
        let ids = &self.ids;
        let r = match a {
            Act::Put(r, c, v, _) | Act::BadCells(r, c, v) => {
                let v: Vec<CellProperties> = v.iter().map(|c| props(c, ids)).collect();
                ws_call(w, |w| w.set_row_value_index_mut(*r, *c as u16, v))
            }
            Act::BadRef(f) => ws_call(w, |w| w.set_row_value_ref_mut(f, vec![cell("7", CellDataType::Number)])),
            Act::BadIdx(r, c) => ws_call(w, |w| w.set_row_value_index_mut(*r, *c, vec![cell("7", CellDataType::Number)])),
            Act::Row(r, p) => {
                let mut x = RowProperties::default();
                x.height = p.ht;
                x.hidden = p.hidden;
                x.style_id = p.style.map(|k| ids[&k].clone());
                ws_call(w, |w| w.set_row_index_properties_mut(r, x))
            }
            Act::Col(c, p, _) => {
                let x = p.as_ref().map(|p| {
                    let mut x = ColumnProperties::default();
                    x.width = p.width;
                    x.hidden = p.hidden;
                    x.style_id = p.style.map(|k| ids[&k].clone());
                    x
                });
                let c = *c as u16;
                ws_call(w, |w| w.set_column_index_properties_mut(&c, x))
            }
            _ => Res::Ok(()),
        };
        self.note(r, |_| String::new());
    }
    fn op(&mut self, op: &Op) {
        let unit = |_: &()| String::new();
        match op {
            Op::Get(i, n) => {
                if let Some(w) = self.xl(|x| x.get(n), |_| "handle".into()) {
                    self.slots.insert(*i, w);
                }
            }
            Op::Add(i, n) => {
                if let Some(w) = self.xl(|x| x.add(*n), |_| "handle".into()) {
                    self.slots.insert(*i, w);
                }
            }
            Op::AddDrop(n) => {
                if let Some(w) = self.xl(|x| x.add(*n), |_| "handle".into()) {
                    ws_drop(w);
                }
            }
            Op::Drop(i) => {
                if let Some(w) = self.slots.remove(i) {
                    ws_drop(w);
                }
            }
            Op::Del(i) => {
                if let Some(w) = self.slots.remove(i) {
                    let r = ws_delete(w);
                    self.note(r, unit);
                }
            }
            Op::Do(i, a) => {
                if let Some(mut w) = self.slots.remove(i) {
                    self.act(&mut w, a);
                    self.slots.insert(*i, w);
                }
            }
            Op::On(n, a) => {
                if let Some(mut w) = self.xl(|x| x.get(n), |_| "handle".into()) {
                    self.act(&mut w, a);
                    ws_drop(w);
                }
            }
            Op::DelName(n) => {
                if let Some(w) = self.xl(|x| x.get(n), |_| "handle".into()) {
                    let r = ws_delete(w);
                    self.note(r, unit);
                }
            }
            Op::Rename(a, b) => drop(self.xl(|x| x.rename(a, b), unit)),
            Op::Active(n) => drop(self.xl(|x| x.active(n), unit)),
            Op::Hide(n) => drop(self.xl(|x| x.hide(n), unit)),
            Op::Vis(b) => drop(self.xl(|x| x.visibility(*b), unit)),
            Op::Min(b) => drop(self.xl(|x| x.minimize(*b), unit)),
            Op::Tabs(b) => drop(self.xl(|x| x.hide_tabs(*b), unit)),
            Op::Style(k) => {
                if let Some(id) = self.xl(|x| x.style(style(*k)), |i| format!("style {}", i.get_id())) {
                    self.ids.insert(*k, id);
                }
            }
            _ => {}
        }
        self.xl(|x| x.list(), |v| format!("{v:?}"));
    }
}
impl Drop for Player {
    fn drop(&mut self) {
        for (_, w) in std::mem::take(&mut self.slots) {
            ws_drop(w);
        }
        if let d @ (Doc::Word(_) | Doc::Ppt(_)) = std::mem::replace(&mut self.doc, Doc::None) {
            let _ = crate::engine::guard(move || drop(d));
        }
    }
}
/// Harness work that is no scheduling point.
fn env_free(f: impl FnOnce()) {
    let p = env::points_take();
    f();
    env::points_put(p);
}
#[derive(Clone, Default, Debug)]
pub(super) struct Ran {
    pub(super) log: Vec<String>,
    pub(super) saved: Option<Vec<u8>>,
}
impl Ran {
    fn of(mut p: Player) -> Ran {
        Ran { log: std::mem::take(&mut p.log), saved: p.saved.take() }
    }
}
pub(super) const CLOCK: i64 = 1_600_000_000;
/// In a thread of its own, with this seed and clock.
pub(super) fn solo(h: &Hist, dir: &str, seed: u64, clock: i64, twice: bool) -> Vec<Ran> {
    let _ = std::fs::create_dir_all(dir);
    let (h, dir) = (h.clone(), dir.to_string());
    let f = move || {
        env::begin(seed);
        env::set_clock(clock);
        let mut v = vec![];
        for i in 0..1 + twice as usize {
            let src = h.src.as_ref().map(|b| {
                let p = format!("{dir}/src{i}");
                std::fs::write(&p, b).expect("scratch");
                p
            });
            let mut p = Player::new(h.kind, src, format!("{dir}/out{i}"));
            for s in h.steps() {
                p.step(&s);
            }
            v.push(Ran::of(p));
        }
        v
    };
    std::thread::spawn(f).join().expect("harness: solo run")
}
/// b is what a is, apart from the times.
fn same(a: &Ran, b: &Ran, times: bool) -> Option<String> {
    if a.log != b.log {
        let i = (0..a.log.len().max(b.log.len())).find(|i| a.log.get(*i) != b.log.get(*i)).unwrap_or(0);
        return Some(format!("call {i} answered {:?} and {:?}", a.log.get(i), b.log.get(i)));
    }
    same_file(a.saved.as_deref(), b.saved.as_deref(), times)
}
fn same_file(a: Option<&[u8]>, b: Option<&[u8]>, times: bool) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(x), Some(y)) if x == y => None,
        (Some(x), Some(y)) => match (Package::read(x), Package::read(y)) {
            (Ok(mut x), Ok(mut y)) => {
                if times {
                    for p in [&mut x, &mut y] {
                        if let Some(n) = p.rel_target("", opc::R_CORE) {
                            if let Some(d) = p.parts.get_mut(&n) {
                                *d = without_time(d);
                            }
                        }
                    }
                }
                pkg_diff(&x, &y, true).into_iter().next()
            }
            (x, y) => x.err().or(y.err()),
        },
        _ => Some("one was saved and the other was not".into()),
    }
}
/// New documents have the time of their creation.
fn without_time(d: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(d).into_owned();
    s.replace("2020-09-13T12:26:40Z", "TIME").replace("2001-09-09T01:46:40Z", "TIME").replace("2096-10-02T07:06:40Z", "TIME").into_bytes()
}

// ---------------------------------------------------------------- schedules

struct S {
    turn: usize,
    done: Vec<bool>,
    step: usize,
    free: bool,
}
struct Sched {
    m: Mutex<S>,
    cv: Condvar,
    plan: Vec<usize>,
    reads: bool,
    /// runs at every point, with the index of the step
    watch: Box<dyn Fn(usize) + Send + Sync>,
}
struct Me {
    s: Arc<Sched>,
    i: usize,
}
impl Sched {
    fn wait(&self, mut g: std::sync::MutexGuard<S>, me: usize) {
        let mut seen = g.step;
        while g.turn != me && !g.free {
            let (h, t) = self.cv.wait_timeout(g, Duration::from_secs(2)).expect("sched");
            g = h;
            if t.timed_out() && g.step == seen {
                // the one whose turn it is waits for this one: the schedule cannot be kept
                g.free = true;
                self.cv.notify_all();
            }
            seen = g.step;
        }
    }
    fn start(&self, me: usize) {
        let g = self.m.lock().expect("sched");
        self.wait(g, me);
    }
    fn next(g: &S, me: usize) -> Option<usize> {
        let n = g.done.len();
        (1..n).map(|k| (me + k) % n).find(|k| !g.done[*k])
    }
    fn point(&self, me: usize) {
        let mut g = self.m.lock().expect("sched");
        let k = g.step;
        g.step += 1;
        (self.watch)(k);
        if self.plan.contains(&k) {
            if let Some(n) = Self::next(&g, me) {
                g.turn = n;
                self.cv.notify_all();
                self.wait(g, me);
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().expect("sched");
        g.done[me] = true;
        if let Some(n) = Self::next(&g, me) {
            g.turn = n;
        }
        self.cv.notify_all();
    }
}
fn at_point(p: *const (), read: bool) {
    let me = unsafe { &*(p as *const Me) };
    if !read || me.s.reads {
        me.s.point(me.i);
    }
}
/// One document in a thread of its own: source, target, steps.
#[derive(Clone)]
struct Prog {
    kind: DocKind,
    src: Option<String>,
    out: String,
    steps: Vec<St>,
}
/// Runs the programs under a schedule: who starts, and at which steps the turn goes on. The results
/// and the number of steps.
fn together(progs: &[Prog], first: usize, plan: &[usize], reads: bool, watch: Box<dyn Fn(usize) + Send + Sync>) -> (Vec<Ran>, usize) {
    let s = Arc::new(Sched { m: Mutex::new(S { turn: first, done: vec![false; progs.len()], step: 0, free: false }), cv: Condvar::new(), plan: plan.to_vec(), reads, watch });
    let hs: Vec<_> = progs
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, g)| {
            let s = s.clone();
            std::thread::spawn(move || {
                env::begin(100 + i as u64);
                env::set_clock(CLOCK);
                s.start(i);
                let me = Box::new(Me { s: s.clone(), i });
                env::points_on(&*me as *const Me as *const (), at_point);
                let r = crate::engine::guard(|| {
                    let mut p = Player::new(g.kind, g.src.clone(), g.out.clone());
                    for st in &g.steps {
                        p.step(st);
                        // what was saved is looked at when all is over
                    }
                    Ran::of(p)
                });
                env::points_off();
                s.finish(i);
                r.unwrap_or_else(|p| Ran { log: vec![p], saved: None })
            })
        })
        .collect();
    let v = hs.into_iter().map(|h| h.join().expect("harness: thread")).collect();
    let n = s.m.lock().expect("sched").step;
    (v, n)
}
/// All sets of up to k out of n, smallest first, as long as there are no more than cap.
fn choices(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &level {
            for x in s.last().map_or(0, |l| l + 1)..n {
                let mut t = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
fn binom(n: usize, k: usize) -> u64 {
    (0..k).fold(1u64, |a, i| a.saturating_mul((n - i) as u64) / (i as u64 + 1))
}
fn bound_for(n: usize, cap: u64) -> usize {
    let mut sum = 0u64;
    for k in 0..=n {
        sum += 2 * binom(n, k);
        if sum > cap {
            return k.saturating_sub(1).max(1);
        }
    }
    n
}
/// All merges of sequences with these lengths.
fn merges(lens: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

// ---------------------------------------------------------------- what is run

fn sources() -> Vec<(&'static str, Option<Vec<u8>>)> {
    vec![("plain", Some(books::plain().zip())), ("rich", Some(books::rich().zip())), ("new", None)]
}
fn alphabet() -> Vec<Op> {
    vec![
        Op::On("A", Act::Put(2, 2, vec![num("5"), txt("alpha")], false)),
        Op::On("A", Act::Put(1, 1, vec![txt("new"), fml("B1*2").st(0), none()], false)),
        Op::On("B", Act::Put(7, 3, vec![cs("true", CellDataType::Boolean).st(2)], false)),
        Op::On("A", Act::Col(3, Some(ColS { width: Some(9.0), style: Some(1), ..Default::default() }), false)),
        Op::On("A", Act::Row(2, RS { ht: Some(20.0), style: Some(3), ..Default::default() })),
        Op::On("A", Act::BadRef("A0")),
        Op::On("A", Act::BadCells(1, 1, vec![num("x")])),
        Op::AddDrop(None),
        Op::AddDrop(Some("N")),
        Op::DelName("B"),
        Op::Rename("A", "M"),
        Op::Rename("A", "B"),
        Op::Active("B"),
        Op::Hide("A"),
        Op::Tabs(true),
        Op::Style(4),
        Op::Style(2),
        Op::Get(0, "A"),
    ]
}
fn histories() -> Vec<Hist> {
    let w = |core: &str| fx::doc_pkg(true, Some(core)).zip();
    let put = |r: u32, c: u32, v: &'static str| Act::Put(r, c, vec![num(v), txt("s")], false);
    vec![
        Hist { name: "plain: write, style, add", kind: DocKind::Excel, src: Some(books::plain().zip()), ops: vec![Op::On("A", put(1, 1, "1")), Op::Style(0), Op::AddDrop(None), Op::On("B", Act::Put(3, 3, vec![txt("t").st(1)], false))] },
        Hist { name: "plain: a handle held", kind: DocKind::Excel, src: Some(books::plain().zip()), ops: vec![Op::Get(0, "A"), Op::Do(0, Act::Put(2, 1, vec![fml("A1").st(2)], false)), Op::Rename("B", "Z"), Op::Drop(0)] },
        Hist { name: "rich: delete, rename, write", kind: DocKind::Excel, src: Some(books::rich().zip()), ops: vec![Op::DelName("B"), Op::Rename("A", "Q"), Op::On("C", put(4, 4, "9")), Op::Style(3)] },
        Hist { name: "new: add, write, activate", kind: DocKind::Excel, src: None, ops: vec![Op::AddDrop(Some("X")), Op::On("X", put(1, 1, "2")), Op::Active("X"), Op::On("X", Act::Col(2, Some(ColS { width: Some(3.0), ..Default::default() }), false))] },
        Hist { name: "plain: refused calls", kind: DocKind::Excel, src: Some(books::plain().zip()), ops: vec![Op::Rename("A", "B"), Op::On("A", Act::BadRef("1A")), Op::Hide("nowhere"), Op::On("A", Act::BadCells(1, 1, vec![num("x")]))] },
        Hist { name: "a text document", kind: DocKind::Word, src: Some(w(fx::CORE)), ops: vec![] },
        Hist { name: "a presentation", kind: DocKind::Ppt, src: Some(fx::doc_pkg(false, Some(fx::CORE)).zip()), ops: vec![] },
    ]
}
fn listing(dir: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

/// Scenes for two threads: sources and targets by name; "T" is there before.
struct Scene {
    name: &'static str,
    /// history, source file (None: a file of its own), target
    progs: Vec<(usize, Option<&'static str>, &'static str)>,
    reads: bool,
}
fn scenes() -> Vec<Scene> {
    vec![
        Scene { name: "two workbooks saved to the same file", progs: vec![(0, None, "T"), (2, None, "T")], reads: false },
        Scene { name: "a new and an edited workbook saved to the same file", progs: vec![(3, None, "T"), (1, None, "T")], reads: false },
        Scene { name: "a text document and a workbook saved to the same file", progs: vec![(5, None, "T"), (0, None, "T")], reads: false },
        Scene { name: "two workbooks saved to two files", progs: vec![(0, None, "U"), (2, None, "V")], reads: false },
        Scene { name: "a workbook and a presentation saved to two files", progs: vec![(1, None, "U"), (6, None, "V")], reads: false },
        Scene { name: "both opened from one file and saved over it", progs: vec![(0, Some("T"), "T"), (1, Some("T"), "T")], reads: false },
        Scene { name: "one saved over the file the other opens", progs: vec![(0, Some("T"), "T"), (1, Some("T"), "U")], reads: false },
        Scene { name: "one saved over the file the other reads", progs: vec![(0, Some("T"), "T"), (4, Some("T"), "U")], reads: true },
    ]
}
/// Runs a scene under a schedule and judges it. The number of steps.
fn scene(s: &Scene, hs: &[Hist], first: usize, plan: &[usize], sc: &Scratch, out: &mut Out) -> usize {
    let base = sc.dir.to_string_lossy().into_owned();
    let dir = format!("{base}/together");
    let _ = std::fs::create_dir_all(&dir);
    let old = books::plain().zip();
    std::fs::write(format!("{dir}/T"), &old).expect("scratch");
    let mut expect_files = vec!["T".to_string()];
    let mut progs = vec![];
    for (i, (h, src, to)) in s.progs.iter().enumerate() {
        let h = &hs[*h];
        let src = match src {
            Some(f) => Some(format!("{dir}/{f}")),
            None => h.src.as_ref().map(|b| {
                let n = format!("src{i}");
                std::fs::write(format!("{dir}/{n}"), b).expect("scratch");
                expect_files.push(n.clone());
                format!("{dir}/{n}")
            }),
        };
        expect_files.push(to.to_string());
        progs.push(Prog { kind: h.kind, src, out: format!("{dir}/{to}"), steps: h.steps() });
    }
    expect_files.sort();
    expect_files.dedup();
    // alone, from every content its source may have
    let solo_of = |i: usize, src: Option<&[u8]>| {
        let mut h = hs[s.progs[i].0].clone();
        if let Some(b) = src {
            h.src = Some(b.to_vec());
        }
        solo(&h, &format!("{base}/solo"), 7, CLOCK, false).remove(0)
    };
    let shared = s.progs.iter().any(|p| p.1.is_some());
    let mut may: Vec<Vec<Ran>> = vec![];
    for i in 0..2 {
        let mut v = vec![solo_of(i, shared.then_some(&old[..]))];
        if shared && s.progs[1 - i].2 == "T" {
            let other = solo_of(1 - i, Some(&old));
            v.push(solo_of(i, other.saved.as_deref()));
        }
        may.push(v);
    }
    // the target is whole at every step
    let seen: Arc<Mutex<Vec<Vec<u8>>>> = Arc::new(Mutex::new(vec![]));
    let (s2, t2) = (seen.clone(), format!("{dir}/T"));
    let watch = move |_k: usize| {
        env_free(|| {
            let b = std::fs::read(&t2).unwrap_or_default();
            let mut g = s2.lock().expect("seen");
            if g.last() != Some(&b) {
                g.push(b);
            }
        });
    };
    let (ran, steps) = together(&progs, first, plan, s.reads, Box::new(watch));
    out.transitions += steps as u64;
    let whole = |b: &[u8]| b == old || may.iter().flatten().any(|r| same_file(r.saved.as_deref(), Some(b), false).is_none());
    for b in seen.lock().expect("seen").iter() {
        if !whole(b) {
            out.bad(format!("in between the target held {} bytes that are neither of the documents", b.len()));
        }
    }
    let mut key = vec![];
    for i in 0..2 {
        let k = may[i].iter().position(|m| m.log == ran[i].log);
        key.push(k);
        if k.is_none() {
            out.bad(format!("document {i}: answers {:?} instead of {:?}", ran[i].log, may[i][0].log));
        }
    }
    for to in s.progs.iter().map(|p| p.2).collect::<std::collections::BTreeSet<_>>() {
        let b = std::fs::read(format!("{dir}/{to}")).ok();
        let of: Vec<&Ran> = (0..2).filter(|i| s.progs[*i].2 == to).flat_map(|i| may[i].iter()).collect();
        let k = of.iter().position(|m| same_file(m.saved.as_deref(), b.as_deref(), false).is_none());
        if k.is_none() {
            out.bad(format!("{to} is none of the documents saved to it: {}", same_file(of[0].saved.as_deref(), b.as_deref(), false).unwrap_or_default()));
        }
        key.push(k);
    }
    let files = listing(&dir);
    if files != expect_files {
        out.bad(format!("files {files:?} instead of {expect_files:?}"));
    }
    out.states.push(h64(&(s.name, first, plan)));
    out.outcome = h64(&(s.name, key));
    steps
}

pub fn check(deep: bool) -> Check {
    let mut spaces = vec![];
    // hash seeds, times, repetition
    {
        let ops = Arc::new(alphabet());
        let depth = if deep { 3 } else { 2 };
        let seqs = Arc::new(sequences(&ops, depth));
        let srcs = Arc::new(sources());
        let seeds: u64 = if deep { 32 } else { 16 };
        let n = srcs.len() as u64;
        let dec = {
            let (ops, seqs, srcs) = (ops.clone(), seqs.clone(), srcs.clone());
            move |i: u64| -> Hist {
                let s = &srcs[(i % n) as usize];
                Hist { name: s.0, kind: DocKind::Excel, src: s.1.clone(), ops: seqs[(i / n) as usize].iter().map(|j| ops[*j as usize].clone()).collect() }
            }
        };
        let d2 = dec.clone();
        spaces.push(Space::new(
            "hash-seeds",
            &format!("every sequence of {} operations up to length {depth} on {n} sources, with {seeds} hash seeds, twice each in one thread, in the first three at other times", ops.len()),
            seqs.len() as u64 * n,
            move |i| {
                let h = dec(i);
                show_ops(h.name, &h.ops)
            },
            move |i, sc| {
                let h = d2(i);
                let mut out = Out { nontrivial: true, ..Default::default() };
                seeds_agree(&h, seeds, sc, &mut out);
                out
            },
        ));
        // documents of the other kinds, unusual packages
        let mut more: Vec<Hist> = histories();
        for k in 0..8usize {
            let mut w = books::rich();
            w.sheets.rotate_left(k % 3);
            for j in 0..k {
                w.extra.def(&format!("e{j}"), "application/x-e");
                w.extra.part(&format!("custom/p{j}.e{j}"), None, vec![j as u8; 4]);
                w.extra.rel("xl/workbook.xml", &format!("x{j}"), "urn:x", &format!("../custom/p{j}.e{j}"), false);
            }
            w.wb_attrs += &(0..k).map(|j| format!(" xmlns:p{j}=\"urn:p{j}\" p{j}:a{j}=\"{j}\"")).collect::<String>();
            for x in w.sheets.iter_mut() {
                x.2 = x.2.replacen("<worksheet ", &format!("<worksheet {} ", (0..k).map(|j| format!("xmlns:p{j}=\"urn:p{j}\" p{j}:a{j}=\"{j}\"")).collect::<Vec<_>>().join(" ")), 1);
            }
            more.push(Hist { name: ["no more names", "one more name", "2 more names", "3 more names", "4 more names", "5 more names", "6 more names", "7 more names"][k], kind: DocKind::Excel, src: Some(w.zip()), ops: vec![Op::On("A", Act::Put(1, 1, vec![num("1").st(0), txt("x")], false)), Op::AddDrop(None), Op::Style(2), Op::DelName("B")] });
            for word in [true, false] {
                let core = fx::CORE.replacen("<cp:coreProperties ", &format!("<cp:coreProperties {} ", (0..k).map(|j| format!("xmlns:p{j}=\"urn:p{j}\" p{j}:a{j}=\"{j}\"")).collect::<Vec<_>>().join(" ")), 1);
                more.push(Hist { name: "core properties with further names", kind: if word { DocKind::Word } else { DocKind::Ppt }, src: Some(fx::doc_pkg(word, Some(&core)).zip()), ops: vec![] });
            }
        }
        // relationships of sheets under another prefix, beside names that end alike
        for (name, attrs) in [("sheets with a further id", " z:id=\"q7\""), ("sheets with two further ids", " a:id=\"rId2\" z:id=\"rId1\"")] {
            let mut p = books::rich().pkg();
            let wb = p.parts.iter_mut().find(|x| x.0 == "xl/workbook.xml").expect("fixture");
            let t = String::from_utf8_lossy(&wb.1).replace("xmlns:r=", "xmlns:rel=").replace(" r:id=", &format!("{attrs} rel:id=")).replacen("<workbook ", "<workbook xmlns:a=\"urn:a\" xmlns:z=\"urn:z\" ", 1);
            wb.1 = t.into_bytes();
            more.push(Hist { name, kind: DocKind::Excel, src: Some(p.zip()), ops: vec![Op::On("A", Act::Put(1, 1, vec![num("1"), txt("x")], false)), Op::AddDrop(None), Op::DelName("C")] });
        }
        let seeds2: u64 = if deep { 2000 } else { 200 };
        let (m1, m2) = (Arc::new(more.clone()), Arc::new(more));
        spaces.push(Space::new(
            "more-seeds",
            &format!("{} histories on workbooks, text documents and presentations with up to 7 further namespaces, content type defaults and relationships, each with {seeds2} hash seeds", m1.len()),
            m1.len() as u64,
            move |i| format!("{} ({i})", m1[i as usize].name),
            move |i, sc| {
                let mut out = Out { nontrivial: true, ..Default::default() };
                seeds_agree(&m2[i as usize], seeds2, sc, &mut out);
                out
            },
        ));
    }
    // two documents in one thread
    {
        let hs = Arc::new(histories());
        let mut idx: Vec<(usize, usize, u8, Vec<u8>)> = vec![];
        for a in 0..hs.len() {
            for b in a..hs.len() {
                let m = merges(&[hs[a].steps().len(), hs[b].steps().len()]);
                // 0: files of their own; 1: the same source; 2: the first is saved over the source of both
                let shared = hs[a].src.is_some() && hs[a].src == hs[b].src;
                for v in 0..if shared { 3 } else { 1 } {
                    for x in &m {
                        idx.push((a, b, v, x.clone()));
                    }
                }
            }
        }
        let i1 = Arc::new(idx);
        let (h2, i2) = (hs.clone(), i1.clone());
        spaces.push(Space::new(
            "interleaved",
            &format!("every pair of {} histories of up to 6 calls, every merge of their calls in one thread; with sources of their own, the same source, and the first saved over the common source", hs.len()),
            i1.len() as u64,
            move |i| {
                let (a, b, v, m) = &i2[i as usize];
                format!("{} / {}, {}, order {m:?}", h2[*a].name, h2[*b].name, ["own sources", "common source", "saved over the common source"][*v as usize])
            },
            move |i, sc| {
                let (a, b, v, m) = &i1[i as usize];
                let mut out = Out { nontrivial: true, ..Default::default() };
                interleaved(&[&hs[*a], &hs[*b]], *v, m, sc, &mut out);
                out
            },
        ));
    }
    // three documents
    {
        let hs: Vec<Hist> = histories().into_iter().map(|mut h| { h.ops.truncate(if deep { 2 } else { 1 }); h }).collect();
        let hs = Arc::new(hs);
        let mut idx: Vec<([usize; 3], u32)> = vec![];
        let mut ms: Vec<Vec<u8>> = vec![];
        let mut at: BTreeMap<Vec<usize>, (u32, u32)> = BTreeMap::new();
        let triples: Vec<[usize; 3]> = if deep { (0..7).flat_map(|a| (a..7).flat_map(move |b| (b..7).map(move |c| [a, b, c]))).filter(|t| t[0] != t[2] && (t[0] + t[1] + t[2]) % 5 == 0).collect() } else { vec![[0, 1, 2], [0, 2, 3], [0, 0, 0], [2, 4, 5], [1, 3, 6], [2, 2, 4], [3, 3, 5], [4, 5, 6]] };
        for t in &triples {
            let lens: Vec<usize> = t.iter().map(|k| hs[*k].steps().len()).collect();
            let (s, e) = *at.entry(lens.clone()).or_insert_with(|| {
                let s = ms.len() as u32;
                ms.extend(merges(&lens));
                (s, ms.len() as u32)
            });
            for m in s..e {
                idx.push((*t, m));
            }
        }
        let (i1, m1) = (Arc::new(idx), Arc::new(ms));
        let (h2, i2, m2) = (hs.clone(), i1.clone(), m1.clone());
        spaces.push(Space::new(
            "three",
            &format!("{} triples of histories of up to {} calls, every merge of their calls in one thread", triples.len(), if deep { 4 } else { 3 }),
            i1.len() as u64,
            move |i| {
                let (t, m) = &i2[i as usize];
                format!("{:?}, order {:?}", t.iter().map(|k| h2[*k].name).collect::<Vec<_>>(), m2[*m as usize])
            },
            move |i, sc| {
                let (t, m) = &i1[i as usize];
                let mut out = Out { nontrivial: true, ..Default::default() };
                interleaved(&t.iter().map(|k| &hs[*k]).collect::<Vec<_>>(), 0, &m1[*m as usize], sc, &mut out);
                out
            },
        ));
    }
    // two threads
    {
        let hs = Arc::new(histories());
        let scs = Arc::new(scenes());
        let mut idx: Vec<(usize, usize, Vec<usize>)> = vec![];
        let mut said = vec![];
        for (k, s) in scs.iter().enumerate() {
            // the number of steps, of the two orders without a switch
            let (h2, dir) = (hs.clone(), crate::engine::scratch_base().join(format!("probe{k}")));
            let _ = std::fs::create_dir_all(&dir);
            let n = std::thread::scope(|x| x.spawn(|| { let sc = Scratch::at(dir.clone()); let mut o = Out::default(); scene(s, &h2, 0, &[], &sc, &mut o).max({ clean(&dir); scene(s, &h2, 1, &[], &sc, &mut o) }) }).join()).unwrap_or(40);
            let _ = std::fs::remove_dir_all(&dir);
            let b = bound_for(n, if deep { 60_000 } else { 1500 });
            said.push(format!("{n}:{}", if b >= n { "all".to_string() } else { b.to_string() }));
            for c in choices(n, b) {
                for first in 0..2 {
                    idx.push((k, first, c.clone()));
                }
            }
        }
        let i1 = Arc::new(idx);
        let (s2, i2) = (scs.clone(), i1.clone());
        spaces.push(Space::new(
            "threads",
            &format!("{} scenes of two documents opened, worked on and saved in two threads; every schedule of their file-system calls and requests for randomness up to a number of preemptions (steps:preemptions of the scenes {})", scs.len(), said.join(", ")),
            i1.len() as u64,
            move |i| {
                let (k, f, p) = &i2[i as usize];
                format!("{}, thread {f} first, the turn passes at {p:?}", s2[*k].name)
            },
            move |i, sc| {
                let (k, f, p) = &i1[i as usize];
                let mut out = Out { nontrivial: true, ..Default::default() };
                scene(&scs[*k], &hs, *f, p, sc, &mut out);
                out
            },
        ));
    }
    Check {
        id: "C19",
        level: "model_checking",
        rule: "a case is a history of calls run with every hash seed of a set (and at other times, and twice), or histories of two or three documents in one merge of their calls, or two threads under one schedule of their system calls; answers and saved packages must be those of the history alone; every case compares at least two runs, so every case is non-trivial; distinct by history, merge and schedule",
        assumptions: vec![
            "hash tables take their seed from getrandom, which the check owns; a seed set is enumerated, not all orders",
            "packages are compared by information content; order of attributes and of content type entries is no information",
            "between two system calls a thread is not interrupted: the library keeps no state that threads share",
        ],
        spaces,
    }
}
fn clean(d: &std::path::Path) {
    let _ = std::fs::remove_dir_all(d);
    let _ = std::fs::create_dir_all(d);
}
fn seeds_agree(h: &Hist, seeds: u64, sc: &Scratch, out: &mut Out) {
    let dir = sc.dir.to_string_lossy().into_owned();
    let first = solo(h, &dir, 0, CLOCK, true);
    if let Some(p) = first[0].log.iter().find(|l| l.starts_with("panic")) {
        out.bad(p.clone());
    }
    if let Some(d) = same(&first[0], &first[1], false) {
        out.bad(format!("done again in the same thread: {d}"));
    }
    let mut raw = std::collections::BTreeSet::new();
    for s in 0..seeds {
        let clock = [1_000_000_000, 4_000_000_000, CLOCK][(s as usize).min(2)];
        for (k, r) in solo(h, &dir, s + 1, clock, s % 4 == 0).iter().enumerate() {
            out.transitions += r.log.len() as u64;
            raw.insert(h64(&r.saved));
            if let Some(d) = same(&first[0], r, clock != CLOCK) {
                out.bad(format!("with hash seed {}{}{}: {d}", s + 1, if clock != CLOCK { " and at another time" } else { "" }, if k > 0 { ", second time" } else { "" }));
            }
        }
    }
    out.states.extend(raw);
    out.outcome = h64(&first[0].log);
}
fn interleaved(hs: &[&Hist], variant: u8, order: &[u8], sc: &Scratch, out: &mut Out) {
    let base = sc.dir.to_string_lossy().into_owned();
    env::set_clock(CLOCK);
    let mut alone: Vec<Ran> = hs.iter().map(|h| solo(h, &format!("{base}/solo"), 7, CLOCK, false).remove(0)).collect();
    let common = format!("{base}/common");
    if variant > 0 {
        std::fs::write(&common, hs[0].src.as_ref().expect("shared source")).expect("scratch");
    }
    let mut ps: Vec<Player> = hs
        .iter()
        .enumerate()
        .map(|(i, h)| {
            let src = if variant > 0 {
                Some(common.clone())
            } else {
                h.src.as_ref().map(|b| sc.put("src", b))
            };
            Player::new(h.kind, src, if variant == 2 && i == 0 { common.clone() } else { sc.file("out") })
        })
        .collect();
    let mut at = vec![0; hs.len()];
    let steps: Vec<Vec<St>> = hs.iter().map(|h| h.steps()).collect();
    let mut saved_first = false;
    for i in order {
        let i = *i as usize;
        let s = &steps[i][at[i]];
        at[i] += 1;
        if variant == 2 && i == 1 && matches!(s, St::Open) && saved_first {
            let mut h = hs[1].clone();
            h.src = ps[0].saved.clone();
            alone[1] = solo(&h, &format!("{base}/solo"), 7, CLOCK, false).remove(0);
        }
        ps[i].step(s);
        out.transitions += 1;
        saved_first |= i == 0 && matches!(s, St::Save);
    }
    for (i, p) in ps.into_iter().enumerate() {
        let r = Ran::of(p);
        out.outcome ^= h64(&(i, &r.log));
        if let Some(d) = same(&alone[i], &r, false) {
            out.bad(format!("document {i} ({}): {d}", hs[i].name));
        }
    }
    out.states.push(h64(&(out.outcome, order)));
}
