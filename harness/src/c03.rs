use crate::eng::*;
use crate::layout::diff;
use crate::mc::*;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use std::collections::BTreeMap;

/// The frontend state the user believes in.
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    cells: BTreeMap<(usize, usize), (NodeId, [Option<u8>; 3], [Option<u8>; 3])>,
    params: BTreeMap<ParamId, (bool, i64)>, // (is setting, value*1000)
    amts: BTreeMap<ParamId, i64>,
}

const A0: NodeId = NodeId::Amp(0);
const A1: NodeId = NodeId::Amp(1);
const MX: NodeId = NodeId::Mix3(0);
const OUT: NodeId = NodeId::Out(0);
const INP: NodeId = NodeId::Inp(0);

type CellDef = ((usize, usize), NodeId, [Option<u8>; 3], [Option<u8>; 3]);
fn layouts() -> Vec<Vec<CellDef>> {
    let n = [None; 3];
    let o = |i: u8| [None, None, Some(i)];
    let t = |i: u8| [Some(i), None, None];
    vec![
        vec![((0, 0), INP, n, o(0)), ((0, 1), A0, t(0), o(0)), ((0, 2), OUT, t(0), n)],
        vec![((0, 0), A0, n, o(0)), ((0, 1), A1, t(0), o(0)), ((0, 2), OUT, t(1), n)],
        vec![((0, 0), INP, n, o(1)), ((0, 1), MX, t(0), o(0)), ((0, 2), OUT, t(0), n), ((1, 0), A0, n, n), ((1, 1), A1, n, n)],
        // the same nodes created in another order, with an amount target that changes its source
        vec![((1, 0), A1, n, o(0)), ((1, 1), A0, t(0), o(0)), ((1, 2), OUT, t(0), n)],
        vec![],
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    P(usize),
    Amt(usize, i64),
    NoAmt(usize),
    Lay(usize),
    Clear,
    Load(usize),
    Set(i64),
}

fn params() -> Vec<ParamId> {
    vec![pid(A0, "inp"), pid(A1, "inp"), pid(OUT, "vol"), pid(MX, "ch1"), pid(A0, "att")]
}

fn ops() -> Vec<Op> {
    vec![
        Op::P(0),
        Op::Lay(1),
        Op::Clear,
        Op::Amt(0, 500),
        Op::Load(0),
        Op::P(1),
        Op::Lay(0),
        Op::NoAmt(0),
        Op::Set(1),
        Op::Lay(2),
        Op::Load(1),
        Op::P(4),
        Op::Lay(3),
        Op::Amt(0, -250),
        Op::P(2),
        Op::Lay(4),
        Op::Amt(1, 300),
    ]
}

fn place(m: &mut Matrix, l: &Vec<CellDef>) {
    for x in 0..3 {
        for y in 0..3 {
            m.place(x, y, Cell::empty(NodeId::Nop));
        }
    }
    for (p, n, i, o) in l {
        m.place(p.0, p.1, Cell::empty(*n).input(i[0], i[1], i[2]).out(o[0], o[1], o[2]));
    }
}

fn patch(k: usize) -> (Model, MatrixRepr) {
    let mut m = Model::default();
    let l = &layouts()[if k == 0 { 1 } else { 0 }];
    for (p, n, i, o) in l {
        m.cells.insert(*p, (*n, *i, *o));
    }
    m.params.insert(pid(A0, "inp"), (false, 330 + 100 * k as i64));
    if k == 1 {
        m.amts.insert(pid(A0, "inp"), 700);
        m.params.insert(pid(OUT, "mono"), (true, 1));
    }
    let mut e = engine(3, 3);
    build(&mut e, &m);
    (m, e.m.to_repr())
}

fn build(e: &mut Eng, m: &Model) {
    let l: Vec<CellDef> = m.cells.iter().map(|(p, c)| (*p, c.0, c.1, c.2)).collect();
    place(&mut e.m, &l);
    for (p, v) in m.params.iter() {
        e.m.set_param(*p, if v.0 { SAtom::setting(v.1) } else { SAtom::param(v.1 as f32 / 1000.0) });
    }
    for (p, a) in m.amts.iter() {
        e.m.set_param_modamt(*p, Some(*a as f32 / 1000.0)).unwrap();
    }
    e.m.sync().unwrap();
}

const IN_L: f32 = 0.375;
const IN_R: f32 = -0.6875;

fn audio(e: &mut Eng, n: usize) -> (Vec<f32>, Vec<f32>) {
    e.x.process_graph_updates();
    block2(&mut e.x, &vec![IN_L; n], &vec![IN_R; n])
}

fn settle(e: &mut Eng) -> (Vec<f32>, Vec<f32>) {
    for _ in 0..6 {
        audio(e, 128);
        e.m.update_output_feedback();
    }
    audio(e, 16)
}

struct Run {
    e: Eng,
    m: Model,
    n: i64,
}

impl Run {
    fn apply(&mut self, op: Op, patches: &[(Model, MatrixRepr)]) -> Result<(), String> {
        self.n += 1;
        let ps = params();
        match op {
            Op::P(i) => {
                let v = 100 + 83 * self.n + 7 * i as i64;
                self.m.params.insert(ps[i], (false, v));
                self.e.m.set_param(ps[i], SAtom::param(v as f32 / 1000.0));
            }
            Op::Set(v) => {
                let p = pid(OUT, "mono");
                let old = self.m.params.get(&p).map(|x| x.1).unwrap_or(0);
                let v = if old == v { 0 } else { v };
                self.m.params.insert(p, (true, v));
                self.e.m.set_param(p, SAtom::setting(v));
            }
            Op::Amt(i, a) => {
                self.m.amts.insert(ps[i], a + self.n);
                self.e.m.set_param_modamt(ps[i], Some((a + self.n) as f32 / 1000.0)).map_err(|e| format!("{:?}", e))?;
            }
            Op::NoAmt(i) => {
                self.m.amts.remove(&ps[i]);
                self.e.m.set_param_modamt(ps[i], None).map_err(|e| format!("{:?}", e))?;
            }
            Op::Lay(k) => {
                let l = &layouts()[k];
                place(&mut self.e.m, l);
                self.m.cells = l.iter().map(|c| (c.0, (c.1, c.2, c.3))).collect();
                self.e.m.sync().map_err(|e| format!("{:?}", e))?;
            }
            Op::Clear => {
                self.e.m.clear();
                self.m = Model::default();
            }
            Op::Load(k) => {
                self.e.m.from_repr(&patches[k].1).map_err(|e| format!("{:?}", e))?;
                self.m = patches[k].0.clone();
            }
        }
        Ok(())
    }
    fn check(&mut self, c: &mut Case) -> Result<(), String> {
        let got = settle(&mut self.e);
        let mut f = engine(3, 3);
        build(&mut f, &self.m);
        let want = settle(&mut f);
        c.checks += 2;
        c.observe(&format!("{:?}", self.m));
        diff("left output after settling", &got.0, &want.0)?;
        diff("right output after settling", &got.1, &want.1)?;
        for p in params() {
            let exp = self.m.params.get(&p).map(|v| v.1 as f32 / 1000.0);
            let g = self.e.m.get_param(&p).map(|a| a.f());
            if let Some(v) = exp {
                if g != Some(v) {
                    return Err(format!("{}: value shown {:?}, set {}", p.name(), g, v));
                }
            }
            c.checks += 1;
            let ea = self.m.amts.get(&p).map(|a| *a as f32 / 1000.0);
            if self.e.m.get_param_modamt(&p) != ea {
                return Err(format!("{}: amount shown {:?}, set {:?}", p.name(), self.e.m.get_param_modamt(&p), ea));
            }
        }
        Ok(())
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution is a history of frontend edits and audio callbacks on the real engine; distinct observations are distinct final frontend states.".into();
    let patches: Vec<_> = (0..2).map(patch).collect();
    let al = ops();
    // every edit followed by no audio, a one frame block or a 64 frame block
    let gaps = [0usize, 64, 1];
    let hist = |idx: u64, na: usize, ng: usize, start: bool, c: &mut Case| -> Result<(), String> {
        let mut r = Run { e: engine(3, 3), m: Model::default(), n: 0 };
        if start {
            r.apply(Op::Lay(0), &patches)?;
            settle(&mut r.e);
        }
        for s in seq_at((na * ng) as u64, idx) {
            let (o, g) = (al[s % na], gaps[s / na]);
            c.log(|| format!("{:?} then {} frames", o, g));
            c.step();
            r.apply(o, &patches)?;
            if g > 0 {
                audio(&mut r.e, g);
                c.step();
            }
        }
        r.check(c)
    };
    let (na, ng, d) = mc.pick((17, 2, 3), (17, 3, 3));
    mc.space("edit-histories", seqs_upto((na * ng) as u64, d), |i, c| hist(i, na, ng, true, c));
    let (na, ng, d) = mc.pick((5, 2, 4), (11, 2, 4));
    mc.space("edit-histories-deeper", pow((na * ng) as u64, d), |i, c| {
        let off: u64 = (0..d).map(|k| pow((na * ng) as u64, k)).sum();
        hist(i + off, na, ng, true, c)
    });
    let (na, ng, d) = mc.pick((17, 1, 3), (17, 2, 3));
    mc.space("edit-histories-from-nothing", seqs_upto((na * ng) as u64, d), |i, c| hist(i, na, ng, false, c));

    // the audio callback runs in the middle of an edit: right before each of its queue operations
    let (na, d) = (17, 3);
    let pre = seqs_upto(na, d - 1);
    let pairs = mc.thorough();
    mc.space("audio-during-an-edit", pre * na * 4, |idx, c| {
        let mut dd = Dec(idx);
        let frames = [64usize, 0][dd.take(2)];
        let inside = dd.flag();
        let op = al[dd.take(na as usize)];
        let hist: Vec<Op> = seq_at(na, dd.0).into_iter().map(|s| al[s]).collect();
        let mut go = |at: &[usize], c: &mut Case| -> Result<usize, String> {
            let mut r = Run { e: engine(3, 3), m: Model::default(), n: 0 };
            r.apply(Op::Lay(0), &patches)?;
            settle(&mut r.e);
            for o in hist.iter() {
                r.apply(*o, &patches)?;
            }
            c.log(|| {
                if inside {
                    format!("{:?}, then {:?} during a callback of {} frames at operation {:?}", hist, op, frames, at)
                } else {
                    format!("{:?}, then during {:?} callbacks of {} frames at operations {:?}", hist, op, frames, at)
                }
            });
            let rp = &mut r as *mut Run;
            let mut callback = |_: usize| {
                let x = unsafe { &mut (*rp).e.x };
                x.process_graph_updates();
                if frames > 0 {
                    block2(x, &vec![IN_L; frames], &vec![IN_R; frames]);
                }
            };
            let mut edit = |_: usize| {
                let r = unsafe { &mut *rp };
                let res = r.apply(op, &patches);
                // as a UI does in every frame
                r.e.m.update_output_feedback();
                r.e.m.handle_graph_events();
                res
            };
            let (res, n) = if inside {
                // the edit happens while the callback runs
                let mut res = Ok(());
                let ((), n) = at_points(at, &mut |k| res = edit(k), || callback(0));
                if at.is_empty() {
                    res = edit(0);
                }
                (res, n)
            } else {
                at_points(at, &mut callback, || edit(0))
            };
            res?;
            c.steps += at.len() as u64 + 1;
            r.check(c)?;
            Ok(n)
        };
        let n = go(&[], c)?;
        for i in 0..n {
            go(&[i], c)?;
            if !inside && (pairs || hist.is_empty()) {
                for j in i + 1..n {
                    go(&[i, j], c)?;
                }
            }
        }
        Ok(())
    });

    // bursts: n edits without any audio in between, around the capacities
    let ns: Vec<usize> = if mc.thorough() {
        (0..1300).collect()
    } else {
        let mut v: Vec<usize> = (0..60).collect();
        v.extend([100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 505]);
        v.extend(508..520);
        v.extend([600, 700, 1023, 1024, 1025, 1100]);
        v
    };
    let kinds = 5;
    mc.space("bursts", (ns.len() * kinds * 2) as u64, |idx, c| {
        let mut d = Dec(idx);
        let kind = d.take(kinds);
        let audio_before = d.flag();
        let n = ns[d.take(ns.len())];
        let w = 8;
        // 60 amps in the matrix, summed up pairwise is not needed: one of them is heard
        let build60 = |e: &mut Eng| {
            for i in 0..60usize {
                e.m.place(1 + i % 7, i / 7, Cell::empty(NodeId::Amp(i as u8)).out(None, None, None));
            }
            for i in 0..4usize {
                // heard: four amps into a mixer
                e.m.place(0, 2 * i, Cell::empty(NodeId::Amp([0u8, 17, 41, 59][i])).out(None, None, Some(0)));
                if i < 3 {
                    e.m.place(0, 2 * i + 1, Cell::empty(NodeId::Mix3(0)).input(Some(i as u8), None, None));
                } else {
                    e.m.place(0, 2 * i + 1, Cell::empty(OUT).input(Some(1), None, None));
                }
            }
            e.m.place(0, 8, Cell::empty(NodeId::Mix3(0)).out(None, None, Some(0)));
            e.m.place(0, 9, Cell::empty(OUT).input(Some(0), None, None));
            e.m.sync().unwrap();
        };
        let mut e = engine(w, 10);
        build60(&mut e);
        if audio_before {
            settle(&mut e);
        }
        let mut vals: BTreeMap<ParamId, f32> = BTreeMap::new();
        let mut amts: BTreeMap<ParamId, f32> = BTreeMap::new();
        let mut mono = 0;
        c.log(|| format!("{} edits of kind {} at once, audio before: {}", n, kind, audio_before));
        for k in 0..n {
            c.step();
            let p = pid(NodeId::Amp((k % 60) as u8), if k / 60 % 2 == 0 { "inp" } else { "att" });
            let v = 0.001 * (k % 900) as f32 + 0.05;
            match kind {
                0 => {
                    vals.insert(p, v);
                    e.m.set_param(p, SAtom::param(v));
                }
                1 => {
                    vals.insert(pid(NodeId::Amp(0), "inp"), v);
                    e.m.set_param(pid(NodeId::Amp(0), "inp"), SAtom::param(v));
                }
                2 => {
                    mono = (k % 2) as i64;
                    e.m.set_param(pid(OUT, "mono"), SAtom::setting(mono));
                }
                3 => {
                    // amount changes: the first toggles, the others update in place
                    let p = pid(NodeId::Mix3(0), "ch1");
                    amts.insert(p, v);
                    e.m.set_param_modamt(p, Some(v)).unwrap();
                }
                _ => {
                    // one parameter change and a new program each time
                    if k % 8 == 0 {
                        e.m.sync().unwrap();
                    }
                    vals.insert(p, v);
                    e.m.set_param(p, SAtom::param(v));
                }
            }
        }
        for _ in 0..8 {
            audio(&mut e, 64);
            e.m.update_output_feedback();
        }
        let got = settle(&mut e);
        let mut f = engine(w, 10);
        build60(&mut f);
        for (p, v) in vals.iter() {
            f.m.set_param(*p, SAtom::param(*v));
        }
        f.m.set_param(pid(OUT, "mono"), SAtom::setting(mono));
        for (p, v) in amts.iter() {
            f.m.set_param_modamt(*p, Some(*v)).unwrap();
        }
        f.m.sync().unwrap();
        for _ in 0..8 {
            audio(&mut f, 64);
            f.m.update_output_feedback();
        }
        // all parameters of all 60 nodes, not only those heard
        let want = settle(&mut f);
        diff("left output", &got.0, &want.0)?;
        diff("right output", &got.1, &want.1)?;
        c.checks += 2;
        e.m.update_output_feedback();
        f.m.update_output_feedback();
        for i in 0..60u8 {
            let (a, b) = (e.m.out_fb_for(&NodeId::Amp(i), 0), f.m.out_fb_for(&NodeId::Amp(i), 0));
            c.checks += 1;
            if a != b {
                return Err(format!("Amp {} shows output {:?}, a fresh engine {:?}", i, a, b));
            }
        }
        c.observe(&(n, kind));
        Ok(())
    });
    mc.assume("callbacks run between frontend calls and, within a call, between any two operations on the lock free queues; the queue operations themselves are trusted to be atomic");
    mc.assume("the frontend polls (update_output_feedback) while it waits for the audio side, as a UI does every frame");
}
