use crate::alloc;
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::*;
use hexodsp::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Rate(f32),
    /// frames, whether the buffers had that size
    Proc(usize),
    Drop { audio: bool },
}
#[derive(Default)]
struct Book {
    /// (serial of the supplied node, event)
    ev: Vec<(usize, Ev)>,
    busy: Option<usize>,
    next: usize,
    bad: Option<String>,
}
type Bk = Arc<Mutex<Book>>;

/// A supplied node: records everything that is done with it; its output identifies it.
struct Sup {
    id: usize,
    bk: Bk,
    hook: Option<Box<dyn FnMut() + Send>>,
}
impl DynamicNode1x1 for Sup {
    fn set_sample_rate(&mut self, r: f32) {
        self.bk.lock().unwrap().ev.push((self.id, Ev::Rate(r)));
    }
    fn process(&mut self, inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context) {
        {
            let mut b = self.bk.lock().unwrap();
            if inp.len() != out.len() || ctx.alpha_slice().len() != inp.len() {
                b.bad = Some("buffers of different lengths".into());
            }
            b.busy = Some(self.id);
            b.ev.push((self.id, Ev::Proc(inp.len())));
        }
        if let Some(h) = &mut self.hook {
            h();
        }
        for (o, i) in out.iter_mut().zip(inp.iter()) {
            *o = i + self.id as f32;
        }
        self.bk.lock().unwrap().busy = None;
    }
}
impl Drop for Sup {
    fn drop(&mut self) {
        let mut b = self.bk.lock().unwrap();
        if b.busy == Some(self.id) {
            b.bad = Some(format!("node {} dropped while it was processing", self.id));
        }
        b.ev.push((self.id, Ev::Drop { audio: alloc::on_audio_thread() }));
    }
}
fn supply(bk: &Bk) -> (usize, Box<dyn DynamicNode1x1>) {
    let id = {
        let mut b = bk.lock().unwrap();
        b.next += 1;
        b.next
    };
    (id, Box::new(Sup { id, bk: bk.clone(), hook: None }))
}

/// Every supplied node is dropped exactly once, not on the audio thread, and never used afterwards.
fn check_lives(bk: &Bk, c: &mut Case) -> Result<(), String> {
    let b = bk.lock().unwrap();
    c.checks += 1;
    if let Some(e) = &b.bad {
        return Err(e.clone());
    }
    for id in 1..=b.next {
        let mut rate = None;
        let mut dead = false;
        for (_, e) in b.ev.iter().filter(|e| e.0 == id) {
            if dead {
                return Err(format!("node {} was used after it was dropped: {:?}", id, e));
            }
            match e {
                Ev::Rate(r) => rate = Some(*r),
                Ev::Proc(_) => {
                    if rate.is_none() {
                        return Err(format!("node {} processed before it was told the sample rate", id));
                    }
                }
                Ev::Drop { audio } => {
                    if *audio {
                        return Err(format!("node {} was dropped on the audio thread", id));
                    }
                    dead = true;
                }
            }
        }
        if !dead {
            return Err(format!("node {} was never dropped", id));
        }
    }
    c.observe(&b.ev.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>());
    Ok(())
}

/// number of multisets of size k out of n and the i-th of them, ascending
fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, k - 1, i, cur, out);
            cur.pop();
        }
    }
    rec(n, k, 0, &mut vec![], &mut out);
    out
}

/// everything in `schedule` runs on one thread
#[derive(Clone)]
struct OneThread(std::sync::Weak<Mutex<NodeGlobalData>>);
unsafe impl Send for OneThread {}
unsafe impl Sync for OneThread {}

const POINTS: usize = 6;

/// Schedules of installs against the steps of the audio thread.
fn schedule(at: &[usize], blocks: usize, rates: usize, c: &mut Case) -> Result<(), String> {
    let bk: Bk = Bk::default();
    let (mut nc, mut x) = new_node_engine();
    x.no_logging();
    let g = nc.get_node_global();
    // what is due at the current point of the schedule
    let due: Arc<Mutex<usize>> = Arc::new(Mutex::new(0));
    let install = {
        let (g, bk, due) = (OneThread(Arc::downgrade(&g)), bk.clone(), due.clone());
        move || {
            let g = &g;
            let n = std::mem::replace(&mut *due.lock().unwrap(), 0);
            for _ in 0..n {
                let (_, b) = supply(&bk);
                g.0.upgrade().unwrap().lock().unwrap().send_dynamic_node1x1(0, b);
            }
        }
    };
    // the three inner points are reached from within the processing of the nodes
    let stage: Arc<Mutex<[usize; 3]>> = Arc::new(Mutex::new([0; 3]));
    let mk = |k: usize| -> Box<dyn FnMut() + Send> {
        let (i, s, d) = (install.clone(), stage.clone(), due.clone());
        Box::new(move || {
            let n = std::mem::replace(&mut s.lock().unwrap()[k], 0);
            *d.lock().unwrap() = n;
            i();
        })
    };
    let helper = |k: usize| -> Box<dyn DynamicNode1x1> {
        let mut f = mk(k);
        Box::new(move |inp: &[f32], out: &mut [f32], _: &DynNode1x1Context| {
            f();
            out.copy_from_slice(inp);
        })
    };
    // the first node under test has the inner point within its own processing
    {
        let (id, _) = (bk.lock().unwrap().next + 1, ());
        bk.lock().unwrap().next = id;
        let n = Box::new(Sup { id, bk: bk.clone(), hook: Some(mk(1)) });
        g.lock().unwrap().send_dynamic_node1x1(0, n);
        g.lock().unwrap().send_dynamic_node1x1(1, helper(0));
        g.lock().unwrap().send_dynamic_node1x1(2, helper(2));
    }
    let ids = [NodeId::Rust1x1(1), NodeId::Rust1x1(0), NodeId::Rust1x1(2)];
    for n in ids.iter() {
        nc.create_node(*n);
    }
    nc.create_node(NodeId::Out(0));
    let mut p = nc.rebuild_node_ports();
    for n in ids.iter() {
        nc.add_prog_node(&mut p, n);
    }
    nc.add_prog_node(&mut p, &NodeId::Out(0));
    nc.set_prog_node_exec_connection(&mut p, (ids[1], 0), (ids[0], 0));
    nc.set_prog_node_exec_connection(&mut p, (ids[2], 0), (ids[1], 0));
    nc.set_prog_node_exec_connection(&mut p, (NodeId::Out(0), 0), (ids[2], 0));
    nc.upload_prog(p, true);
    let count = |p: usize| at.iter().filter(|a| **a == p).count();
    let now = |n: usize| {
        *due.lock().unwrap() = n;
        install();
    };
    let mut last = 0;
    for b in 0..blocks {
        let base = b * POINTS;
        c.step();
        if rates & (1 << b) != 0 {
            x.set_sample_rate(48000.0 + b as f32);
        }
        now(count(base));
        let before = bk.lock().unwrap().next;
        x.process_graph_updates();
        now(count(base + 1));
        *stage.lock().unwrap() = [count(base + 2), count(base + 3), count(base + 4)];
        let from = bk.lock().unwrap().ev.len();
        let n = [17, 64, 128, 1][b % 4];
        let (l, _) = block(&mut x, &vec![0.0; n]);
        *stage.lock().unwrap() = [0; 3];
        let upto = bk.lock().unwrap().next;
        let procs: Vec<(usize, Ev)> = bk.lock().unwrap().ev[from..].iter().filter(|e| matches!(e.1, Ev::Proc(_))).cloned().collect();
        c.log(|| format!("block {}: {:?}", b, procs));
        c.checks += 1;
        if procs.len() != 1 || procs[0].1 != Ev::Proc(n) {
            return Err(format!("block {} of {} frames was processed by {:?}", b, n, procs));
        }
        let id = procs[0].0;
        if id < before || id < last || id > upto {
            return Err(format!("block {} was processed by node {}; installed before it: {}, installed in it: up to {}, processing before: {}", b, id, before, upto, last));
        }
        last = id;
        if (l[n - 1] - id as f32).abs() > 1e-4 || (l[0] - id as f32).abs() > 1e-4 {
            return Err(format!("block {} put out {} instead of the signal of node {}", b, l[0], id));
        }
        // the rate in force, as told to the node
        let want = (0..=b).rev().find(|k| rates & (1 << k) != 0).map(|k| 48000.0 + k as f32).unwrap_or(44100.0);
        let told = bk.lock().unwrap().ev.iter().rev().find_map(|(i, e)| match e {
            Ev::Rate(r) if *i == id => Some(*r),
            _ => None,
        });
        if told != Some(want) {
            return Err(format!("node {} was told the sample rate {:?}, the engine runs at {}", id, told, want));
        }
        now(count(base + 5));
    }
    drop(x);
    drop(nc);
    drop(g);
    drop(install);
    check_lives(&bk, c)
}

const NOPS: usize = 9;
const NAMES: [&str; NOPS] =
    ["audio block", "install for 0", "install for 3", "place 0 and 3, sync", "remove 0, sync", "clear", "sample rate", "place 3 elsewhere, sync", "install twice for 0"];

#[derive(Clone, Copy, Default, Debug)]
struct Inst {
    /// exists in the engine (was created since the last clear)
    exists: bool,
    placed: bool,
    /// ever created: what is installed is kept only for the first creation
    used: bool,
    node: usize,
    /// an install while the instance did not exist, after it had existed: not specified
    vague: bool,
}

fn history(seq: &[usize], c: &mut Case) -> Result<(), String> {
    let bk: Bk = Bk::default();
    let mut e = engine(4, 3);
    let mut st = [Inst::default(); 2];
    let num = [0u8, 3u8];
    let mut rate = 44100.0;
    let mut blk = 0;
    let create = |s: &mut Inst| {
        if !s.exists {
            s.exists = true;
            if s.used {
                if !s.vague {
                    s.node = 0;
                }
            }
            s.used = true;
        }
    };
    let mut ops = seq.to_vec();
    ops.push(0);
    for (k, o) in ops.iter().enumerate() {
        c.step();
        c.log(|| NAMES[*o].to_string());
        match *o {
            0 => {
                blk += 1;
                let n = [64, 1, 128, 31][blk % 4];
                let from = bk.lock().unwrap().ev.len();
                e.x.process_graph_updates();
                let (l, r) = block(&mut e.x, &vec![0.0; n]);
                let evs = bk.lock().unwrap().ev[from..].to_vec();
                let procs: Vec<(usize, usize)> = evs.iter().filter_map(|(i, e)| if let Ev::Proc(n) = e { Some((*i, *n)) } else { None }).collect();
                let mut want: Vec<(usize, usize)> = st.iter().filter(|s| s.placed && s.node > 0).map(|s| (s.node, n)).collect();
                want.sort();
                let mut got = procs.clone();
                got.sort();
                c.checks += 1;
                if st.iter().any(|s| s.vague) {
                    if got.len() > 2 || got.windows(2).any(|w| w[0].0 == w[1].0) || got.iter().any(|g| g.1 != n) {
                        return Err(format!("a block of {} frames was processed by {:?}", n, got));
                    }
                } else if got != want {
                    return Err(format!("a block of {} frames was processed by (node, frames) {:?} instead of {:?}", n, got, want));
                } else {
                    for (s, o) in st.iter().zip([&l, &r]) {
                        let v = if s.placed { s.node as f32 } else { 0.0 };
                        if o.iter().any(|x| (x - v).abs() > 1e-4) {
                            return Err(format!("the output is {} instead of {}", o[0], v));
                        }
                    }
                }
                for (id, _) in got.iter() {
                    let told = bk.lock().unwrap().ev.iter().rev().find_map(|(i, e)| match e {
                        Ev::Rate(r) if i == id => Some(*r),
                        _ => None,
                    });
                    if told != Some(rate) {
                        return Err(format!("node {} was told the sample rate {:?}, the engine runs at {}", id, told, rate));
                    }
                }
            }
            1 | 2 | 8 => {
                let i = (*o == 2) as usize;
                for _ in 0..if *o == 8 { 2 } else { 1 } {
                    let (id, b) = supply(&bk);
                    e.m.set_dynamic_node1x1(num[i] as usize, b);
                    if st[i].used && !st[i].exists {
                        st[i].vague = true;
                    } else {
                        st[i].node = id;
                        st[i].vague = false;
                    }
                }
            }
            3 | 4 | 7 => {
                if *o != 7 {
                    let show = *o == 3;
                    for y in 0..2 {
                        e.m.place(0, y, Cell::empty(NodeId::Nop));
                    }
                    if show {
                        e.m.place(0, 0, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0)));
                        e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
                        create(&mut st[0]);
                    }
                    st[0].placed = show;
                    if show {
                        e.m.place(1, 0, Cell::empty(NodeId::Rust1x1(3)).out(None, None, Some(0)));
                        e.m.place(1, 1, Cell::empty(NodeId::Out(0)).input(Some(1), None, None));
                        for y in 0..2 {
                            e.m.place(2, y, Cell::empty(NodeId::Nop));
                        }
                        create(&mut st[1]);
                        st[1].placed = true;
                    }
                } else {
                    for y in 0..2 {
                        e.m.place(1, y, Cell::empty(NodeId::Nop));
                    }
                    e.m.place(2, 0, Cell::empty(NodeId::Rust1x1(3)).out(None, None, Some(0)));
                    e.m.place(2, 1, Cell::empty(NodeId::Out(0)).input(Some(1), None, None));
                    // the matrix creates the lower instances too
                    create(&mut st[0]);
                    create(&mut st[1]);
                    st[1].placed = true;
                }
                e.m.set_param(pid(NodeId::Out(0), "mono"), SAtom::setting(0));
                e.m.sync().map_err(|e| format!("{:?}", e))?;
            }
            5 => {
                e.m.clear();
                for s in st.iter_mut() {
                    s.exists = false;
                    s.placed = false;
                }
            }
            6 => {
                rate = 50000.0 + k as f32;
                e.x.set_sample_rate(rate);
            }
            _ => {}
        }
    }
    drop(e);
    check_lives(&bk, c)
}

pub fn run(mc: &mut Mc) {
    mc.rule = "each block is processed, whole and once, by exactly one supplied node: the one installed last before the block began, or one installed while it ran; every supplied node is told the sample rate in force before it processes, and is dropped once, not by the audio thread".into();
    mc.assume("after Matrix::clear a node must be installed again once the instance exists again (documented)");
    mc.assume("preemption points of the schedules: between the audio thread's calls and within the processing of the nodes; the hand over itself is one step (crate triple_buffer)");
    let (blocks, k) = mc.pick((3usize, 3usize), (4, 4));
    let mut sets = vec![];
    for j in 0..=k {
        sets.extend(multisets(blocks * POINTS, j));
    }
    let nr = 1usize << blocks;
    mc.space("schedules", (sets.len() * nr) as u64, |i, c| schedule(&sets[i as usize / nr], blocks, i as usize % nr, c));
    let depth = mc.pick(4, 5);
    mc.space("histories", seqs_upto(NOPS as u64, depth), |i, c| history(&seq_at(NOPS as u64, i), c));
}
