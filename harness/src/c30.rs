//! C30: feedback shown to the user belongs to the node and output asked for.
use crate::eng::*;
use crate::mc::*;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};

const NODES: [NodeId; 4] = [NodeId::Rust1x1(0), NodeId::Rust1x1(1), NodeId::Rust1x1(2), NodeId::Inp(0)];
const POS: [(usize, usize); 4] = [(0, 0), (1, 0), (2, 0), (0, 1)];
fn outs(n: usize) -> usize {
    if n == 3 { 2 } else { 1 }
}
/// what node `n` produces last in block `b`: outputs, led, phase
fn produced(n: usize, b: usize) -> (Vec<f32>, f32, Option<f32>) {
    let b = b as f32;
    if n == 3 {
        (vec![0.25 + b, -0.5 - b], 0.25 + b, None)
    } else {
        let i = n as f32;
        (vec![100.0 * (i + 1.0) + b], 0.5 * b + 10.0 * (i + 1.0), Some(-0.25 * b - 7.0 * (i + 1.0)))
    }
}
fn source(i: usize, block: &Arc<AtomicUsize>) -> Box<dyn DynamicNode1x1> {
    let block = block.clone();
    Box::new(move |_inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
        let (o, l, p) = produced(i, block.load(Ordering::SeqCst));
        let n = out.len();
        for (k, x) in out.iter_mut().enumerate() {
            *x = if k + 1 == n { o[0] } else { -(k as f32) - 0.5 };
        }
        ctx.led_value().set(l);
        ctx.phase_value().set(p.unwrap());
    })
}
fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-5 * b.abs().max(1.0)
}

#[derive(Clone)]
struct Prog {
    epoch: usize,
    life: usize,
    set: HashSet<usize>,
}
struct Rig {
    e: Eng,
    block: Arc<AtomicUsize>,
    /// number of clears: nodes live from one clear to the next
    life: usize,
    created: HashSet<usize>,
    cells: HashSet<usize>,
    front: Option<Prog>,
    audio: Option<Prog>,
    epochs: usize,
    led: HashMap<(usize, usize), (f32, Option<f32>)>,
    published: HashMap<usize, HashMap<usize, Vec<f32>>>,
    /// what the last fetch got, if it was after the last upload
    shown: Option<HashMap<usize, Vec<f32>>>,
    past: HashSet<(usize, usize, u32)>,
}
impl Rig {
    fn new() -> Rig {
        let mut e = engine(3, 2);
        e.m.set_dynamic_node1x1(7, source(0, &Arc::new(AtomicUsize::new(0))));
        Rig {
            e,
            block: Arc::new(AtomicUsize::new(0)),
            life: 0,
            created: HashSet::new(),
            cells: HashSet::new(),
            front: None,
            audio: None,
            epochs: 0,
            led: HashMap::new(),
            published: HashMap::new(),
            shown: None,
            past: HashSet::new(),
        }
    }
    fn uploaded(&mut self) {
        // an instance comes with all those of lower number
        let top = (0..3).filter(|n| self.cells.contains(n)).max();
        let mut need = self.cells.clone();
        need.extend(0..top.map(|t| t + 1).unwrap_or(0));
        let fresh: Vec<usize> = need.difference(&self.created).copied().collect();
        for n in fresh {
            self.created.insert(n);
            if n < 3 {
                self.e.m.set_dynamic_node1x1(n, source(n, &self.block));
            }
        }
        self.epochs += 1;
        self.front = Some(Prog { epoch: self.epochs, life: self.life, set: self.cells.clone() });
        self.shown = None;
    }
    fn render(&mut self, takeover: bool, frames: usize) {
        let b = self.block.fetch_add(1, Ordering::SeqCst) + 1;
        if takeover {
            self.e.x.process_graph_updates();
            self.audio = self.front.clone();
        }
        let (l, r) = (produced(3, b).0[0], produced(3, b).0[1]);
        let mut il = vec![0.125; frames];
        let mut ir = vec![0.0625; frames];
        il[frames - 1] = l;
        ir[frames - 1] = r;
        block2(&mut self.e.x, &il, &ir);
        if let Some(p) = self.audio.clone() {
            let pb = self.published.entry(p.epoch).or_default();
            for n in p.set.iter() {
                let (o, l, ph) = produced(*n, b);
                pb.insert(*n, o);
                self.led.insert((p.life, *n), (l, ph));
            }
        }
    }
    fn op(&mut self, o: usize, c: &mut Case) -> Result<(), String> {
        match o {
            0..=3 => {
                let (x, y) = POS[o];
                if self.cells.remove(&o) {
                    self.e.m.place(x, y, Cell::empty(NodeId::Nop));
                } else {
                    // the patch that can be loaded places the nodes elsewhere
                    self.e.m.place(x, y, Cell::empty(NODES[o]));
                    self.cells.insert(o);
                }
                self.e.m.sync().map_err(|e| format!("{:?}", e))?;
                self.uploaded();
                c.log(|| format!("toggle {} and sync", NODES[o]));
            }
            4 => {
                c.log(|| "audio".into());
                self.render(true, 5);
            }
            5 => {
                c.log(|| "audio that does not take over updates".into());
                self.render(false, 3);
            }
            6 => {
                c.log(|| "clear".into());
                self.e.m.clear();
                self.life += 1;
                self.created.clear();
                self.cells.clear();
                self.past.clear();
                self.uploaded();
            }
            7 => {
                c.log(|| "load a patch".into());
                static R: OnceLock<String> = OnceLock::new();
                let r = R.get_or_init(|| {
                    let mut e = engine(3, 2);
                    e.m.place(0, 0, Cell::empty(NodeId::Rust1x1(2)));
                    e.m.place(0, 1, Cell::empty(NodeId::Inp(0)));
                    e.m.place(1, 0, Cell::empty(NodeId::Rust1x1(0)));
                    e.m.sync().unwrap();
                    e.m.to_repr().serialize().to_string()
                });
                let r = MatrixRepr::deserialize(r).map_err(|e| format!("{:?}", e))?;
                self.e.m.from_repr(&r).map_err(|e| format!("{:?}", e))?;
                // from here on the cells hold other nodes than their home: put them home
                for (x, y) in [(0, 0), (1, 0)] {
                    self.e.m.place(x, y, Cell::empty(NodeId::Nop));
                }
                self.e.m.place(2, 0, Cell::empty(NodeId::Rust1x1(2)));
                self.e.m.place(0, 0, Cell::empty(NodeId::Rust1x1(0)));
                self.e.m.sync().map_err(|e| format!("{:?}", e))?;
                self.life += 1;
                self.created.clear();
                self.cells = [0, 2, 3].iter().copied().collect();
                self.past.clear();
                self.uploaded();
            }
            _ => {
                c.log(|| "fetch output feedback".into());
                self.e.m.update_output_feedback();
                let ep = self.front.as_ref().map(|p| p.epoch);
                let mut s = ep.and_then(|e| self.published.get(&e).cloned()).unwrap_or_default();
                for n in self.created.iter() {
                    s.entry(*n).or_insert_with(|| vec![0.0; outs(*n)]);
                }
                for (n, v) in s.iter() {
                    for (o, x) in v.iter().enumerate() {
                        self.past.insert((*n, o, x.to_bits()));
                    }
                }
                if self.front.is_some() {
                    self.shown = Some(s);
                }
            }
        }
        Ok(())
    }
    fn check(&mut self, c: &mut Case) -> Result<(), String> {
        let mut seen = vec![];
        for n in 0..4 {
            let id = NODES[n];
            let want = if self.created.contains(&n) { self.led.get(&(self.life, n)).copied().unwrap_or((0.0, Some(0.0))) } else { (0.0, Some(0.0)) };
            let led = self.e.m.led_value_for(&id);
            if !close(led, want.0) {
                return Err(format!("the LED of {} shows {}, the node produced {}", id, led, want.0));
            }
            let ph = self.e.m.phase_value_for(&id);
            if !close(ph, want.1.unwrap_or(0.0)) {
                return Err(format!("the phase of {} shows {}, the node produced {:?}", id, ph, want.1));
            }
            seen.push(led.to_bits());
            for o in 0..4u8 {
                let v = self.e.m.out_fb_for(&id, o);
                c.checks += 1;
                if !self.created.contains(&n) || o as usize >= outs(n) {
                    if v.is_some() {
                        return Err(format!("{} out {} does not exist, but shows {:?}", id, o, v));
                    }
                    continue;
                }
                seen.push(v.unwrap_or(-1.0).to_bits());
                match &self.shown {
                    Some(s) => {
                        let w = s.get(&n).map(|v| v[o as usize]).unwrap_or(0.0);
                        // a node that is no part of the running program has nothing to show
                        if !close(v.unwrap_or(0.0), w) {
                            return Err(format!("{} out {} shows {:?} after a fetch, the node produced {}", id, o, v, w));
                        }
                    }
                    None => {
                        if let Some(v) = v {
                            if v != 0.0 && !self.past.iter().any(|(a, b, x)| *a == n && *b == o as usize && close(v, f32::from_bits(*x))) {
                                return Err(format!("{} out {} shows {}, which that output never had", id, o, v));
                            }
                        }
                    }
                }
            }
        }
        for id in [NodeId::Sin(7), NodeId::Rust1x1(99), NodeId::Nop] {
            let l = self.e.m.led_value_for(&id);
            let p = self.e.m.phase_value_for(&id);
            let f = self.e.m.out_fb_for(&id, 0);
            if l != 0.0 || p != 0.0 || f.is_some() {
                return Err(format!("{} does not exist, but shows {} {} {:?}", id, l, p, f));
            }
        }
        c.observe(&seen);
        Ok(())
    }
}

/// reference of a filtered value: the extremes of the last ten samples taken
#[derive(Default)]
struct Filt {
    samples: Vec<f32>,
    stale: bool,
    out: (f32, f32),
}
impl Filt {
    fn new() -> Filt {
        Filt { stale: true, ..Default::default() }
    }
    fn get(&mut self, v: f32) -> (f32, f32) {
        if self.stale {
            self.stale = false;
            self.samples.push(v);
            let l = &self.samples[self.samples.len().saturating_sub(10)..];
            self.out = (l.iter().fold(0.0f32, |a, x| a.max(-x)), l.iter().fold(0.0f32, |a, x| a.max(*x)));
        }
        self.out
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every LED, phase and output value shown is the one the node and output asked for produced last; neutral answers for nodes that do not exist; filtered values are the extremes of the last ten samples".into();
    mc.assume("output feedback is fetched (update_output_feedback) before it is shown; a value shown before that may be an older one of the same output");
    const N: usize = 9;
    let depth = mc.pick(5, 6);
    mc.space("histories from an empty matrix", pow(N as u64, depth), move |idx, c| {
        let mut d = Dec(idx);
        let mut r = Rig::new();
        for _ in 0..depth {
            let o = d.take(N);
            c.step();
            r.op(o, c)?;
            r.check(c)?;
        }
        Ok(())
    });
    let depth = mc.pick(4, 5);
    mc.space("histories from a running patch", pow(N as u64, depth) * 3, move |idx, c| {
        let mut d = Dec(idx);
        let mut r = Rig::new();
        for o in [[3, 2, 1, 4, 0, 4, 8], [0, 1, 2, 3, 4, 8, 4], [7, 4, 1, 4, 8, 2, 4]][d.take(3)] {
            r.op(o, c)?;
        }
        r.check(c)?;
        for _ in 0..depth {
            let o = d.take(N);
            c.step();
            r.op(o, c)?;
            r.check(c)?;
        }
        Ok(())
    });
    // many nodes
    let most = mc.pick(280, 400);
    mc.space("patches of every size", most as u64, move |idx, c| {
        let n = idx as usize + 1;
        let id = |i: usize| if i < 200 { NodeId::Rust1x1(i as u8) } else { NodeId::Inp((i - 200) as u8) };
        let mut e = engine(20, 20);
        let b = Arc::new(AtomicUsize::new(3));
        for i in 0..n {
            e.m.place(i % 20, i / 20, Cell::empty(id(i)));
        }
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        for i in 0..n.min(200) {
            e.m.set_dynamic_node1x1(i, source(i + 4, &b));
        }
        for k in 0..2 {
            c.step();
            b.store(3 + k, Ordering::SeqCst);
            e.x.process_graph_updates();
            let p = produced(3, 3 + k).0;
            block2(&mut e.x, &[0.1, p[0]], &[0.1, p[1]]);
            e.m.update_output_feedback();
            for i in 0..n {
                let w = if i < 200 { produced(i + 4, 3 + k) } else { produced(3, 3 + k) };
                c.checks += 1;
                let id = id(i);
                if !close(e.m.led_value_for(&id), w.1) || !close(e.m.phase_value_for(&id), w.2.unwrap_or(0.0)) {
                    return Err(format!("{} of {} nodes: LED {} phase {}, the node produced {:?}", id, n, e.m.led_value_for(&id), e.m.phase_value_for(&id), w));
                }
                for (o, v) in w.0.iter().enumerate() {
                    let s = e.m.out_fb_for(&id, o as u8);
                    if !close(s.unwrap_or(f32::NAN), *v) {
                        return Err(format!("{} out {} of {} nodes shows {:?} instead of {}", id, o, n, s, v));
                    }
                }
            }
        }
        c.observe(&n);
        Ok(())
    });
    // filtered values
    let depth = mc.pick(6, 7);
    mc.space("filtered values", pow(6, depth), move |idx, c| {
        let mut d = Dec(idx);
        let mut e = engine(2, 2);
        e.m.place(0, 0, Cell::empty(NodeId::Inp(0)));
        e.m.place(1, 0, Cell::empty(NodeId::Inp(1)));
        e.m.sync().unwrap();
        let mut fl = [Filt::new(), Filt::new(), Filt::new()];
        let mut v = (0.0f32, 0.0f32);
        let mut fetched = (0.0f32, 0.0f32);
        let mut k = 0;
        for _ in 0..depth {
            c.step();
            match d.take(6) {
                o @ (0 | 1) => {
                    k += 1;
                    let s = if o == 0 { 1.0 } else { -1.0 };
                    v = (s * 0.1 * k as f32, s * -0.07 * k as f32);
                    e.x.process_graph_updates();
                    block2(&mut e.x, &[v.0], &[v.1]);
                    c.log(|| format!("audio {:?}", v));
                }
                2 => {
                    e.m.update_filters();
                    fetched = v;
                    for f in fl.iter_mut() {
                        f.stale = true;
                    }
                    c.log(|| "update_filters".into());
                }
                o => {
                    let (got, want) = match o {
                        3 => (e.m.filtered_led_for(&NodeId::Inp(0)), fl[0].get(v.0)),
                        4 => (e.m.filtered_out_fb_for(&NodeId::Inp(0), 1), fl[1].get(fetched.1)),
                        _ => (e.m.filtered_out_fb_for(&NodeId::Inp(1), 0), fl[2].get(fetched.0)),
                    };
                    c.checks += 1;
                    c.log(|| format!("query {} -> {:?}", o, got));
                    c.observe(&(got.0.to_bits(), got.1.to_bits()));
                    if !close(got.0, want.0) || !close(got.1, want.1) {
                        return Err(format!("filtered value {} is {:?} instead of {:?}", o, got, want));
                    }
                }
            }
        }
        Ok(())
    });
    mc.space("filtered values over many updates", 1 << mc.pick(13, 16), move |idx, c| {
        let mut e = engine(1, 1);
        e.m.place(0, 0, Cell::empty(NodeId::Inp(0)));
        e.m.sync().unwrap();
        let (mut led, mut out) = (Filt::new(), Filt::new());
        for k in 0..26u64 {
            c.step();
            let s = if idx >> (k % 13) & 1 == 1 { 1.0 } else { -1.0 };
            let a = ((k * 7 + idx) % 11) as f32 * 0.09;
            e.x.process_graph_updates();
            block2(&mut e.x, &[s * a], &[0.3 * s * a]);
            e.m.update_filters();
            led.stale = true;
            out.stale = true;
            let got = (e.m.filtered_led_for(&NodeId::Inp(0)), e.m.filtered_out_fb_for(&NodeId::Inp(0), 1));
            let want = (led.get(s * a), out.get(0.3 * s * a));
            c.checks += 2;
            c.observe(&(got.0 .0.to_bits(), got.0 .1.to_bits()));
            if !close(got.0 .0, want.0 .0) || !close(got.0 .1, want.0 .1) || !close(got.1 .0, want.1 .0) || !close(got.1 .1, want.1 .1) {
                return Err(format!("update {}: filtered values {:?} instead of {:?}", k, got, want));
            }
        }
        Ok(())
    });
}
