//! A rig around one node of any type, built directly with the NodeConfigurator:
//! every input can be driven by a scripted source and every output is recorded.
use crate::eng::*;
use hexodsp::dsp::*;
use hexodsp::nodes::*;
use hexodsp::*;

pub fn all_nodes() -> Vec<NodeId> {
    let mut v = vec![];
    for c in [
        UICategory::Osc,
        UICategory::Mod,
        UICategory::NtoM,
        UICategory::Signal,
        UICategory::Ctrl,
        UICategory::IOUtil,
    ] {
        c.get_node_ids(0, |n| v.push(n));
    }
    v
}

pub fn nin(n: NodeId) -> usize {
    NodeInfo::from_node_id(n).in_count()
}
pub fn nout(n: NodeId) -> usize {
    NodeInfo::from_node_id(n).out_count()
}
pub fn nat(n: NodeId) -> usize {
    NodeInfo::from_node_id(n).at_count()
}

/// scripted source signals, functions of the absolute frame
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig {
    /// smooth, in the parameter's own range, different per input
    Smooth(u32),
    /// short pulses with a period depending on the input
    Pulse(u32),
    /// long gates
    Gate(u32),
    Const(f32),
    /// zero for `skip` frames, then the lowest `n` bits of `bits` over and over, each for `hold` frames
    Word { bits: u32, n: u32, hold: u32, skip: u32 },
    /// `a` or `b`, as the lowest `n` bits of `bits` say, over and over
    Two { a: f32, b: f32, bits: u32, n: u32 },
    /// zero for `skip` frames, then a ramp from 0 to 1 every `period` frames, times `amp`
    Ramp { period: u32, skip: u32, amp: f32 },
    /// (frame + 1) / period
    Count(u32),
    /// steps through the values, `div` frames each, over and over
    Steps { vals: &'static [f32], div: usize },
    /// zero except for one frame
    Impulse { amp: f32, at: u32 },
    /// one value before the given frame, another one from there on
    Switch { a: f32, b: f32, at: u32 },
    /// a noise-like signal up to a frame, an impulse at another one
    Burst { amp: f32, until: u32, imp: f32, at: u32 },
}
impl Sig {
    pub fn at(self, f: usize) -> f32 {
        let tri = |p: usize, ph: usize| {
            let x = ((f + ph) % p) as f32 / p as f32;
            if x < 0.5 {
                4.0 * x - 1.0
            } else {
                3.0 - 4.0 * x
            }
        };
        match self {
            Sig::Smooth(k) => 0.6 * tri(97 + 13 * k as usize, 7 * k as usize) + 0.3 * tri(331, 50 * k as usize),
            Sig::Pulse(k) => {
                let p = 41 + 10 * k as usize;
                if (f + 3 * k as usize) % p < 2 {
                    1.0
                } else {
                    0.0
                }
            }
            Sig::Gate(k) => {
                let p = 150 + 20 * k as usize;
                if (f + 11 * k as usize) % p < p / 2 {
                    1.0
                } else {
                    0.0
                }
            }
            Sig::Const(v) => v,
            Sig::Impulse { amp, at } => if f == at as usize { amp } else { 0.0 },
            Sig::Switch { a, b, at } => if f < at as usize { a } else { b },
            Sig::Burst { amp, until, imp, at } => {
                if f < until as usize {
                    amp * (((f * 7919 + f * f * 31) % 1009) as f32 / 504.5 - 1.0)
                } else if f == at as usize {
                    imp
                } else {
                    0.0
                }
            }
            Sig::Steps { vals, div } => vals[(f / div) % vals.len()],
            Sig::Count(p) => (f + 1) as f32 / p as f32,
            Sig::Word { bits, n, hold, skip } => {
                if f < skip as usize {
                    return 0.0;
                }
                let k = ((f - skip as usize) / hold as usize) % n as usize;
                ((bits >> k) & 1) as f32
            }
            Sig::Two { a, b, bits, n } => {
                if (bits >> (f % n as usize)) & 1 == 1 {
                    b
                } else {
                    a
                }
            }
            Sig::Ramp { period, skip, amp } => {
                if f < skip as usize {
                    return 0.0;
                }
                amp * ((f - skip as usize) % period as usize) as f32 / period as f32
            }
        }
    }
}

pub fn source(sig: Sig) -> Box<dyn DynamicNode1x1> {
    source_slow(sig, 1)
}
/// every value of the signal for `k` frames
pub fn source_slow(sig: Sig, k: usize) -> Box<dyn DynamicNode1x1> {
    let mut f = 0usize;
    Box::new(move |_inp: &[f32], out: &mut [f32], _ctx: &DynNode1x1Context| {
        for o in out.iter_mut() {
            *o = sig.at(f / k);
            f += 1;
        }
    })
}

pub struct NRig {
    pub nc: NodeConfigurator,
    pub x: NodeExecutor,
    pub n: NodeId,
    pub logs: Vec<Log>,
    pub out: (Vec<f32>, Vec<f32>),
    pub frame: usize,
    pub drive: Vec<Option<Sig>>,
}

pub const SRC: usize = 40;
pub const SNK: usize = 80;

impl NRig {
    /// creates the nodes; `upload` then makes them run
    pub fn new(n: NodeId, drive: &[Option<Sig>]) -> Self {
        Self::with(n, drive, false)
    }
    /// `quiet`: the outputs are connected, but not recorded
    pub fn with(n: NodeId, drive: &[Option<Sig>], quiet: bool) -> Self {
        Self::slow(n, drive, quiet, 1)
    }
    /// every value of the driving signals for `k` frames
    pub fn slow(n: NodeId, drive: &[Option<Sig>], quiet: bool, k: usize) -> Self {
        let (nc, mut x) = new_node_engine();
        x.no_logging();
        let mut r = NRig { nc, x, n, logs: vec![], out: (vec![], vec![]), frame: 0, drive: drive.to_vec() };
        r.nc.create_node(n);
        for (i, d) in drive.iter().enumerate() {
            if let Some(s) = d {
                r.nc.get_node_global().lock().unwrap().send_dynamic_node1x1(SRC + i, source_slow(*s, k));
                r.nc.create_node(NodeId::Rust1x1((SRC + i) as u8));
            }
        }
        for o in 0..nout(n) {
            let l = Log::default();
            r.nc.get_node_global().lock().unwrap().send_dynamic_node1x1(SNK + o, if quiet { source(Sig::Const(0.0)) } else { probe(&l) });
            r.nc.create_node(NodeId::Rust1x1((SNK + o) as u8));
            r.logs.push(l);
        }
        r
    }
    pub fn upload(&mut self) {
        let n = self.n;
        let mut p = self.nc.rebuild_node_ports();
        for (i, d) in self.drive.iter().enumerate() {
            if d.is_some() {
                self.nc.add_prog_node(&mut p, &NodeId::Rust1x1((SRC + i) as u8));
            }
        }
        self.nc.add_prog_node(&mut p, &n);
        for o in 0..self.logs.len() {
            self.nc.add_prog_node(&mut p, &NodeId::Rust1x1((SNK + o) as u8));
        }
        for (i, d) in self.drive.iter().enumerate() {
            if d.is_some() {
                self.nc.set_prog_node_exec_connection(&mut p, (n, i as u8), (NodeId::Rust1x1((SRC + i) as u8), 0));
            }
        }
        for o in 0..self.logs.len() {
            self.nc.set_prog_node_exec_connection(&mut p, (NodeId::Rust1x1((SNK + o) as u8), 0), (n, o as u8));
        }
        self.nc.upload_prog(p, true);
    }
    pub fn block(&mut self, n: usize) {
        self.x.process_graph_updates();
        let l: Vec<f32> = (0..n).map(|i| Sig::Smooth(20).at(self.frame + i)).collect();
        let r: Vec<f32> = (0..n).map(|i| Sig::Smooth(23).at(self.frame + i)).collect();
        let (a, b) = block2(&mut self.x, &l, &r);
        self.out.0.extend(a);
        self.out.1.extend(b);
        self.frame += n;
    }
    pub fn clear_logs(&mut self) {
        for l in self.logs.iter() {
            l.lock().unwrap().inp.clear();
        }
        self.out.0.clear();
        self.out.1.clear();
    }
    /// everything the node put out: its outputs, and the audio outputs
    pub fn streams(&self) -> Vec<Vec<f32>> {
        let mut v: Vec<Vec<f32>> = self.logs.iter().map(|l| l.lock().unwrap().inp.clone()).collect();
        v.push(self.out.0.clone());
        v.push(self.out.1.clone());
        v
    }
}

/// a value of input `i` of node `n` inside its documented range, k selects one of several
pub fn param_val(n: NodeId, i: usize, k: usize) -> f32 {
    let p = n.inp_param_by_idx(i).unwrap();
    if k == SHORT {
        return short_val(p).unwrap_or_else(|| p.as_atom_def().f());
    }
    let ((min, max), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
    let t = [0.35, 0.8, 0.55, 0.1, 0.95][(k + i) % 5];
    min + (max - min) * t
}

/// a variant of `param_val`: times are set to about 6 ms, everything else is left alone
pub const SHORT: usize = 9;
pub fn short_val(p: ParamId) -> Option<f32> {
    let ((min, max), _) = p.param_min_max()?;
    let mut best: Option<(f32, f32)> = None;
    for k in 0..=400 {
        let v = min + (max - min) * k as f32 / 400.0;
        let mut t = vec![];
        p.format(&mut t, v)?.ok()?;
        let t = String::from_utf8(t).ok()?;
        let (t, unit) = if let Some(t) = t.strip_suffix("ms") { (t, 1.0) } else if let Some(t) = t.strip_suffix("s") { (t, 1000.0) } else { continue };
        if let Ok(ms) = t.trim().parse::<f32>() {
            let d = (ms * unit - 6.0).abs();
            if best.map_or(true, |b| d < b.0) {
                best = Some((d, v));
            }
        }
    }
    best.map(|b| b.1)
}

pub fn short_sample(len: usize) -> SAtom {
    let v: Vec<f32> = (0..len).map(|i| ((i * 37) % 101) as f32 / 101.0 - 0.5).collect();
    SAtom::audio("x", std::sync::Arc::new(v))
}

/// (number of variants, apply variant k) of the settings of a node: one setting at a time through its whole range
pub fn setting_variants(n: NodeId) -> Vec<Vec<(ParamId, SAtom)>> {
    let mut v: Vec<Vec<(ParamId, SAtom)>> = vec![vec![]];
    for a in 0..nat(n) {
        let p = n.atom_param_by_idx(a).unwrap();
        match p.as_atom_def() {
            SAtom::Setting(def) => {
                let (mut lo, mut hi) = p.setting_min_max().unwrap_or((0, 1));
                if lo == 0 && hi == 0 {
                    // key sets: a bit mask
                    for m in [0x000, 0x001, 0xfff, 0x0a5, 0x555] {
                        v.push(vec![(p, SAtom::setting(m))]);
                    }
                    continue;
                }
                if hi - lo > 16 {
                    lo = 0;
                    hi = 3;
                }
                for s in lo..=hi {
                    if s != def {
                        v.push(vec![(p, SAtom::setting(s))]);
                    }
                }
            }
            SAtom::AudioSample(_) => {
                for x in v.iter_mut() {
                    x.push((p, short_sample(300)));
                }
            }
            SAtom::Param(_) => {
                v.push(vec![(p, SAtom::param(1.0))]);
            }
            _ => {}
        }
    }
    v
}
