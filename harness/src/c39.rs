//! The preview graphs of the nodes.
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::{GraphAtomData, GraphFun};
use hexodsp::*;
use std::collections::BTreeMap;
use synfx_dsp::{sqrt4_to_pow4, EnvADSRParams, EnvRetrigADSR, PolyBlepOscillator, TriSawLFO, VPSOscillator};

/// the values a user interface has for the node
struct Data {
    n: NodeId,
    v: BTreeMap<u32, SAtom>,
}
impl GraphAtomData for Data {
    fn get(&self, i: u32) -> Option<SAtom> {
        self.v.get(&i).cloned()
    }
    fn get_denorm(&self, i: u32) -> f32 {
        match (self.v.get(&i), self.n.param_by_idx(i as usize)) {
            (Some(a), Some(p)) => p.denorm(a.f()),
            _ => 0.0,
        }
    }
    fn get_norm(&self, i: u32) -> f32 {
        self.v.get(&i).map(|a| a.f().clamp(0.0, 1.0)).unwrap_or(0.0)
    }
    fn get_phase(&self) -> f32 {
        0.77
    }
    fn get_led(&self) -> f32 {
        0.33
    }
}
impl Data {
    /// all defaults except those given
    fn new(n: NodeId, set: &[(&str, SAtom)]) -> Self {
        let mut v = BTreeMap::new();
        let mut i = 0;
        while let Some(p) = n.param_by_idx(i) {
            v.insert(p.inp() as u32, p.as_atom_def());
            i += 1;
        }
        for (name, a) in set {
            v.insert(n.inp_param(name).unwrap().inp() as u32, a.clone());
        }
        Data { n, v }
    }
    fn real(&self, name: &str) -> f32 {
        self.get_denorm(self.n.inp_param(name).unwrap().inp() as u32)
    }
    fn norm(&self, name: &str) -> f32 {
        self.get_norm(self.n.inp_param(name).unwrap().inp() as u32)
    }
    fn setting(&self, name: &str) -> i64 {
        self.v[&(self.n.inp_param(name).unwrap().inp() as u32)].i()
    }
}

fn draw(f: &mut GraphFun, d: &Data, n: usize, upto: usize) -> Vec<f32> {
    (0..upto).map(|i| f(d, i == 0, i as f32 / n as f32, (i + 1) as f32 / n as f32)).collect()
}

/// the times of the ADSR envelope are drawn in a compressed scale
fn compressed(x: f32) -> f32 {
    x.powf(0.3)
}

/// what is to be seen
fn want(d: &Data, n: usize) -> Vec<(f32, f32)> {
    let exact = |v: Vec<f32>| v.into_iter().map(|x| (x, 2e-4)).collect();
    match d.n {
        NodeId::Ad(_) => {
            let (a, z) = (d.norm("atk") * 0.5, d.norm("dcy") * 0.5);
            let (ash, dsh) = (d.real("ashp"), d.real("dshp"));
            (0..n)
                .map(|i| {
                    let (x, xn) = (i as f32 / n as f32, (i + 1) as f32 / n as f32);
                    // the roots are steep at the ends
                    let s = |x: f32, shape: f32| (sqrt4_to_pow4(x, shape), 2e-4 + (sqrt4_to_pow4((x + 1e-6).min(1.0), shape) - sqrt4_to_pow4((x - 1e-6).max(0.0), shape)).abs());
                    if x <= a && xn > a {
                        // the point next to the peak shows it
                        (1.0, 0.0)
                    } else if x <= a {
                        s(x / a, ash)
                    } else if x - a <= z && z >= 0.0001 {
                        s(1.0 - (x - a) / z, dsh)
                    } else {
                        (0.0, 0.0)
                    }
                })
                .collect()
        }
        NodeId::Adsr(_) => {
            let ms = |n: &str| compressed(d.real(n) / 1000.0) * 180.0;
            let mut p = EnvADSRParams::default();
            p.attack_ms = ms("atk");
            p.decay_ms = ms("dcy");
            p.release_ms = ms("rel");
            p.sustain = d.real("sus").clamp(0.0, 1.0);
            p.attack_shape = d.real("ashp");
            p.decay_shape = 1.0 - d.real("dshp").clamp(0.0, 1.0);
            p.release_shape = 1.0 - d.real("rshp").clamp(0.0, 1.0);
            let mut e = EnvRetrigADSR::new();
            e.set_sample_rate(200.0);
            exact((0..n).map(|i| if i == 0 { 0.0 } else { e.tick(if i as f32 / n as f32 > 0.7 { 0.0 } else { 1.0 }, &mut p).0 }).collect())
        }
        NodeId::BOsc(_) => {
            let mut o = PolyBlepOscillator::new(0.0);
            let (w, pw) = (d.setting("wtype"), d.real("pw"));
            let (f, r) = (2.0, 1.0 / 128.0);
            if w == 1 {
                for _ in 0..256 {
                    o.next_tri(f, r);
                }
            }
            exact((0..n)
                .map(|_| {
                    let s = match w {
                        0 => o.next_sin(f, r),
                        1 => o.next_tri(f, r),
                        2 => o.next_saw(f, r),
                        3 => o.next_pulse_no_dc(f, r, pw),
                        _ => o.next_pulse(f, r, pw),
                    };
                    (s + 1.0) * 0.45 + 0.05
                })
                .collect())
        }
        NodeId::VOsc(_) => {
            let mut o = VPSOscillator::new(0.0);
            let (dd, v, vs) = (d.real("d").clamp(0.0, 1.0), d.real("v").clamp(0.0, 1.0), d.real("vs").clamp(0.0, 20.0));
            let (damt, dist) = (d.real("damt"), d.setting("dist"));
            let v = VPSOscillator::limit_v(dd, v + vs);
            exact((0..n).map(|_| (synfx_dsp::apply_distortion(o.next(1.0, 1.0 / 128.0, dd, v), damt, dist as u8) + 1.0) * 0.5).collect())
        }
        _ => {
            let mut l = TriSawLFO::new();
            l.set_sample_rate(160.0);
            let t = d.norm("time").sqrt();
            l.set(5.0 - 4.0 * t, d.norm("rev"));
            exact((0..n).map(|_| l.next_unipolar()).collect())
        }
    }
}

fn grids(n: NodeId) -> Vec<(&'static str, Vec<SAtom>)> {
    let p = |v: &[f32]| v.iter().map(|x| SAtom::param(*x)).collect::<Vec<_>>();
    let s = |k: i64| (0..k).map(SAtom::setting).collect::<Vec<_>>();
    match n {
        NodeId::Ad(_) => vec![("atk", p(&[0.0, 0.0001, 0.13, 0.5, 1.0])), ("dcy", p(&[0.0, 0.0001, 0.2, 0.6, 1.0])), ("ashp", p(&[0.0, 0.5, 0.8, 1.0])), ("dshp", p(&[0.0, 0.3, 0.5, 1.0])), ("mult", s(3))],
        NodeId::Adsr(_) => vec![
            ("atk", p(&[0.0, 0.3, 0.7, 1.0])),
            ("dcy", p(&[0.0, 0.4, 1.0])),
            ("sus", p(&[0.0, 0.45, 1.0])),
            ("rel", p(&[0.0, 0.35, 1.0])),
            ("ashp", p(&[0.0, 0.5, 1.0])),
            ("dshp", p(&[0.0, 0.5, 1.0])),
            ("rshp", p(&[0.0, 0.5, 1.0])),
        ],
        NodeId::BOsc(_) => vec![("wtype", s(5)), ("pw", p(&[0.0, 0.2, 0.5, 0.77, 1.0])), ("det", p(&[0.0, 0.05])), ("freq", p(&[0.0, 0.2]))],
        NodeId::VOsc(_) => vec![
            ("d", p(&[0.0, 0.02, 0.3, 0.5, 0.97, 1.0])),
            ("v", p(&[0.0, 0.25, 0.5, 0.9, 1.0])),
            ("vs", p(&[0.0, 0.1, 0.6, 1.0])),
            ("damt", p(&[0.0, 0.3, 1.0])),
            ("dist", s(4)),
            ("ovrsmpl", s(2)),
        ],
        _ => vec![("time", p(&[0.0, 0.01, 0.25, 0.5, 0.9, 1.0])), ("rev", p(&[0.0, 0.1, 0.5, 0.8, 1.0])), ("trig", p(&[0.0, 1.0]))],
    }
}

fn pick(n: NodeId, mut i: u64) -> Data {
    let mut set = vec![];
    for (name, v) in grids(n) {
        set.push((name, v[(i % v.len() as u64) as usize].clone()));
        i /= v.len() as u64;
    }
    Data::new(n, &set)
}
fn size(n: NodeId) -> u64 {
    grids(n).iter().map(|g| g.1.len() as u64).product()
}

pub fn run(mc: &mut Mc) {
    mc.rule = "the curve drawn for every combination of settings on the grid, after every history of drawings, is the one of a newly made graph, and shows the envelope or waveform of the node with these settings".into();
    mc.assume("the curve of the audio nodes themselves is judged by C35 and C36; the references here use the same oscillator and envelope library at the rates of the graph");
    // makes the tables of the library
    let _engine = hexodsp::new_node_engine();
    let nodes = [NodeId::Ad(0), NodeId::Adsr(0), NodeId::BOsc(0), NodeId::VOsc(0), NodeId::TsLFO(0)];
    for n in nodes {
        mc.space(&format!("{} curves", n.name()), size(n), |i, c| {
            let d = pick(n, i);
            c.log(|| format!("{} {:?}", n, d.v));
            for pts in [128usize, 100, 37] {
                let mut f = n.graph_fun().ok_or("no graph")?;
                let have = draw(&mut f, &d, pts, pts);
                let want = want(&d, pts);
                c.step();
                c.checks += pts as u64;
                c.observe(&bits(&have));
                for k in 0..pts {
                    if !((have[k] - want[k].0).abs() <= want[k].1) {
                        return Err(format!("point {} of {} is {} instead of {}", k, pts, have[k], want[k].0));
                    }
                    if !matches!(n, NodeId::VOsc(_) | NodeId::BOsc(_)) && !(have[k] > -1e-4 && have[k] < 1.0001) {
                        return Err(format!("point {} of {} is outside of the graph: {}", k, pts, have[k]));
                    }
                }
            }
            Ok(())
        });
    }
    // what was drawn before makes no difference, be it complete or not, of this or another instance
    let step = mc.pick(3, 1);
    for n in nodes {
        let idx: Vec<u64> = (0..size(n)).step_by(step * if size(n) > 1000 { 11 } else { 1 }).collect();
        let k = idx.len() as u64;
        mc.space(&format!("{} redrawn", n.name()), k * k, |i, c| {
            let (a, b) = (pick(n, idx[(i / k) as usize]), pick(n, idx[(i % k) as usize]));
            c.log(|| format!("{} {:?} then {:?}", n, a.v, b.v));
            let fresh = draw(&mut n.graph_fun().ok_or("no graph")?, &b, 128, 128);
            for upto in [1usize, 50, 128] {
                let mut f = n.to_instance(3).graph_fun().ok_or("no graph")?;
                // another graph of the same kind is drawn at the same time
                let mut other = n.graph_fun().ok_or("no graph")?;
                draw(&mut other, &b, 128, 9);
                draw(&mut f, &a, 128, upto);
                draw(&mut other, &a, 128, 77);
                let have = draw(&mut f, &b, 128, 128);
                c.step();
                c.checks += 128;
                if bits(&have) != bits(&fresh) {
                    let at = (0..128).find(|k| have[*k].to_bits() != fresh[*k].to_bits()).unwrap();
                    return Err(format!("after {} points of another curve: point {} is {} instead of {}", upto, at, have[at], fresh[at]));
                }
                // and again
                let have = draw(&mut f, &b, 128, 128);
                if bits(&have) != bits(&fresh) {
                    return Err("the second drawing differs from the first".into());
                }
            }
            c.observe(&bits(&fresh));
            Ok(())
        });
    }
    // every node: having a graph or not, drawing the defaults gives numbers
    let all = all_nodes();
    mc.space("defaults", all.len() as u64, |i, c| {
        let n = all[i as usize];
        c.step();
        if let Some(mut f) = n.graph_fun() {
            let v = draw(&mut f, &Data::new(n, &[]), 128, 128);
            c.checks += 128;
            c.observe(&bits(&v));
            if v.iter().any(|x| !x.is_finite()) {
                return Err(format!("{} draws something that is not a number", n));
            }
            if v.windows(2).all(|w| w[0] == w[1]) {
                return Err(format!("{} draws a straight line", n));
            }
        }
        Ok(())
    });
}
