//! No signal makes a node fail: whatever is connected to its inputs, a node neither panics nor hangs nor
//! puts out anything that is not a number.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::*;

fn leak(v: Vec<f32>) -> &'static [f32] {
    Box::leak(v.into_boxed_slice())
}

/// the ways an input is used: not at all, lowest and highest parameter value, and signals
const NSRC: usize = 7;
fn source_of(n: NodeId, k: usize, i: usize, wide: bool) -> Option<Sig> {
    // alternate between the ends of the documented range
    let ((min, max), _) = n.inp_param_by_idx(i).unwrap().param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
    let (min, max) = if wide { (-1.0, 1.0) } else { (min, max) };
    let at = |v: &[f32]| leak(v.iter().map(|t| min + (max - min) * t).collect());
    match k {
        3 => Some(Sig::Steps { vals: at(&[1.0, 0.0]), div: 1 }),
        4 => Some(Sig::Steps { vals: at(&[1.0, 0.0]), div: 37 + i }),
        5 => Some(Sig::Steps { vals: at(&[0.5, 1.0, 0.0, 0.50001, 0.499, 0.75, 1.0, 1.0, 0.25, 0.0, 0.99999]), div: 11 + 3 * i }),
        6 => Some(Sig::Steps { vals: at(&[0.0, 0.02, 0.1, 0.3, 0.6, 0.9, 1.0, 0.8, 0.5, 0.2]), div: 2 }),
        _ => None,
    }
}
const RATES: [f32; 3] = [44100.0, 96000.0, 192000.0];

struct Use {
    i: usize,
    k: usize,
}

fn exec(n: NodeId, set: &[(ParamId, SAtom)], uses: &[Use], srate: f32, frames: usize, wide: bool, but_touchy: bool, c: &mut Case) -> Result<(), String> {
    c.log(|| format!("{} {:?}: {}", n, set, uses.iter().map(|u| format!("{}={}", n.inp_param_by_idx(u.i).unwrap().name(), ["default", "lowest", "highest", "alternating", "square", "values", "smooth", "negative", "positive"][u.k])).collect::<Vec<_>>().join(" ")));
    let mut drive = vec![None; nin(n)];
    for u in uses.iter() {
        drive[u.i] = source_of(n, u.k, u.i, wide);
    }
    let mut r = NRig::new(n, &drive);
    r.x.set_sample_rate(srate);
    crate::c07::prepare(&mut r);
    for (p, a) in set.iter() {
        r.nc.set_param(*p, a.clone());
    }
    for u in uses.iter() {
        let p = n.inp_param_by_idx(u.i).unwrap();
        if u.k == 1 || u.k == 2 {
            let ((min, max), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
            r.nc.set_param(p, SAtom::param(if u.k == 1 { min } else { max }));
        }
    }
    r.upload();
    for _ in 0..frames / 128 {
        r.block(128);
        c.step();
    }
    // the 24 dB Moog low pass with a modulated cutoff (see the known finding) is judged on its own
    let touchy = but_touchy && is_touchy(n, set, uses);
    let mut h = vec![];
    for (o, s) in r.streams().iter().enumerate() {
        for (f, v) in s.iter().enumerate() {
            c.checks += 1;
            if !wide && !touchy && !v.is_finite() {
                return Err(format!("{}: output {} is {} at frame {}", n, o, v, f));
            }
        }
        h.extend(bits(&s[s.len().saturating_sub(4)..].to_vec()));
    }
    c.observe(&h);
    Ok(())
}

/// every way of using the given inputs together
fn ways(ins: &[usize], ks: &[usize]) -> Vec<Vec<Use>> {
    let mut v = vec![];
    for x in 0..pow(ks.len() as u64, ins.len() as u32) {
        let mut d = Dec(x);
        v.push(ins.iter().map(|i| Use { i: *i, k: ks[d.take(ks.len())] }).collect());
    }
    v
}
type Job = (NodeId, Vec<(ParamId, SAtom)>, Vec<Use>);
fn jobs(size: usize, ks: &[usize]) -> Vec<Job> {
    let mut jobs = vec![];
    for n in all_nodes() {
        if let NodeId::Rust1x1(_) = n {
            continue;
        }
        for set in setting_variants(n) {
            let k = nin(n);
            if k < size && size > 2 {
                continue;
            }
            let size = size.min(k);
            for mask in 0..1u32 << k {
                if mask.count_ones() as usize == size {
                    let ins: Vec<usize> = (0..k).filter(|i| mask >> i & 1 == 1).collect();
                    for w in ways(&ins, ks) {
                        jobs.push((n, set.clone(), w));
                    }
                }
            }
        }
    }
    jobs
}

/// the Stilson/Moog filter of SFilter with a signal on its cutoff
fn is_touchy(n: NodeId, set: &[(ParamId, SAtom)], uses: &[Use]) -> bool {
    matches!(n, NodeId::SFilter(_)) && set.iter().any(|(p, a)| p.name() == "ftype" && a.i() == 13) && uses.iter().any(|u| u.k >= 3 && n.inp_param_by_idx(u.i).unwrap().name() == "freq")
}

pub fn run(mc: &mut Mc) {
    mc.rule = "One execution runs one node in one setting for several hundred frames with each of two or three of its inputs at the lowest or highest value or driven by one of four extreme signals, and checks that every output sample is a finite number; panics, integer overflows and endless loops are violations too.".into();
    mc.assume("sample rates from 44.1 kHz on; for signals outside of an input's documented range only panics, overflows and endless loops are judged");
    let frames = mc.pick(640, 2048);
    let th = mc.thorough();
    let j = jobs(2, &[0, 1, 2, 3, 4, 5, 6]);
    mc.space("pairs of inputs", j.len() as u64, |idx, c| {
        let (n, set, u) = &j[idx as usize];
        exec(*n, set, u, RATES[(idx % 3) as usize], frames, false, true, c)
    });
    let j = jobs(3, if th { &[1, 2, 3, 5] } else { &[2, 4] });
    mc.space("triples of inputs", j.len() as u64, |idx, c| {
        let (n, set, u) = &j[idx as usize];
        exec(*n, set, u, RATES[(idx % 3) as usize], frames, false, true, c)
    });
    // all three changing, each at a pace of its own, so that every order of their values comes up
    let j: Vec<Job> = jobs(3, &[4, 5]).into_iter().filter(|j| j.2.iter().any(|u| u.k == 5)).collect();
    mc.space("triples of changing inputs", j.len() as u64, |idx, c| {
        let (n, set, u) = &j[idx as usize];
        exec(*n, set, u, RATES[(idx % 3) as usize], frames, false, true, c)
    });
    let j = jobs(2, &[3, 5]);
    mc.space("pairs of bipolar signals", j.len() as u64, |idx, c| {
        let (n, set, u) = &j[idx as usize];
        exec(*n, set, u, RATES[(idx % 3) as usize], frames, true, true, c)
    });
    let n = NodeId::SFilter(0);
    let inp = |nm: &str| pid(n, nm).inp() as usize;
    mc.space("24 dB Moog low pass with a modulated cutoff", 1, |_, c| exec(n, &[(pid(n, "ftype"), SAtom::setting(13))], &[Use { i: inp("inp"), k: 4 }, Use { i: inp("freq"), k: 3 }], 44100.0, 640, false, false, c));
}
