//! Oscillators, noise and external parameters put out the waveform, pitch and values they are set to.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::ExternalParams;
use hexodsp::*;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

const PARTS: [&[usize]; 3] = [&[128], &[13, 64, 1], &[1]];
const INST: [u8; 3] = [0, 1, 2];
/// the documented phases of the first instances
const PHASE: [f64; 3] = [0.0, 0.05, 0.1];
/// frames each value of a control word lasts
const DIV: usize = 61;

fn leak(v: Vec<f32>) -> &'static [f32] {
    Box::leak(v.into_boxed_slice())
}
/// the word with the given digits over an alphabet
fn word(d: &mut Dec, alpha: &[f32], n: usize) -> Vec<f32> {
    (0..n).map(|_| alpha[d.take(alpha.len())]).collect()
}
fn rig(n: NodeId, drive: &[(&str, &[f32])], settings: &[(&str, i64)], srate: f32) -> NRig {
    let mut dr = vec![None; nin(n)];
    for (p, v) in drive.iter() {
        dr[pid(n, p).inp() as usize] = Some(Sig::Steps { vals: leak(v.to_vec()), div: DIV });
    }
    let mut r = NRig::new(n, &dr);
    r.x.set_sample_rate(srate);
    for (p, v) in settings.iter() {
        r.nc.set_param(pid(n, p), SAtom::setting(*v));
    }
    r.upload();
    r
}
fn run_for(r: &mut NRig, total: usize, parts: &[usize], c: &mut Case) {
    let mut i = 0;
    let end = r.frame + total;
    while r.frame < end {
        let b = parts[i % parts.len()].min(end - r.frame);
        r.block(b);
        c.step();
        i += 1;
    }
}
fn at(v: &[f32], f: usize) -> f32 {
    v[(f / DIV) % v.len()]
}
fn hz(pitch: f32) -> f64 {
    440.0 * (2.0f64).powf((pitch as f64 * 10.0).clamp(-10.0, 10.0))
}
fn blep(t: f64, dt: f64) -> f64 {
    if t < dt {
        let t = t / dt;
        2.0 * t - t * t - 1.0
    } else if t > 1.0 - dt {
        let t = (t - 1.0) / dt;
        t * t + 2.0 * t + 1.0
    } else {
        0.0
    }
}
/// one frame of a band limited waveform at phase `p` with the increment `inc`
fn wave(typ: i64, p: f64, inc: f64, pw: f64, last: &mut f64) -> f64 {
    match typ {
        0 => (p * std::f64::consts::TAU).sin(),
        1 => {
            let mut s = if p < 0.5 { 1.0 } else { -1.0 };
            s += blep(p, inc) - blep((p + 0.5).fract(), inc);
            *last = inc * s + (1.0 - inc) * *last;
            *last * 4.0
        }
        2 => 2.0 * p - 1.0 - blep(p, inc),
        _ => {
            let w = 0.1 * pw + (1.0 - pw) * 0.5;
            let mut s = if p < w { 1.0 } else { -1.0 };
            s += blep(p, inc) - blep((p + 1.0 - w).fract(), inc);
            if typ == 4 {
                s += (0.5 - w) * 2.0;
            }
            s
        }
    }
}
fn cmp(got: &[f32], want: &dyn Fn(usize) -> Option<f64>, tol: f64, what: &str, c: &mut Case) -> Result<(), String> {
    within(got, &|f| want(f).map(|w| (w - tol, w + tol)), what, c)
}
fn within(got: &[f32], want: &dyn Fn(usize) -> Option<(f64, f64)>, what: &str, c: &mut Case) -> Result<(), String> {
    c.observe(&(got.len(), got.get(got.len() / 2).map(|v| (*v * 1000.0) as i32)));
    for f in 0..got.len() {
        if let Some((lo, hi)) = want(f) {
            c.checks += 1;
            let g = got[f] as f64;
            if !(g >= lo && g <= hi) {
                return Err(format!("{}: frame {}: {} instead of {} to {}", what, f, g, lo, hi));
            }
        }
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "the whole output signal of an oscillator is compared with its waveform formula evaluated in double precision from the control signals; Ext nodes with a slew limiter model".into();
    mc.assume("control signals are held for 61 frames per letter of a word; frames within a hundred thousandth of a period of a jump of the waveform are not compared");
    let rates = [44100.0f32, 22050.0, 96000.0];

    // --- the sine
    let freqs = [-0.2f32, 0.0, 0.3123];
    let dets = [0.0f32, 0.1, -0.05];
    let pms = [0.0f32, 0.3, -0.7, 1.5];
    let (lf, ld, lp) = (mc.pick(2, 3), mc.pick(2, 2), mc.pick(2, 3));
    let n = pow(3, lf) * pow(3, ld) * pow(4, lp) * 3 * 3 * 3;
    mc.space("sine", n, |i, c| {
        let mut d = Dec(i);
        let (fw, dw, pw) = (word(&mut d, &freqs, lf as usize), word(&mut d, &dets, ld as usize), word(&mut d, &pms, lp as usize));
        let k = d.take(3);
        let srate = rates[d.take(3)];
        let part = PARTS[d.take(3)];
        let id = NodeId::Sin(INST[k]);
        c.log(|| format!("{:?} pitch {:?} detune {:?} phase modulation {:?} {} Hz", id, fw, dw, pw, srate));
        let mut r = rig(id, &[("freq", &fw), ("det", &dw), ("pm", &pw)], &[], srate);
        run_for(&mut r, DIV * 7, part, c);
        let got = r.streams()[0].clone();
        let mut p = PHASE[k];
        let want: Vec<f64> = (0..got.len())
            .map(|f| {
                let v = ((p + at(&pw, f) as f64) * std::f64::consts::TAU).sin();
                p = (p + hz(at(&fw, f) + at(&dw, f)) / srate as f64).fract();
                v
            })
            .collect();
        cmp(&got, &|f| Some(want[f]), 2e-3, "sine", c)
    });

    // --- the basic oscillator, its waveform being switched during the run
    let pws = [0.0f32, 0.5, 1.0];
    let (lf, lp) = (mc.pick(2, 3), 2);
    let np = mc.pick(1, 3) as usize;
    let n = 5 * 5 * pow(3, lf) * 3 * pow(3, lp) * 3 * 3 * np as u64;
    mc.space("basic oscillator", n, |i, c| {
        let mut d = Dec(i);
        let (t1, t2) = (d.take(5) as i64, d.take(5) as i64);
        let (fw, mut dw, pw) = (word(&mut d, &freqs, lf as usize), word(&mut d, &dets, 1), word(&mut d, &pws, lp as usize));
        let k = d.take(3);
        if k > 0 {
            dw.push(0.0123);
        }
        let srate = rates[d.take(3)];
        let part = PARTS[(d.take(np) + t1 as usize + k) % 3];
        let id = NodeId::BOsc(INST[k]);
        c.log(|| format!("{:?} waveform {} then {} pitch {:?} detune {:?} width {:?} {} Hz", id, t1, t2, fw, dw, pw, srate));
        let mut r = rig(id, &[("freq", &fw), ("det", &dw), ("pw", &pw)], &[("wtype", t1)], srate);
        let half = DIV * 4 + 17;
        run_for(&mut r, half, part, c);
        r.nc.set_param(pid(id, "wtype"), SAtom::setting(t2));
        run_for(&mut r, DIV * 4, part, c);
        let got = r.streams()[0].clone();
        let judge = |mut p: f64, c: &mut Case| {
            let mut last = 0.0;
            let want: Vec<Option<(f64, f64)>> = (0..got.len())
                .map(|f| {
                    let t = if f < half { t1 } else { t2 };
                    let inc = hz(at(&fw, f) + at(&dw, f)) / srate as f64;
                    let w = at(&pw, f) as f64;
                    let v = wave(t, p, inc, w, &mut last);
                    // near the jumps
                    let edge = |e: f64| {
                        let x = (p - e).abs();
                        x.min(1.0 - x) < 2e-5
                    };
                    let w = 0.1 * w + (1.0 - w) * 0.5;
                    let skip = t != 0 && (edge(0.0) || edge(inc) || edge(1.0 - inc) || edge(0.5) || edge(w) || edge(w + inc) || edge(w - inc));
                    let ph = p;
                    p = (p + inc).fract();
                    // the steep edges follow the rounding of the phase
                    let tol = 4e-3 + if t == 0 { 0.0 } else { 4e-5 / inc * if t == 2 && ph > inc * 1.1 && ph < 1.0 - inc * 1.1 { 0.0 } else { 1.0 } };
                    if skip {
                        None
                    } else {
                        Some((v - tol, v + tol))
                    }
                })
                .collect();
            within(&got, &|f| want[f], "basic oscillator", c)
        };
        // the phase at the start is not a promise
        judge(PHASE[k], c).or_else(|e| judge(0.0, c).map_err(|_| e))
    });

    // --- the vector phase shaping oscillator
    let (lf, lv, lr) = (mc.pick(1, 2), mc.pick(1, 2), mc.pick(2, 3));
    let n = 2 * 4 * pow(3, lf) * 3 * 16 * pow(3, lv) * 4 * 2 * lr;
    mc.space("vector oscillator", n, |i, c| {
        let mut d = Dec(i);
        let ovr = d.take(2) as i64;
        let dist = d.take(4) as i64;
        let mut fw = word(&mut d, &freqs, lf as usize);
        fw.push(0.05);
        let mut dw = word(&mut d, &dets, 1);
        let (mut sd, mut sv) = (word(&mut d, &[0.5f32, 0.02, 0.97, 0.3], 1), word(&mut d, &[0.5f32, 0.0, 1.0, 0.8], 1));
        let mut vs = word(&mut d, &[0.0f32, 0.1, 0.55], lv as usize);
        vs.push(0.2);
        let da = word(&mut d, &[0.0f32, 0.5], 2);
        let k = d.take(2);
        if k > 0 {
            dw.push(0.0123);
            sd.push(0.4);
            sv.push(0.6);
        }
        let srate = rates[d.take(lr as usize)];
        let part = PARTS[(i / 7 % 3) as usize];
        let id = NodeId::VOsc(INST[k]);
        c.log(|| {
            format!(
                "{:?} oversampling {} distortion {} {:?} pitch {:?} detune {:?} d {:?} v {:?} vs {:?} {} Hz",
                id, ovr, dist, da, fw, dw, sd, sv, vs, srate
            )
        });
        let dr: Vec<(&str, &[f32])> = vec![("freq", &fw), ("det", &dw), ("d", &sd), ("v", &sv), ("vs", &vs), ("damt", &da)];
        let mut r = rig(id, &dr, &[("ovrsmpl", ovr), ("dist", dist)], srate);
        run_for(&mut r, DIV * 4, part, c);
        let got = r.streams()[0].clone();
        let judge = |p: f64, c: &mut Case| {
            // the oscillator and the decimation filter are parts of the synfx-dsp library
            let mut osc = synfx_dsp::VPSOscillator::new(p as f32);
            osc.reset();
            let mut over = synfx_dsp::Oversampling::<4>::new();
            over.set_sample_rate(srate);
            over.reset();
            let times = if ovr == 1 { 4 } else { 1 };
            let vsp = pid(id, "vs");
            let want: Vec<f32> = (0..got.len())
                .map(|f| {
                    let fr = 440.0 * (2.0_f32).powf(((at(&fw, f) + at(&dw, f)) * 10.0).clamp(-10.0, 10.0));
                    let v = synfx_dsp::VPSOscillator::limit_v(at(&sd, f), at(&sv, f) + vsp.denorm(at(&vs, f)));
                    let mut s = [0.0f32; 4];
                    for x in s.iter_mut().take(times) {
                        *x = synfx_dsp::apply_distortion(osc.next(fr, 1.0 / (srate * times as f32), at(&sd, f), v), at(&da, f), dist as u8);
                    }
                    if ovr == 1 {
                        over.resample_buffer().copy_from_slice(&s);
                        over.downsample()
                    } else {
                        s[0]
                    }
                })
                .collect();
            // the phase of the two computations differs by rounding: jumps are compared loosely
            let tol = if dist == 0 { 4e-3 } else { 6e-2 };
            let range = |f: usize| {
                let w = &want[f.saturating_sub(1)..(f + 2).min(want.len())];
                let (lo, hi) = w.iter().fold((want[f], want[f]), |a, b| (a.0.min(*b), a.1.max(*b)));
                if hi - lo > 0.5 {
                    Some((lo as f64 - tol, hi as f64 + tol))
                } else {
                    Some((want[f] as f64 - tol, want[f] as f64 + tol))
                }
            };
            within(&got, &range, "vector oscillator", c)
        };
        judge(PHASE[k], c).or_else(|e| judge(0.0, c).map_err(|_| e))
    });

    // --- the formant oscillator
    let (lf, ls) = (mc.pick(1, 2), mc.pick(1, 2));
    let n = pow(3, lf) * 3 * 16 * pow(4, ls) * 9 * 3 * 3;
    mc.space("formant oscillator", n, |i, c| {
        let mut d = Dec(i);
        let mut fw = word(&mut d, &[-0.2f32, 0.0, 0.1], lf as usize);
        fw.push(-0.07);
        let dw = word(&mut d, &dets, 1);
        let form = word(&mut d, &[-0.3f32, 0.0, 0.13, 0.3], 2);
        let mut side = word(&mut d, &[0.0f32, 0.2, 0.5, 1.0], ls as usize);
        side.push(0.7);
        let peak = word(&mut d, &[0.0f32, 0.4, 1.0], 2);
        let srate = rates[d.take(3)];
        let part = PARTS[d.take(3)];
        let id = NodeId::FormFM(0);
        c.log(|| format!("pitch {:?} detune {:?} formant {:?} side {:?} peak {:?} {} Hz", fw, dw, form, side, peak, srate));
        let mut r = rig(id, &[("freq", &fw), ("det", &dw), ("form", &form), ("side", &side), ("peak", &peak)], &[], srate);
        run_for(&mut r, DIV * 5, part, c);
        let got = r.streams()[0].clone();
        let mut p = 0.0f64;
        let want: Vec<Option<f64>> = (0..got.len())
            .map(|f| {
                let base = hz(at(&fw, f) + at(&dw, f));
                let s = (at(&side, f) as f64).clamp(1e-6, 1.0 - 1e-6);
                let tri = (p / s).min((1.0 - p) / (1.0 - s));
                let carrier = 1.0 - (1.0 - at(&peak, f) as f64) * tri * tri * (3.0 - 2.0 * tri);
                let m = hz(at(&form, f)) / base;
                let (a, b) = (m.floor(), m.fract());
                let tau = std::f64::consts::TAU * p;
                let mo = (1.0 - b) * if m < 1.0 { 0.0 } else { (tau * a).cos() } + b * (tau * (a + 1.0)).cos();
                // the corner of the carrier is a jump when the side is at an end; a multiple that is a whole number may be rounded to either side
                let skip = (p < 1e-4 || p > 1.0 - 1e-4) && (s < 0.01 || s > 0.99) || (m < 1.5 && (m - 1.0).abs() < 1e-5);
                p = (p + base / srate as f64).fract();
                if skip {
                    None
                } else {
                    Some(carrier * mo)
                }
            })
            .collect();
        cmp(&got, &|f| want[f], 5e-3, "formant oscillator", c)
    });

    // --- noise
    let n = 4 * 2 * 64 * 16 * 3;
    mc.space("noise", n, |i, c| {
        let mut d = Dec(i);
        let k = [0u8, 1, 2, 9][d.take(4)];
        let mode = d.take(2) as i64;
        let a = word(&mut d, &[1.0f32, 0.5, 0.0, -1.0], 3);
        let o = word(&mut d, &[0.0f32, 0.25, -1.0, 1.0], 2);
        let part = PARTS[d.take(3)];
        let id = NodeId::Noise(k);
        c.log(|| format!("{:?} mode {} attenuverter {:?} offset {:?}", id, mode, a, o));
        // the raw noise
        let mut r0 = rig(id, &[("atv", &[1.0]), ("offs", &[0.0])], &[("mode", 0)], 44100.0);
        run_for(&mut r0, 800, &[128], c);
        let raw = r0.streams()[0].clone();
        let mut r = rig(id, &[("atv", &a), ("offs", &o)], &[("mode", mode)], 44100.0);
        run_for(&mut r, 400, part, c);
        r.nc.set_param(pid(id, "mode"), SAtom::setting(1 - mode));
        run_for(&mut r, 400, part, c);
        let got = r.streams()[0].clone();
        let want = |f: usize| {
            let m = if f < 400 { mode } else { 1 - mode };
            let x = raw[f] as f64;
            let x = if m == 0 { x } else { (x + 1.0) * 0.5 };
            Some(x * at(&a, f) as f64 + at(&o, f) as f64)
        };
        cmp(&got, &want, 1e-5, "noise", c)
    });
    let insts: Vec<u8> = (0..mc.pick(24, 120)).map(|i| i as u8).collect();
    mc.space("noise distribution", insts.len() as u64, |i, c| {
        let id = NodeId::Noise(insts[i as usize]);
        let other = NodeId::Noise(insts[(i as usize + 1) % insts.len()]);
        c.log(|| format!("{:?}", id));
        let go = |id: NodeId, c: &mut Case| {
            let mut r = rig(id, &[("atv", &[1.0]), ("offs", &[0.0])], &[("mode", 0)], 44100.0);
            run_for(&mut r, 20480, &[128], c);
            r.streams()[0].clone()
        };
        let (a, b) = (go(id, c), go(other, c));
        let mut bins = [0usize; 16];
        for v in a.iter() {
            if !(*v >= -1.0 && *v <= 1.0) {
                return Err(format!("{} is out of range", v));
            }
            bins[((((v + 1.0) * 8.0) as usize).min(15)) as usize] += 1;
        }
        c.checks += a.len() as u64;
        // 1280 expected per bin, standard deviation 35
        if bins.iter().any(|b| *b < 1080 || *b > 1480) {
            return Err(format!("not evenly distributed: {:?}", bins));
        }
        let cor = |a: &[f32], b: &[f32]| a.iter().zip(b.iter()).map(|(a, b)| (a * b) as f64).sum::<f64>() / a.len().min(b.len()) as f64 * 3.0;
        for lag in 1..20 {
            let x = cor(&a, &a[lag..]);
            if x.abs() > 0.05 {
                return Err(format!("frames {} apart are related: {}", lag, x));
            }
        }
        if cor(&a, &b).abs() > 0.05 {
            return Err("two instances put out related noise".into());
        }
        Ok(())
    });

    // --- the same pitch by frequency and by detune
    let ids = [NodeId::Sin(0), NodeId::BOsc(0), NodeId::VOsc(0), NodeId::FormFM(0)];
    mc.space("detune", 4 * 5 * 5 * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let id = ids[d.take(4)];
        let f = [-0.25f32, -0.125, 0.0, 0.0625, 0.125][d.take(5)];
        let t = [-0.125f32, -0.0625, 0.03125, 0.0625, 0.125][d.take(5)];
        let srate = rates[d.take(3)];
        let part = PARTS[d.take(3)];
        c.log(|| format!("{:?} pitch {} detune {}", id, f, t));
        let go = |f: f32, t: f32, part: &[usize], c: &mut Case| {
            let mut r = rig(id, &[("freq", &[f]), ("det", &[t])], &[], srate);
            run_for(&mut r, 2000, part, c);
            r.streams()[0].clone()
        };
        let (a, b) = (go(f, t, part, c), go(f + t, 0.0, &[128], c));
        cmp(&a, &|k| Some(b[k] as f64), 1e-4, "detuned", c)
    });

    // --- the bowed string plays the set pitch
    mc.space("bowed string", 5 * 3 * 3 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let f = [110.0f32, 196.0, 220.0, 329.6, 440.0][d.take(5)];
        let set = [[0.5f32, 0.5, 0.5], [0.3, 0.7, 0.4], [0.7, 0.4, 0.6]][d.take(3)];
        let srate = [44100.0f32, 48000.0, 96000.0][d.take(3)];
        let part = PARTS[d.take(3)];
        let det = [0.0f32, 0.1][d.take(2)];
        let id = NodeId::BowStri(0);
        c.log(|| format!("{} Hz detune {} velocity, force, position {:?} at {} Hz", f, det, set, srate));
        let pf = 0.1 * (f / 440.0).log2() - det;
        let mut r = rig(id, &[("freq", &[pf]), ("det", &[det]), ("vel", &[set[0]]), ("force", &[set[1]]), ("pos", &[set[2]])], &[], srate);
        run_for(&mut r, (srate * 0.6) as usize, part, c);
        let s = r.streams()[0].clone();
        let s = &s[s.len() / 2..];
        let e: f64 = s.iter().map(|x| (x * x) as f64).sum::<f64>() / s.len() as f64;
        c.observe(&(e > 1e-6));
        c.checks += 1;
        if e < 1e-6 {
            return Err("the string is silent".into());
        }
        // the period with the greatest self similarity near the expected one
        let per = srate / f;
        let (lo, hi) = ((per * 0.7) as usize, (per * 1.4) as usize);
        let m = s.iter().map(|x| *x as f64).sum::<f64>() / s.len() as f64;
        let best = (lo..hi)
            .map(|lag| (lag, s.iter().zip(s[lag..].iter()).map(|(a, b)| (*a as f64 - m) * (*b as f64 - m)).sum::<f64>() / (s.len() - lag) as f64))
            .fold((0, f64::MIN), |a, b| if b.1 > a.1 { b } else { a })
            .0 as f32;
        if (best - per).abs() > 0.06 * per + 2.0 {
            return Err(format!("the period is {} frames instead of {}", best, per));
        }
        Ok(())
    });

    // --- the external parameters
    struct Ext([AtomicU32; 18]);
    macro_rules! ext {
        ($($n:ident $i:expr),*) => { impl ExternalParams for Ext { $(fn $n(&self) -> f32 { f32::from_bits(self.0[$i].load(Ordering::Relaxed)) })* } };
    }
    ext!(a1 0, a2 1, a3 2, b1 3, b2 4, b3 5, c1 6, c2 7, c3 8, d1 9, d2 10, d3 11, e1 12, e2 13, e3 14, f1 15, f2 16, f3 17);
    let (lh, na) = (mc.pick(2, 3), mc.pick(3, 27) as usize);
    let n = 6 * pow(4, lh) * 9 * na as u64 * 3 * 3;
    mc.space("external parameters", n, |i, c| {
        let mut d = Dec(i);
        let k = d.take(6);
        let id = [NodeId::ExtA(0), NodeId::ExtB(0), NodeId::ExtC(0), NodeId::ExtD(1), NodeId::ExtE(0), NodeId::ExtF(2)][k];
        let host = word(&mut d, &[0.0f32, 1.0, -0.5, 0.25], lh as usize);
        let slew = word(&mut d, &[0.0f32, 0.02, 0.1], 2);
        let mut da = Dec(if na == 3 { [5, 15, 19][d.take(3)] } else { d.take(27) as u64 });
        let atv: Vec<Vec<f32>> = (0..3).map(|_| word(&mut da, &[1.0f32, -0.5, 0.0], 1)).collect();
        let srate = rates[d.take(3)];
        let part = PARTS[d.take(3)];
        c.log(|| format!("{:?} host values {:?} slew {:?} attenuverters {:?} {} Hz", id, host, slew, atv, srate));
        let mut r = rig(id, &[("slew", &slew), ("atv1", &atv[0]), ("atv2", &atv[1]), ("atv3", &atv[2])], &[], srate);
        let e = Arc::new(Ext(std::array::from_fn(|j| AtomicU32::new((j as f32 * 0.01 + 5.0).to_bits()))));
        r.x.set_external_params(e.clone());
        let val = |w: usize, j: usize| host[w % host.len()] * [1.0, 0.5, -0.75][j] + 0.01 * j as f32;
        const LEN: usize = 150;
        for w in 0..4 {
            for j in 0..3 {
                e.0[k * 3 + j].store(val(w, j).to_bits(), Ordering::Relaxed);
            }
            run_for(&mut r, LEN, part, c);
        }
        let s = r.streams();
        let sp = pid(id, "slew");
        for j in 0..3 {
            let mut cur = 0.0f64;
            let want: Vec<f64> = (0..4 * LEN)
                .map(|f| {
                    let t = val(f / LEN, j) as f64;
                    let ms = sp.denorm(at(&slew, f)) as f64;
                    let max = if ms < 0.11 { f64::INFINITY } else { 1000.0 / srate as f64 / ms };
                    cur += (t - cur).clamp(-max, max);
                    cur * at(&atv[j], f) as f64
                })
                .collect();
            cmp(&s[j], &|f| Some(want[f]), 1e-4, &format!("output {}", j + 1), c)?;
        }
        Ok(())
    });
}
