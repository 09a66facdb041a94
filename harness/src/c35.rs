//! Envelopes, LFO, delays and the random walker keep their documented times, levels and shapes.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::*;

fn leak(v: Vec<f32>) -> &'static [f32] {
    Box::leak(v.into_boxed_slice())
}

/// a rig with parameters in real units; `drive` by name
fn rig(n: NodeId, set: &[(&str, f32)], settings: &[(&str, i64)], drive: &[(&str, Sig)], srate: f32) -> NRig {
    let mut dr = vec![None; nin(n)];
    for (p, s) in drive.iter() {
        dr[pid(n, p).inp() as usize] = Some(*s);
    }
    let mut r = NRig::new(n, &dr);
    r.x.set_sample_rate(srate);
    for (p, v) in set.iter() {
        let p = pid(n, p);
        r.nc.set_param(p, SAtom::param(p.norm(*v)));
    }
    for (p, v) in settings.iter() {
        r.nc.set_param(pid(n, p), SAtom::setting(*v));
    }
    r.upload();
    r
}
fn real(n: NodeId, p: &str, v: f32) -> f32 {
    let p = pid(n, p);
    p.denorm(p.norm(v))
}
fn run_for(r: &mut NRig, total: usize, parts: &[usize], c: &mut Case) {
    let mut i = 0;
    let end = r.frame + total;
    while r.frame < end {
        let b = parts[i % parts.len()].min(end - r.frame);
        r.block(b);
        c.step();
        i += 1;
    }
}
const PARTS: [&[usize]; 3] = [&[128], &[13, 64], &[1]];
/// frames to wait for the initial values to be taken over
const WARM: usize = 1024;

#[derive(Clone, Copy, Debug)]
struct Seg {
    from: usize,
    /// duration in frames
    dur: f32,
    a: f32,
    b: f32,
    linear: bool,
}

/// compares the signal with consecutive segments (each possibly cut short by the next one)
fn judge(sig: &[f32], segs: &[Seg], scale: f32, c: &mut Case) -> Result<(), String> {
    for (k, s) in segs.iter().enumerate() {
        let end = segs.get(k + 1).map(|n| n.from).unwrap_or(sig.len());
        let (lo, hi) = (s.a.min(s.b), s.a.max(s.b));
        let slope = (s.b - s.a).abs() / s.dur.max(1.0);
        for f in s.from..end.min(sig.len()) {
            let v = sig[f] / scale;
            c.checks += 1;
            if v < lo - 1e-4 || v > hi + 1e-4 {
                return Err(format!("frame {}: {} is outside of the stage {:?}", f, v, s));
            }
            let t = (f - s.from + 1) as f32;
            if t >= s.dur + 1.5 && (v - s.b).abs() > 1e-4 {
                return Err(format!("frame {}: {} although the stage is over {:?}", f, v, s));
            }
            if f > s.from {
                let p = sig[f - 1] / scale;
                if (v - p) * (s.b - s.a).signum() < -1e-5 {
                    return Err(format!("frame {}: {} after {}: the wrong direction in stage {:?}", f, v, p, s));
                }
            }
            if s.linear {
                let want = s.a + (s.b - s.a) * (t / s.dur.max(1.0)).min(1.0);
                if (v - want).abs() > 1.6 * slope.min(1.0) + 1e-3 {
                    return Err(format!("frame {}: {} instead of {} in stage {:?}", f, v, want, s));
                }
            } else if s.dur > 12.0 && t > 4.0 && t < s.dur - 4.0 && (s.b - s.a).abs() > 0.05 && t > s.dur * 0.55 && t < s.dur * 0.6 {
                // somewhere past the middle a stage is neither at its start nor at its end
                if (v - s.a).abs() < 1e-3 * (s.b - s.a).abs() || (v - s.b).abs() < 1e-3 * (s.b - s.a).abs() {
                    return Err(format!("frame {}: {}: no gradual change in stage {:?}", f, v, s));
                }
            }
        }
    }
    Ok(())
}

/// pulses on the end-of-envelope output: one begins within 3 frames of each end, nothing else
fn judge_eoet(t: &[f32], ends: &[usize], srate: f32, c: &mut Case) -> Result<(), String> {
    let len = (srate * 0.003) as usize;
    for f in 0..t.len() {
        c.checks += 1;
        let near = ends.iter().any(|e| f + 4 > *e && f < e + len);
        if t[f] > 0.0 && !near {
            return Err(format!("frame {}: end of envelope trigger, but the envelope ends at {:?}", f, ends));
        }
    }
    for e in ends.iter() {
        if e + 4 < t.len() && !t[e.saturating_sub(3)..e + 4].iter().any(|x| *x > 0.5) {
            return Err(format!("no end of envelope trigger around frame {}", e));
        }
    }
    Ok(())
}

fn ad(atk: f32, dcy: f32, ashp: f32, dshp: f32, mult: i64, inp: f32, word: u32, slot: usize, srate: f32, part: &[usize], c: &mut Case) -> Result<(), String> {
    let n = NodeId::Ad(0);
    c.log(|| format!("attack {} ms, decay {} ms, shapes {} {}, mult {}, input {}, triggers {:04b} every {} frames, {} Hz", atk, dcy, ashp, dshp, mult, inp, word, slot, srate));
    let m = [1.0f32, 10.0, 100.0][mult as usize];
    let fr = srate / 1000.0;
    let (ta, td) = (real(n, "atk", atk) * m * fr, real(n, "dcy", dcy) * m * fr);
    let mut v = vec![0.0; 2 * slot];
    for k in 0..4 {
        let h = (word >> k & 1) as f32;
        v.extend((0..slot).map(|i| if i < 8 { h } else { 0.0 }));
    }
    let tail = (ta + td) as usize + 400;
    let total = v.len() + tail;
    v.extend(vec![0.0; tail + 1]);
    let mut w = vec![0.0; WARM];
    w.extend(v);
    let w = leak(w);
    let mut r = rig(n, &[("atk", atk), ("dcy", dcy), ("ashp", ashp), ("dshp", dshp), ("inp", inp)], &[("mult", mult)], &[("trig", Sig::Steps { vals: w, div: 1 })], srate);
    run_for(&mut r, WARM, &[128], c);
    run_for(&mut r, total, part, c);
    let s = r.logs[0].lock().unwrap().inp[WARM..].to_vec();
    let t = r.logs[1].lock().unwrap().inp[WARM..].to_vec();
    unsafe { drop(Box::from_raw(w as *const [f32] as *mut [f32])) };
    let mut segs = vec![Seg { from: 0, dur: 1.0, a: 0.0, b: 0.0, linear: true }];
    let mut ends = vec![];
    let mut pending: Option<Seg> = None;
    let trigs: Vec<usize> = (0..4).filter(|k| word >> k & 1 == 1).map(|k| (2 + k) * slot).collect();
    for (k, f) in trigs.iter().enumerate() {
        let start = if *f == 0 { 0.0 } else { s[f - 1] / inp };
        let next = trigs.get(k + 1).copied().unwrap_or(usize::MAX);
        let dur = ((1.0 - start) * ta).max(1.0);
        segs.push(Seg { from: *f, dur, a: start, b: 1.0, linear: ashp == 0.5 });
        let d0 = f + dur.ceil() as usize;
        if d0 < next {
            pending = Some(Seg { from: d0, dur: td.max(1.0), a: 1.0, b: 0.0, linear: dshp == 0.5 });
            segs.push(pending.unwrap());
            let e = d0 + td.max(1.0).ceil() as usize;
            if e + 2 < next {
                ends.push(e);
            }
        }
    }
    let _ = pending;
    // stage ends are exact to one or two frames: judge the stages with a margin around their boundaries
    let segs = relax(&segs, &s, inp);
    judge(&s, &segs, inp, c)?;
    let fuzzy = ends.iter().any(|e| trigs.iter().any(|t| *t + 6 > *e && *t < *e + 6));
    if !fuzzy {
        judge_eoet(&t, &ends, srate, c)?;
    }
    c.observe(&bits(&s));
    Ok(())
}

/// moves the boundary between two stages of one envelope by up to two frames, to where the peak really is
fn relax(segs: &[Seg], s: &[f32], scale: f32) -> Vec<Seg> {
    let mut v = segs.to_vec();
    for k in 1..v.len() {
        let b = v[k - 1].b;
        if (v[k].a - b).abs() < 1e-6 && v[k - 1].a != v[k - 1].b {
            for d in [0i64, 1, -1, 2, -2] {
                let f = v[k].from as i64 + d;
                if f >= 1 && (f as usize) <= s.len() && (s[f as usize - 1] / scale - b).abs() < 1e-5 {
                    v[k].from = f as usize;
                    break;
                }
            }
        }
    }
    v
}

struct AdsrP {
    t: [f32; 3],
    sus: f32,
    shp: [f32; 3],
    mult: i64,
    inp: f32,
}

fn adsr(p: &AdsrP, word: u32, nslots: usize, slot: usize, part: &[usize], c: &mut Case) -> Result<(), String> {
    let n = NodeId::Adsr(0);
    let srate = 44100.0;
    let m = [1.0f32, 10.0, 100.0][p.mult as usize] * srate / 1000.0;
    let ta = real(n, "atk", p.t[0]) * m;
    let td = real(n, "dcy", p.t[1]) * m;
    let tr = real(n, "rel", p.t[2]) * m;
    c.log(|| format!("times {:?} ms ({} {} {} frames), sustain {}, shapes {:?}, gate {:0w$b} in slots of {} frames", p.t, ta, td, tr, p.sus, p.shp, word, slot, w = nslots));
    let mut g = vec![0.0; WARM + 20];
    for k in 0..nslots {
        g.extend(vec![(word >> k & 1) as f32; slot]);
    }
    let tail = (ta + td + tr) as usize + 300;
    let total = g.len() - WARM + tail;
    g.extend(vec![0.0; tail + 1]);
    let w = leak(g.clone());
    let mut r = rig(
        n,
        &[("atk", p.t[0]), ("dcy", p.t[1]), ("rel", p.t[2]), ("sus", p.sus), ("ashp", p.shp[0]), ("dshp", p.shp[1]), ("rshp", p.shp[2]), ("inp", p.inp)],
        &[("mult", p.mult)],
        &[("gate", Sig::Steps { vals: w, div: 1 })],
        srate,
    );
    run_for(&mut r, WARM, &[128], c);
    run_for(&mut r, total, part, c);
    let s = r.logs[0].lock().unwrap().inp[WARM..].to_vec();
    let t = r.logs[1].lock().unwrap().inp[WARM..].to_vec();
    drop(r);
    unsafe { drop(Box::from_raw(w as *const [f32] as *mut [f32])) };
    let g = &g[WARM..];
    let rises: Vec<usize> = (1..g.len()).filter(|f| g[*f] > 0.5 && g[*f - 1] < 0.5).collect();
    let mut segs = vec![Seg { from: 0, dur: 1.0, a: 0.0, b: 0.0, linear: true }];
    let mut ends = vec![];
    let mut fuzzy = false;
    for (k, f) in rises.iter().enumerate() {
        let next = rises.get(k + 1).copied().unwrap_or(usize::MAX);
        let a = s[f - 1] / p.inp;
        let dur = ((1.0 - a) * ta).max(1.0);
        segs.push(Seg { from: *f, dur, a, b: 1.0, linear: p.shp[0] == 0.5 });
        let d0 = f + dur.ceil() as usize;
        if d0 >= next {
            continue;
        }
        segs.push(Seg { from: d0, dur: td.max(1.0), a: 1.0, b: p.sus, linear: p.shp[1] == 0.5 });
        let s0 = d0 + td.max(1.0).ceil() as usize;
        if s0 >= next {
            continue;
        }
        // released as soon as the gate is low once the sustain level is reached
        let rel = (s0..g.len()).find(|x| g[*x] < 0.5).unwrap() + 1;
        if rel >= next {
            continue;
        }
        // the moment of release is exact up to two frames: find where the signal leaves the sustain level
        let mut r0 = rel;
        if p.sus > 0.01 {
            for x in rel.saturating_sub(2)..(rel + 4).min(s.len()) {
                if (s[x] / p.inp - p.sus).abs() > 1e-5 {
                    r0 = x;
                    break;
                }
            }
        }
        segs.push(Seg { from: r0, dur: tr.max(1.0), a: p.sus, b: 0.0, linear: p.shp[2] == 0.5 });
        let e = r0 + tr.max(1.0).ceil() as usize;
        if e + 2 < next {
            ends.push(e);
        }
        if next != usize::MAX && e + 8 > next && e < next + 8 {
            fuzzy = true;
        }
    }
    let segs = relax(&segs, &s, p.inp);
    judge(&s, &segs, p.inp, c)?;
    if !fuzzy {
        judge_eoet(&t, &ends, srate, c)?;
    }
    c.observe(&bits(&s));
    Ok(())
}

fn lfo(ms: f32, rev: f32, trig: u32, srate: f32, part: &[usize], c: &mut Case) -> Result<(), String> {
    let n = NodeId::TsLFO(0);
    let per = (real(n, "time", ms) * srate / 1000.0) as f64;
    c.log(|| format!("period {} ms = {} frames, reverse point {}, triggers {:04b}, {} Hz", ms, per, rev, trig, srate));
    let slot = 173;
    let mut v = vec![0.0; WARM];
    v.extend((0..4).flat_map(|k| (0..slot).map(move |i| if i < 9 && trig >> k & 1 == 1 { 1.0f32 } else { 0.0 })));
    let tail = (per * 2.2) as usize + 50;
    v.extend(vec![0.0; tail + 1]);
    let total = 4 * slot + tail;
    let w = leak(v);
    let mut r = rig(n, &[("time", ms), ("rev", rev)], &[], &[("trig", Sig::Steps { vals: w, div: 1 })], srate);
    run_for(&mut r, WARM, &[128], c);
    run_for(&mut r, total, part, c);
    let s = r.logs[0].lock().unwrap().inp[WARM..].to_vec();
    drop(r);
    unsafe { drop(Box::from_raw(w as *const [f32] as *mut [f32])) };
    // from the first trigger on the phase is known
    let mut phase0: Option<usize> = None;
    let rv = rev as f64;
    let shape = |ph: f64| -> f64 {
        let ph = ph.rem_euclid(1.0);
        if ph < rv {
            ph / rv
        } else {
            (1.0 - ph) / (1.0 - rv).max(1e-9)
        }
    };
    for f in 0..s.len() {
        if f % slot == 0 && f / slot < 4 && trig >> (f / slot) & 1 == 1 {
            phase0 = Some(f);
        }
        c.checks += 1;
        if !(s[f] >= -1e-4 && s[f] <= 1.0001) {
            return Err(format!("frame {}: {} is not within 0 and 1", f, s[f]));
        }
        if let Some(p0) = phase0 {
            let ph = (f - p0) as f64 / per;
            let drift = 1.5 / per + 1e-3;
            let mut lo = f64::MAX;
            let mut hi = f64::MIN;
            for k in -20..=20 {
                let x = shape(ph + drift * k as f64 / 20.0);
                lo = lo.min(x);
                hi = hi.max(x);
            }
            let (lo, hi) = (lo - 0.02, hi + 0.02);
            if (s[f] as f64) < lo || (s[f] as f64) > hi {
                return Err(format!("frame {}: {} at phase {:.4}, expected between {:.3} and {:.3}", f, s[f], ph.rem_euclid(1.0), lo, hi));
            }
        }
    }
    c.observe(&bits(&s));
    Ok(())
}

fn impulse(n: NodeId, set: &[(&str, f32)], settings: &[(&str, i64)], extra: &[(&str, Sig)], srate: f32, total: usize, part: &[usize], c: &mut Case) -> Vec<f32> {
    let mut v = vec![0.0; WARM];
    v.push(1.0);
    v.extend(vec![0.0; total + 1]);
    let w = leak(v);
    let mut d = vec![("inp", Sig::Steps { vals: w, div: 1 })];
    d.extend(extra.iter().copied());
    let mut r = rig(n, set, settings, &d, srate);
    run_for(&mut r, WARM, &[128], c);
    run_for(&mut r, total, part, c);
    let s = r.logs[0].lock().unwrap().inp[WARM..].to_vec();
    drop(r);
    unsafe { drop(Box::from_raw(w as *const [f32] as *mut [f32])) };
    s
}

/// An impulse response consists of echoes around multiples of the delay time (up to one more frame per
/// round): each has the given sum and its centre of gravity there; there is nothing else.
fn expect(what: &str, s: &[f32], t: f32, want: &[f32]) -> Result<(), String> {
    let mut quiet = vec![true; s.len()];
    for (k, h) in want.iter().enumerate() {
        let mid = k as f32 * (t + 0.5);
        let w = 5 + 3 * k as i64;
        let (lo, hi) = ((mid.round() as i64 - w).max(0) as usize, (mid.round() as i64 + w) as usize);
        if hi >= s.len() {
            break;
        }
        let (mut sum, mut mom) = (0.0f32, 0.0f32);
        for f in lo..=hi {
            sum += s[f];
            mom += s[f] * f as f32;
            quiet[f] = false;
        }
        if (sum - h).abs() > 0.01 + 0.03 * h.abs() {
            return Err(format!("{}: echo number {} of a delay of {} frames has the height {} instead of {}", what, k, t, sum, h));
        }
        if h.abs() > 0.02 {
            let at = mom / sum;
            if (at - mid).abs() > 0.6 * k as f32 + 0.1 {
                return Err(format!("{}: echo number {} of a delay of {} frames is at frame {}", what, k, t, at));
            }
        }
    }
    for f in 0..s.len().min(((want.len() as f32 - 0.5) * t) as usize) {
        if quiet[f] && s[f].abs() > 0.01 {
            return Err(format!("{}: {} at frame {}, between the echoes of a delay of {} frames", what, s[f], f, t));
        }
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution runs one node through one combination of parameters and one word of triggers or gates, and compares every frame with a description by stages (start, duration, target, direction, and the exact line for linear shapes), phases or echoes.".into();
    mc.assume("times are kept to two frames; parameters are constant during a run; a stage that is cut short by a new trigger starts from the value reached");
    let th = mc.thorough();
    let times: Vec<f32> = if th { vec![0.0, 0.1, 0.5, 1.0, 3.0, 7.0] } else { vec![0.0, 0.5, 3.0] };
    let nt = times.len();
    let shp = [0.0f32, 0.3, 0.5, 0.8, 1.0];
    mc.space("attack-decay envelope", (nt * nt * 25 * 2 * 16 * 2 * 2) as u64, |idx, c| {
        let mut d = Dec(idx);
        let word = d.take(16) as u32;
        let (a, b) = (times[d.take(nt)], times[d.take(nt)]);
        let (x, y) = (shp[d.take(5)], shp[d.take(5)]);
        let inp = [1.0f32, -0.6][d.take(2)];
        let slot = [57usize, 260][d.take(2)];
        let rate = [44100.0, 96000.0][d.take(2)];
        ad(a, b, x, y, 0, inp, word, slot, rate, PARTS[(idx % 3) as usize], c)
    });
    mc.space("attack-decay envelope, long times", 2 * 3 * 3 * 4 * 3, |idx, c| {
        let mut d = Dec(idx);
        let mult = 1 + d.take(2) as i64;
        let (a, b) = ([0.1f32, 0.5, 1.3][d.take(3)], [0.2f32, 0.7, 1.1][d.take(3)]);
        let w = [0b0001, 0b0101, 0b1111, 0b1001][d.take(4)];
        let sh = [0.5f32, 0.3, 0.9][d.take(3)];
        ad(a, b, sh, 0.5, mult, 1.0, w, 1500, 44100.0, PARTS[0], c)
    });
    let gl = mc.pick(5usize, 7);
    let sh3 = [[0.5f32, 0.5, 0.5], [0.2, 0.9, 0.35], [1.0, 0.0, 0.7]];
    mc.space("ADSR envelope", (1u64 << gl) * 27 * 3 * 3 * 2 * 2, |idx, c| {
        let mut d = Dec(idx);
        let w = d.take(1 << gl) as u32;
        let ts = [0.0f32, 0.8, 3.0];
        let t = [ts[d.take(3)], ts[d.take(3)], ts[d.take(3)]];
        let sus = [0.4f32, 0.0, 1.0][d.take(3)];
        let shp = sh3[d.take(3)];
        let inp = [1.0f32, 0.7][d.take(2)];
        let slot = [60usize, 190][d.take(2)];
        adsr(&AdsrP { t, sus, shp, mult: 0, inp }, w, gl, slot, PARTS[(idx % 3) as usize], c)
    });
    mc.space("ADSR envelope, long times", 2 * 8 * 3 * 3, |idx, c| {
        let mut d = Dec(idx);
        let mult = 1 + d.take(2) as i64;
        let ts = [0.1f32, 0.6];
        let t = [ts[d.take(2)], ts[d.take(2)], ts[d.take(2)]];
        let w = [0b00111, 0b10001, 0b01101][d.take(3)];
        let shp = sh3[d.take(3)];
        adsr(&AdsrP { t, sus: 0.3, shp, mult, inp: 1.0 }, w, 5, 2500, PARTS[0], c)
    });
    let lt = [0.5f32, 1.7, 4.0, 12.5, 60.0, 333.0];
    let lr = [0.0f32, 0.15, 0.5, 0.77, 1.0];
    mc.space("triangle-saw LFO", 6 * 5 * 16 * 2 * 3, |idx, c| {
        let mut d = Dec(idx);
        let t = lt[d.take(6)];
        let rev = lr[d.take(5)];
        let w = d.take(16) as u32;
        let rate = [44100.0, 48000.0][d.take(2)];
        lfo(t, rev, w, rate, PARTS[d.take(3)], c)
    });
    let dts = [1.0f32, 5.0, 10.0, 20.0, 50.0, 7.3, 123.4];
    mc.space("delay times", 7 * 5 * 3 * 2 * 3, |idx, c| {
        let mut d = Dec(idx);
        let ms = dts[d.take(7)];
        let fb = [0.0f32, 0.5, -0.7, 0.9, 0.25][d.take(5)];
        let mix = [1.0f32, 0.5, 0.0][d.take(3)];
        let rate = [44100.0f32, 96000.0][d.take(2)];
        let part = PARTS[d.take(3)];
        let n = NodeId::Delay(0);
        let t = real(n, "time", ms) * rate / 1000.0;
        c.log(|| format!("{} ms = {} frames, feedback {}, mix {}", ms, t, fb, mix));
        let s = impulse(n, &[("time", ms), ("fb", fb), ("mix", mix)], &[("mode", 0)], &[], rate, (t * 5.0) as usize + 30, part, c);
        let mut want = vec![1.0 - mix];
        let mut h = mix;
        for _ in 1..5 {
            want.push(h);
            h *= fb;
        }
        c.observe(&bits(&s));
        c.checks += want.len() as u64;
        expect("Delay", &s, t, &want)
    });
    mc.space("synchronized delay", 6 * 3 * 3, |idx, c| {
        let mut d = Dec(idx);
        let per = [40usize, 100, 441, 512, 1000, 33][d.take(6)];
        let fb = [0.0f32, 0.6, -0.8][d.take(3)];
        let part = PARTS[d.take(3)];
        let v = leak((0..per).map(|i| if i < per / 2 { 1.0 } else { 0.0 }).collect());
        let s = impulse(NodeId::Delay(0), &[("fb", fb), ("mix", 1.0), ("time", 321.0)], &[("mode", 1)], &[("trig", Sig::Steps { vals: v, div: 1 })], 44100.0, per * 5 + 30, part, c);
        let mut want = vec![0.0];
        let mut h = 1.0;
        for _ in 1..5 {
            want.push(h);
            h *= fb;
        }
        // at least two clock periods must have passed before the impulse
        if per > 500 {
            return Ok(());
        }
        c.checks += 4;
        c.observe(&bits(&s));
        expect("Delay in sync mode", &s, per as f32, &want)
    });
    mc.space("comb and allpass", 5 * 4 * 3 * 3 * 2, |idx, c| {
        let mut d = Dec(idx);
        let ms = [1.0f32, 5.0, 13.5, 25.0, 42.0][d.take(5)];
        let g = [0.0f32, 0.5, -0.6, 0.85][d.take(4)];
        let kind = d.take(3);
        let part = PARTS[d.take(3)];
        let rate = [44100.0f32, 48000.0][d.take(2)];
        let n = if kind == 2 { NodeId::AllP(0) } else { NodeId::Comb(0) };
        let t = real(n, "time", ms) * rate / 1000.0;
        c.log(|| format!("{} {} ms = {} frames, g {}", ["feedback comb", "feedforward comb", "allpass"][kind], ms, t, g));
        let total = (t * 5.0) as usize + 30;
        let st: Vec<(&str, i64)> = if kind == 2 { vec![] } else { vec![("mode", kind as i64)] };
        let s = impulse(n, &[("time", ms), ("g", g)], &st, &[], rate, total, part, c);
        c.observe(&bits(&s));
        c.checks += 5;
        match kind {
            0 => expect("Comb", &s, t, &(0..5).map(|k| g.powi(k)).collect::<Vec<_>>()),
            1 => expect("Comb", &s, t, &[1.0, g, 0.0, 0.0]),
            _ => {
                // an allpass: g at once, then 1 - g*g, times -g for every further round
                let mut w = vec![g, 1.0 - g * g];
                for k in 2..5 {
                    w.push((1.0 - g * g) * (-g).powi(k - 1));
                }
                expect("AllP", &s, t, &w)
            }
        }
    });
    // the random walker
    let rw = [0.0f32, 0.2, 0.5, 0.9];
    mc.space("random walker", 4 * 4 * 4 * 4 * 3 * 2, |idx, c| {
        let mut d = Dec(idx);
        let (step, offs) = (rw[d.take(4)], [0.0f32, 0.13, -0.3, 0.6][d.take(4)]);
        let (min, max) = ([0.0f32, 0.2, 0.7, 0.5][d.take(4)], [1.0f32, 0.8, 0.3, 0.5][d.take(4)]);
        let slew = [0.0f32, 2.0, 20.0][d.take(3)];
        let part = PARTS[d.take(2) * 2];
        let n = NodeId::RndWk(0);
        let per = 150usize;
        let mut v = vec![0.0; 1050];
        for _ in 0..20 {
            v.extend((0..per).map(|i| if i < 9 { 1.0f32 } else { 0.0 }));
        }
        v.push(0.0);
        c.log(|| format!("step {} offs {} range {}..{} slew {} ms", step, offs, min, max, slew));
        let total = v.len() - 1 - 1024;
        let w = leak(v);
        let mut r = rig(n, &[("step", step), ("offs", offs), ("min", min), ("max", max), ("slew", slew)], &[], &[("trig", Sig::Steps { vals: w, div: 1 })], 44100.0);
        run_for(&mut r, 1024, &[128], c);
        run_for(&mut r, total, part, c);
        let s = r.logs[0].lock().unwrap().inp[1024..].to_vec();
        drop(r);
        unsafe { drop(Box::from_raw(w as *const [f32] as *mut [f32])) };
        let t0 = 1050 - 1024;
        let (lo, hi) = (min.min(max), min.max(max));
        let slew_r = real(n, "slew", slew);
        let delta = if slew_r < 0.11 { f32::MAX } else { 1000.0 / 44100.0 / slew_r };
        let mut cur = s[0];
        for f in 1..s.len() {
            c.checks += 1;
            let in_range = |x: f32| x >= lo - 2e-4 && x <= hi + 2e-4;
            if (s[f] - s[f - 1]).abs() > delta * 1.01 + 1e-6 {
                return Err(format!("frame {}: from {} to {}, the slew rate allows {}", f, s[f - 1], s[f], delta));
            }
            if in_range(s[f - 1]) && !in_range(s[f]) {
                return Err(format!("frame {}: {} leaves the range", f, s[f]));
            }
            if slew == 0.0 {
                let trg = f >= t0 && (f - t0) % per == 0;
                if !trg && s[f] != s[f - 1] {
                    return Err(format!("frame {}: the value moves from {} to {} without a trigger", f, s[f - 1], s[f]));
                }
                if trg {
                    let x = s[f];
                    if !in_range(x) {
                        return Err(format!("frame {}: {} is outside of the range", f, x));
                    }
                    let d = (x - cur).abs();
                    // from inside the range: at most the step and the offset (folded back at the borders: less)
                    if in_range(cur) && d > step + offs.abs() + 1e-4 && hi - lo > 0.01 {
                        return Err(format!("frame {}: from {} to {}: more than step {} and offset {}", f, cur, x, step, offs));
                    }
                    if step == 0.0 && in_range(cur) && hi - lo > 0.01 {
                        let mut want = (cur + offs).clamp(lo - (hi - lo) * 0.99, hi + (hi - lo) * 0.99);
                        if want > hi {
                            want = 2.0 * hi - want;
                        }
                        if want < lo {
                            want = 2.0 * lo - want;
                        }
                        if (x - want).abs() > 1e-3 {
                            return Err(format!("frame {}: from {} to {} instead of {}, without randomness", f, cur, x, want));
                        }
                    }
                    cur = x;
                }
            }
        }
        c.observe(&bits(&s));
        Ok(())
    });
}
