//! Filters pass what their type, cutoff and resonance say; the reverb keeps its mix, delay and decay.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::*;
use std::f64::consts::{PI, TAU};

const PARTS: [&[usize]; 3] = [&[128], &[13, 64], &[127, 1, 50]];
const RATES: [f32; 3] = [44100.0, 48000.0, 96000.0];

/// `set`: signals in the real unit of the input
fn rig(n: NodeId, drive: &[(&str, Sig)], settings: &[(&str, i64)], srate: f32) -> NRig {
    let mut dr = vec![None; nin(n)];
    for (p, s) in drive.iter() {
        dr[pid(n, p).inp() as usize] = Some(*s);
    }
    let mut r = NRig::new(n, &dr);
    r.x.set_sample_rate(srate);
    for (p, v) in settings.iter() {
        r.nc.set_param(pid(n, p), SAtom::setting(*v));
    }
    r.upload();
    r
}
fn norm(n: NodeId, p: &str, v: f32) -> f32 {
    pid(n, p).norm(v)
}
fn run_for(r: &mut NRig, total: usize, parts: &[usize], c: &mut Case) {
    let mut i = 0;
    let end = r.frame + total;
    while r.frame < end {
        let b = parts[i % parts.len()].min(end - r.frame);
        r.block(b);
        c.step();
        i += 1;
    }
}
type C = (f64, f64);
fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn div(a: C, b: C) -> C {
    let d = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / d, (a.1 * b.0 - a.0 * b.1) / d)
}
fn add(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}
fn sc(a: C, k: f64) -> C {
    (a.0 * k, a.1 * k)
}
fn mag(a: C) -> f64 {
    a.0.hypot(a.1)
}
/// magnitude of the spectrum of an impulse response
fn spec(h: &[f32], f: f64, srate: f64) -> f64 {
    let w = TAU * f / srate;
    mag(h.iter().enumerate().fold((0.0, 0.0), |a, (i, v)| {
        let p = w * i as f64;
        (a.0 + *v as f64 * p.cos(), a.1 - *v as f64 * p.sin())
    }))
}
/// the documented response of the linear types of SFilter
fn sfilter(t: i64, fc: f64, res: f64, f: f64, srate: f64) -> f64 {
    let one = (1.0, 0.0);
    let w = TAU * f / srate;
    let z1 = (w.cos(), -w.sin());
    let s = (0.0, (PI * f / srate).tan() / (PI * fc / srate).tan());
    match t {
        0 | 2 => {
            let b = (-TAU * fc / srate).exp();
            let den = add(one, sc(z1, -b));
            if t == 0 {
                mag(div((1.0 - b, 0.0), den))
            } else {
                mag(div(sc(add(one, sc(z1, -1.0)), 0.5 * (1.0 + b)), den))
            }
        }
        1 => mag(div(one, add(one, s))),
        3 => mag(div(s, add(one, s))),
        _ => {
            let k = 2.0 - 1.989 * res;
            let s2 = mul(s, s);
            let den = add(add(s2, sc(s, k)), one);
            mag(div(
                match t {
                    8 => one,
                    9 => s2,
                    10 => s,
                    11 => add(s2, one),
                    _ => add(one, sc(s2, -1.0)),
                },
                den,
            ))
        }
    }
}
/// impulse response of the Hal Chamberlin filter run at twice the rate
fn hal(t: i64, fc: f64, res: f64, srate: f64, n: usize) -> Vec<f32> {
    let cut = 2.0 * (PI * fc * 0.5 / srate).sin();
    let (mut low, mut band) = (0.0f64, 0.0f64);
    (0..n)
        .map(|i| {
            let x = if i == 0 { 1.0 } else { 0.0 };
            let mut high = 0.0;
            for _ in 0..2 {
                low += cut * band;
                high = x - low - (1.0 - res) * band;
                band += cut * high;
            }
            (match t {
                4 => low,
                5 => high,
                6 => band,
                _ => high + low,
            }) as f32
        })
        .collect()
}
fn db(x: f64) -> f64 {
    20.0 * x.max(1e-12).log10()
}
/// the modes of the virtual analog filter
fn fva_modes() -> Vec<(i64, i64, i64)> {
    let mut v: Vec<(i64, i64, i64)> = (0..11).map(|l| (0, 0, l)).collect();
    v.extend((0..5).map(|s| (1, s, 0)));
    v.push((2, 0, 0));
    v
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution sends an impulse (or a word of pulses) through a filter or the reverb in one combination of type, cutoff, resonance, sample rate and history, and compares the spectrum of the whole response at eleven frequencies with the transfer function of the type, or the response with that of another execution it has to agree with.".into();
    mc.assume("the Moog and virtual analog types are judged by passband, stopband and slope at small amplitudes, as they distort by design; the biquad reads its parameters once per block");

    // --- the linear types of SFilter
    let fcs: &[f32] = mc.pick(&[60.0, 440.0, 3000.0, 9000.0], &[30.0, 60.0, 220.0, 440.0, 1000.0, 3000.0, 9000.0, 14000.0]);
    let ress: &[f32] = mc.pick(&[0.0, 0.5, 0.9], &[0.0, 0.25, 0.5, 0.75, 0.9]);
    let probes = [20.0f64, 60.0, 150.0, 440.0, 1000.0, 2000.0, 3000.0, 5000.0, 9000.0, 14000.0, 20000.0];
    mc.space("filter responses", 13 * fcs.len() as u64 * ress.len() as u64 * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let t = d.take(13) as i64;
        let fc = fcs[d.take(fcs.len())];
        let res = ress[d.take(ress.len())];
        let srate = RATES[d.take(3)];
        let part = PARTS[d.take(3)];
        let id = NodeId::SFilter(0);
        c.log(|| format!("SFilter type {} cutoff {} Hz resonance {} at {} Hz", t, fc, res, srate));
        let n = 16384;
        let mut r = rig(id, &[("inp", Sig::Impulse { amp: 1.0, at: 0 }), ("freq", Sig::Const(norm(id, "freq", fc))), ("res", Sig::Const(res))], &[("ftype", t)], srate);
        run_for(&mut r, n, part, c);
        let h = r.streams()[0].clone();
        let hc = if (4..8).contains(&t) { Some(hal(t, fc as f64, res as f64, srate as f64, n)) } else { None };
        for f in probes.iter() {
            let got = spec(&h, *f, srate as f64);
            let want = match &hc {
                Some(h) => spec(h, *f, srate as f64),
                None => sfilter(t, fc as f64, res as f64, *f, srate as f64),
            };
            c.checks += 1;
            if !((got - want).abs() <= 0.01 * want + 0.003) {
                return Err(format!("{} Hz pass with the gain {} instead of {}", f, got, want));
            }
        }
        c.observe(&(spec(&h, 440.0, srate as f64) * 100.0) .round().to_bits());
        Ok(())
    });

    // --- the Moog filter
    mc.space("Moog low pass", 5 * 3 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let fc = [200.0f32, 440.0, 1000.0, 2000.0, 3000.0][d.take(5)];
        let res = [0.0f32, 0.15, 0.3][d.take(3)];
        let srate = RATES[d.take(3)];
        let part = PARTS[d.take(2)];
        let id = NodeId::SFilter(0);
        c.log(|| format!("SFilter LP 24m cutoff {} Hz resonance {} at {} Hz", fc, res, srate));
        let mut r = rig(id, &[("inp", Sig::Impulse { amp: 0.1, at: 0 }), ("freq", Sig::Const(norm(id, "freq", fc))), ("res", Sig::Const(res))], &[("ftype", 13)], srate);
        run_for(&mut r, 8192, part, c);
        let h: Vec<f32> = r.streams()[0].iter().map(|x| x * 10.0).collect();
        let g = |f: f64| db(spec(&h, f, srate as f64));
        let fc = fc as f64;
        c.checks += 3;
        let (low, mid, a, b) = (g(fc / 20.0), g(fc), g(fc * 2.0), g(fc * 4.0));
        if a - low > -8.0 || !(-40.0..-14.0).contains(&(b - a)) {
            return Err(format!("gains in dB: {} at a twentieth of the cutoff, {} at the cutoff, {} at twice, {} at four times", low, mid, a, b));
        }
        Ok(())
    });

    // --- the linear types are linear, also with a cutoff in motion
    let n = 13 * 16 * 9 * 2 * 3;
    mc.space("linearity", n, |i, c| {
        let mut d = Dec(i);
        let t = d.take(13) as i64;
        let bits = d.take(16) as u32;
        let (fa, fb) = ([100.0f32, 1000.0, 8000.0][d.take(3)], [100.0f32, 1000.0, 8000.0][d.take(3)]);
        let res = [0.2f32, 0.8][d.take(2)];
        let part = PARTS[d.take(3)];
        let id = NodeId::SFilter(0);
        c.log(|| format!("SFilter type {} cutoff {} and {} Hz resonance {} word {:04b}", t, fa, fb, res, bits));
        let fr = Sig::Two { a: norm(id, "freq", fa), b: norm(id, "freq", fb), bits: 0b0011_1010, n: 8 };
        let go = |x: Sig, part: &[usize], c: &mut Case| {
            let mut r = rig(id, &[("inp", x), ("freq", fr), ("res", Sig::Const(res))], &[("ftype", t)], 44100.0);
            run_for(&mut r, 400, part, c);
            r.streams()[0].clone()
        };
        let a = go(Sig::Two { a: 0.0, b: 0.5, bits, n: 4 }, part, c);
        let b = go(Sig::Two { a: 0.5, b: 0.0, bits, n: 4 }, PARTS[0], c);
        let s = go(Sig::Const(0.5), PARTS[1], c);
        let m = s.iter().chain(a.iter()).fold(1.0f32, |m, x| m.max(x.abs()));
        if m > 50.0 {
            // an unstable modulation of the cutoff
            return Ok(());
        }
        for f in 0..s.len() {
            c.checks += 1;
            if (a[f] + b[f] - s[f]).abs() > 1e-3 * m {
                return Err(format!("frame {}: the parts give {} and {}, their sum gives {}", f, a[f], b[f], s[f]));
            }
        }
        Ok(())
    });

    // --- the biquad
    mc.space("biquad", 2 * 4 * 4 * 3 * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let t = d.take(2) as i64;
        let ord = d.take(4) as i64;
        let fc = [200.0f32, 1000.0, 4000.0, 9000.0][d.take(4)];
        let q = [0.1f32, 0.5, 1.0][d.take(3)];
        let srate = RATES[d.take(3)];
        let part = PARTS[d.take(3)];
        let id = NodeId::BiqFilt(0);
        c.log(|| format!("BiqFilt type {} order {} {} Hz q {} at {} Hz", t, ord, fc, q, srate));
        let n = if t == 0 { 8192 } else { 2000 };
        let mut r = rig(id, &[("inp", Sig::Impulse { amp: 1.0, at: 0 }), ("freq", Sig::Const(norm(id, "freq", fc))), ("q", Sig::Const(q))], &[("ftype", t), ("order", ord)], srate);
        run_for(&mut r, n, part, c);
        let h = r.streams()[0].clone();
        if t == 0 {
            for f in probes.iter() {
                let got = spec(&h, *f, srate as f64);
                let x = (PI * f / srate as f64).tan() / (PI * fc as f64 / srate as f64).tan();
                let want = (1.0 / (1.0 + x.powi(4)).sqrt()).powi(ord as i32 + 1);
                c.checks += 1;
                if !((got - want).abs() <= 0.01 * want + 0.002) {
                    return Err(format!("{} Hz pass with the gain {} instead of {}", f, got, want));
                }
            }
        } else {
            // two poles of the set bandwidth at the frequency, zeros at both ends
            let rr = (-PI * q as f64 / srate as f64).exp();
            let w = TAU * fc as f64 / srate as f64;
            let b0 = (1.0 - rr * rr).sqrt() * 0.5;
            let (mut y1, mut y2) = (0.0, 0.0);
            for f in 0..n {
                let x = |k: usize| if f == k { 1.0 } else { 0.0 };
                let y = b0 * (x(0) - x(2)) + 2.0 * rr * w.cos() * y1 - rr * rr * y2;
                y2 = y1;
                y1 = y;
                c.checks += 1;
                if (h[f] as f64 - y).abs() > 0.05 * b0 {
                    return Err(format!("frame {}: {} instead of {}", f, h[f], y));
                }
            }
        }
        Ok(())
    });

    // --- the virtual analog filters
    let modes = fva_modes();
    let fcs: &[f32] = &[2000.0, 2500.0, 3000.0];
    mc.space("virtual analog responses", modes.len() as u64 * 3 * 2 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let (ft, sm, lm) = modes[d.take(modes.len())];
        let fc = fcs[d.take(3)];
        let chan = d.take(2);
        let srate = RATES[d.take(3)];
        let part = PARTS[d.take(2)];
        let id = NodeId::FVaFilt(0);
        c.log(|| format!("FVaFilt type {} svf mode {} ladder mode {} cutoff {} Hz channel {} at {} Hz", ft, sm, lm, fc, chan, srate));
        let imp = Sig::Impulse { amp: 0.2, at: 2000 };
        let (l, rr) = if chan == 0 { (imp, Sig::Const(0.0)) } else { (Sig::Const(0.0), imp) };
        let mut r = rig(
            id,
            &[("in_l", l), ("in_r", rr), ("freq", Sig::Const(norm(id, "freq", fc))), ("res", Sig::Const(0.25)), ("drive", Sig::Const(norm(id, "drive", 1.0)))],
            &[("ftype", ft), ("smode", sm), ("lmode", lm)],
            srate,
        );
        run_for(&mut r, 2000 + 4096, part, c);
        let s = r.streams();
        if s[1 - chan].iter().any(|x| x.abs() > 1e-6) {
            return Err("one channel is heard on the other".into());
        }
        let h: Vec<f32> = s[chan][2000..].iter().map(|x| x * 5.0).collect();
        let fc = fc as f64;
        let g = |f: f64| db(spec(&h, f, srate as f64));
        let (b, m, e) = (g(fc / 4.0), g(fc), g(fc * 3.0));
        // what a quarter of the cutoff, the cutoff and three times the cutoff have to come to in dB
        let want: [(f64, f64); 3] = match (ft, sm, lm) {
            (0, _, l) => match l {
                0..=3 => [(-2.5, 0.5), (-3.0 * (l + 1) as f64 - 1.0, -3.0 * (l + 1) as f64 + 1.0), (-10.3 * (l + 1) as f64 - 2.0, -10.3 * (l + 1) as f64 + 2.0)],
                4..=7 => [(-90.0, -10.0), (-3.0 * (l - 3) as f64 - 1.5, -3.0 * (l - 3) as f64 + 1.5), (-3.0, 0.5)],
                8 | 9 => {
                    let k = (l - 7) as f64;
                    [(-13.0 * k - 4.0, -13.0 * k + 4.0), (-6.0 * k - 1.5, -6.0 * k + 1.5), (-10.6 * k - 3.0, -10.6 * k + 3.0)]
                }
                _ => [(-2.5, 0.5), (-90.0, -20.0), (-3.0, 0.5)],
            },
            (1, s, _) => match s {
                0 => [(-7.0, -5.0), (-8.0, -4.0), (-23.0, -18.0)],
                1 => [(-44.0, -40.0), (-20.0, -16.0), (-16.0, -12.0)],
                2 => [(-26.0, -22.0), (-14.0, -10.0), (-20.0, -15.0)],
                3 => [(-14.0, -11.0), (-2.0, 1.0), (-9.0, -4.0)],
                _ => [(-1.0, 0.5), (-12.0, -6.0), (-3.0, 0.5)],
            },
            _ => [(-1.0, 1.0), (-5.0, -2.0), (-23.0, -17.0)],
        };
        if std::env::var("HX_SHOW").is_ok() {
            eprintln!("{} {} {} fc {} {}: {:.1} {:.1} {:.1}", ft, sm, lm, fc, srate, b, m, e);
        }
        for (k, (got, (lo, hi))) in [b, m, e].iter().zip(want.iter()).enumerate() {
            c.checks += 1;
            if !(lo <= got && got <= hi) {
                return Err(format!("{} the cutoff pass with {:.1} dB, expected were {} to {} dB", ["a quarter of", "signals at", "three times"][k], got, lo, hi));
            }
        }
        Ok(())
    });

    // --- their types and modes after one another
    mc.assume("the virtual analog types and the reverb tank are those of the synfx-dsp crate: the node is compared frame by frame with the crate's filter driven directly");
    let m = modes.len() as u64;
    mc.space("virtual analog histories", m * m * 4 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let ma = modes[d.take(modes.len())];
        let mb = modes[d.take(modes.len())];
        let set = d.take(4);
        let srate = RATES[d.take(3)];
        let rate2 = if d.flag() { RATES[(i as usize / 7) % 3] } else { srate };
        let part = PARTS[(i % 3) as usize];
        let id = NodeId::FVaFilt(0);
        c.log(|| format!("FVaFilt (type, svf mode, ladder mode) {:?} then {:?}, parameters {}, {} Hz then {} Hz", ma, mb, set, srate, rate2));
        let f = |v: f32| norm(id, "freq", v);
        let (fr, re, dr) = match set {
            0 => (Sig::Const(f(1000.0)), Sig::Const(0.5), Sig::Const(norm(id, "drive", 1.0))),
            1 => (Sig::Switch { a: f(300.0), b: f(4000.0), at: 170 }, Sig::Const(0.3), Sig::Const(norm(id, "drive", 4.0))),
            2 => (Sig::Const(f(2000.0)), Sig::Two { a: 0.1, b: 0.7, bits: 0b0110, n: 4 }, Sig::Const(norm(id, "drive", 1.0))),
            _ => (Sig::Two { a: f(500.0), b: f(700.0), bits: 0b10, n: 2 }, Sig::Const(0.4), Sig::Two { a: norm(id, "drive", 1.0), b: norm(id, "drive", 3.0), bits: 0b1100, n: 4 }),
        };
        let (sl, sr) = (Sig::Smooth(0), Sig::Pulse(1));
        let sets = |m: (i64, i64, i64)| [("ftype", m.0), ("smode", m.1), ("lmode", m.2)];
        let mut r = rig(id, &[("in_l", sl), ("in_r", sr), ("freq", fr), ("res", re), ("drive", dr)], &sets(ma), srate);
        let mut rf = VaRef::new();
        let mut want: Vec<[f32; 2]> = vec![];
        for (k, (m, rate, n)) in [(ma, srate, 150usize), (mb, srate, 100), (mb, rate2, 100), (ma, rate2, 60), (mb, rate2, 40), ((ma.0, ma.1, mb.2), rate2, 60)].iter().enumerate() {
            if k > 0 {
                for (p, v) in sets(*m).iter() {
                    r.nc.set_param(pid(id, p), SAtom::setting(*v));
                }
                if k == 2 && rate2 != srate {
                    r.x.set_sample_rate(*rate);
                }
            }
            for q in 0..*n {
                let at = r.frame + q;
                want.push(rf.frame(
                    *m,
                    *rate,
                    pid(id, "freq").denorm(fr.at(at)),
                    pid(id, "res").denorm(re.at(at)),
                    pid(id, "drive").denorm(dr.at(at)),
                    sl.at(at),
                    sr.at(at),
                ));
            }
            run_for(&mut r, *n, part, c);
        }
        let s = r.streams();
        for f in 0..want.len() {
            for ch in 0..2 {
                c.checks += 1;
                if !((s[ch][f] - want[f][ch]).abs() <= 1e-4 * (1.0 + want[f][ch].abs())) {
                    return Err(format!("frame {} channel {}: {} instead of {}", f, ch, s[ch][f], want[f][ch]));
                }
            }
        }
        c.observe(&want[200][0].to_bits());
        Ok(())
    });

    // --- SFilter and BiqFilt: what was set before is gone once it has died away
    mc.space("filters forget", 14 * 14 * 3 * 3 * 2 + 8 * 8 * 3 * 3, |i, c| {
        let biq = i >= 14 * 14 * 3 * 3 * 2;
        let mut d = Dec(if biq { i - 14 * 14 * 3 * 3 * 2 } else { i });
        let id = if biq { NodeId::BiqFilt(0) } else { NodeId::SFilter(0) };
        let (sa, sb) = if biq {
            (d.take(8) as i64, d.take(8) as i64)
        } else {
            (d.take(14) as i64, d.take(14) as i64)
        };
        let (fa, fb) = [(1000.0f32, 1000.0f32), (500.0, 3000.0), (5000.0, 700.0)][d.take(3)];
        let srate = RATES[d.take(3)];
        let rate2 = if !biq && d.flag() { 48000.0 } else { srate };
        let part = PARTS[(i % 3) as usize];
        let sets = |v: i64| if biq { vec![("ftype", v & 1), ("order", v >> 1)] } else { vec![("ftype", v)] };
        c.log(|| format!("{} setting {} then {}, cutoff {} then {} Hz, {} then {} Hz", if biq { "BiqFilt" } else { "SFilter" }, sa, sb, fa, fb, srate, rate2));
        let q = if biq { ("q", Sig::Const(1.0)) } else { ("res", Sig::Const(0.3)) };
        let (sw, end) = (2500usize, 3500usize);
        let imp = 2600u32;
        let mut r = rig(
            id,
            &[("inp", Sig::Burst { amp: 0.5, until: 300, imp: 0.5, at: imp }), ("freq", Sig::Switch { a: norm(id, "freq", fa), b: norm(id, "freq", fb), at: sw as u32 }), q],
            &sets(sa),
            srate,
        );
        run_for(&mut r, sw, part, c);
        for (p, v) in sets(sb).iter() {
            r.nc.set_param(pid(id, p), SAtom::setting(*v));
        }
        if rate2 != srate {
            r.x.set_sample_rate(rate2);
        }
        run_for(&mut r, end - sw, part, c);
        let got = r.streams()[0].clone();
        let mut r = rig(id, &[("inp", Sig::Impulse { amp: 0.5, at: imp }), ("freq", Sig::Const(norm(id, "freq", fb))), q], &sets(sb), rate2);
        run_for(&mut r, end, PARTS[0], c);
        let want = r.streams()[0].clone();
        // what has not died away yet when the settings change is left out of account
        if biq && (sa & 1 == 1 || sb & 1 == 1) {
            // the resonators sound for seconds
            return Ok(());
        }
        for f in imp as usize..end {
            c.checks += 1;
            if !((got[f] - want[f]).abs() <= 2e-3) {
                return Err(format!("frame {}: {} instead of {}", f, got[f], want[f]));
            }
        }
        Ok(())
    });

    // --- the reverb
    let nset = PV.len();
    mc.space("reverb", nset as u64 * 5 * 3 * 3 * 3, |i, c| {
        let mut d = Dec(i);
        let set = d.take(nset);
        let mix = d.take(5);
        let conn = d.take(3);
        let srate = RATES[d.take(3)];
        let part = PARTS[d.take(3)];
        let id = NodeId::PVerb(0);
        c.log(|| format!("PVerb parameters {} mix {} inputs {} at {} Hz", set, mix, conn, srate));
        let mixs = [Sig::Const(0.0), Sig::Const(1.0), Sig::Const(0.5), Sig::Const(0.3), Sig::Two { a: 0.2, b: 0.9, bits: 0b0010_0111, n: 8 }][mix];
        let (sl, sr) = (Sig::Smooth(0), Sig::Pulse(1));
        let mut drive: Vec<(&str, Sig)> = vec![("mix", mixs)];
        if conn != 1 {
            drive.push(("in_l", sl));
        }
        if conn != 0 {
            drive.push(("in_r", sr));
        }
        let mut ps = vec![];
        for (k, name) in PVN.iter().enumerate() {
            let v = norm(id, name, PV[set][k]);
            // one parameter moves in each set
            let s = if k == set % PVN.len() && set > 0 { Sig::Switch { a: v, b: norm(id, name, PV[0][k]), at: 500 } } else { Sig::Const(v) };
            drive.push((*name, s));
            ps.push(s);
        }
        let n = mc_frames(srate);
        let mut r = rig(id, &drive, &[], srate);
        run_for(&mut r, n, part, c);
        let s = r.streams();
        let mut verb = synfx_dsp::DattorroReverb::new();
        verb.set_sample_rate(srate as f64);
        let mut tail = 0.0f32;
        for f in 0..n {
            let (l, rr) = match conn {
                0 => (sl.at(f), sl.at(f)),
                1 => (sr.at(f), sr.at(f)),
                _ => (sl.at(f), sr.at(f)),
            };
            let mut vals = [0.0f64; 12];
            for k in 0..12 {
                vals[k] = pid(id, PVN[k]).denorm(ps[k].at(f)) as f64;
            }
            let (wl, wr) = verb.process(&mut PvSet(vals), l as f64, rr as f64);
            let m = mixs.at(f);
            tail = tail.max(wl.abs() as f32);
            for (ch, (dry, wet)) in [(l, wl as f32), (rr, wr as f32)].iter().enumerate() {
                let want = dry * (1.0 - m) + wet * m;
                c.checks += 1;
                if !((s[ch][f] - want).abs() <= 1e-4) {
                    return Err(format!("frame {} channel {}: {} instead of {} (dry {} wet {} mix {})", f, ch, s[ch][f], want, dry, wet, m));
                }
            }
        }
        c.observe(&(set, (tail * 1000.0) as i32));
        Ok(())
    });

    // --- what its parameters do to the sound
    mc.space("reverb parameters", 7 * 3 * 3 * 2, |i, c| {
        let mut d = Dec(i);
        let which = d.take(7);
        let srate = RATES[d.take(3)];
        let other = d.take(3);
        let part = PARTS[d.take(2)];
        let id = NodeId::PVerb(0);
        c.log(|| format!("PVerb question {} at {} Hz, background {}", which, srate, other));
        let sizes = [0.1f32, 0.3, 0.5];
        let go = |ch: &[(&str, f32)], amp: f32, secs: f32, c: &mut Case| {
            let mut v: Vec<f32> = PV[0].to_vec();
            v[1] = sizes[other];
            v[9] = 0.0;
            for (p, x) in ch.iter() {
                v[PVN.iter().position(|n| n == p).unwrap()] = *x;
            }
            let mut drive: Vec<(&str, Sig)> = vec![("mix", Sig::Const(1.0)), ("in_l", Sig::Impulse { amp, at: 10 })];
            for (k, name) in PVN.iter().enumerate() {
                drive.push((*name, Sig::Const(norm(id, name, v[k]))));
            }
            let mut r = rig(id, &drive, &[], srate);
            run_for(&mut r, (secs * srate) as usize, part, c);
            let s = r.streams();
            s[0].iter().zip(s[1].iter()).map(|(a, b)| *a + *b).collect::<Vec<f32>>()
        };
        let en = |h: &[f32]| h.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>();
        let first = |h: &[f32]| h.iter().position(|x| x.abs() > 1e-4).unwrap_or(h.len());
        // the energy after the first difference is taken out: high notes against low ones
        let high = |h: &[f32]| h.windows(2).map(|w| ((w[1] - w[0]) as f64).powi(2)).sum::<f64>() / en(h).max(1e-12);
        c.checks += 1;
        match which {
            0 => {
                // the pre-delay moves the whole response
                for ms in [10.0f32, 25.0] {
                    let a = go(&[("predly", 0.0)], 1.0, 0.4, c);
                    let b = go(&[("predly", ms)], 1.0, 0.4, c);
                    let want = first(&a) as f32 + ms * srate / 1000.0;
                    if (first(&b) as f32 - want).abs() > 4.0 {
                        return Err(format!("with {} ms pre-delay the first reflection comes in frame {} instead of {}", ms, first(&b), want));
                    }
                }
            }
            1 => {
                let e: Vec<f64> = [0.1f32, 0.5, 0.9].iter().map(|x| {
                    let h = go(&[("dcy", *x)], 1.0, 1.0, c);
                    en(&h[h.len() / 2..]) / en(&h)
                }).collect();
                if !(e[0] < e[1] && e[1] < e[2]) {
                    return Err(format!("shares of the energy in the second half for rising decay: {:?}", e));
                }
            }
            2 | 3 => {
                let p = ["ilpf", "rlpf"][which - 2];
                let e: Vec<f64> = [500.0f32, 3000.0, 18000.0].iter().map(|x| {
                    let h = go(&[(p, *x), ("dcy", 0.9)], 1.0, 0.6, c);
                    high(&h[h.len() / 2..])
                }).collect();
                if !(1.1 * e[0] < e[2]) {
                    return Err(format!("{}: share of high notes for a rising cutoff {:?}", p, e));
                }
            }
            4 | 5 => {
                let p = ["ihpf", "rhpf"][which - 4];
                let e: Vec<f64> = [20.0f32, 500.0, 3000.0].iter().map(|x| {
                    let h = go(&[(p, *x), ("dcy", 0.9)], 1.0, 0.6, c);
                    high(&h[h.len() / 2..])
                }).collect();
                if !(1.1 * e[0] < e[2]) {
                    return Err(format!("{}: share of high notes for a rising cutoff {:?}", p, e));
                }
            }
            _ => {
                // linear without modulation
                let a = go(&[], 0.25, 0.4, c);
                let b = go(&[], 1.0, 0.4, c);
                for f in 0..a.len() {
                    c.checks += 1;
                    if (4.0 * a[f] - b[f]).abs() > 1e-4 {
                        return Err(format!("frame {}: four times the input gives {} instead of {}", f, b[f], 4.0 * a[f]));
                    }
                }
            }
        }
        Ok(())
    });
}

const PVN: [&str; 12] = ["predly", "size", "dcy", "ilpf", "ihpf", "dif", "dmix", "mspeed", "mshp", "mdepth", "rlpf", "rhpf"];
/// parameter sets: the first one is the background, every other one is unlike it in all parameters
const PV: [[f32; 12]; 14] = [
    [5.0, 0.2, 0.5, 12000.0, 60.0, 1.0, 1.0, 0.1, 0.5, 0.1, 10000.0, 80.0],
    [0.0, 0.5, 0.3, 8000.0, 200.0, 0.5, 0.6, 0.3, 0.2, 0.3, 6000.0, 150.0],
    [2.0, 0.1, 0.9, 15000.0, 30.0, 0.8, 0.3, 0.5, 0.7, 0.2, 14000.0, 40.0],
    [1.0, 0.4, 0.1, 3000.0, 500.0, 0.3, 0.9, 0.7, 0.9, 0.5, 4000.0, 300.0],
    [3.0, 0.3, 0.6, 1000.0, 100.0, 0.6, 0.5, 0.2, 0.4, 0.4, 8000.0, 60.0],
    [4.0, 0.15, 0.7, 9000.0, 900.0, 0.4, 0.8, 0.05, 0.6, 0.15, 12000.0, 20.0],
    [6.0, 0.25, 0.8, 7000.0, 50.0, 0.1, 0.7, 0.4, 0.3, 0.25, 5000.0, 100.0],
    [7.0, 0.35, 0.2, 6000.0, 70.0, 0.7, 0.1, 0.6, 0.1, 0.35, 7000.0, 120.0],
    [8.0, 0.45, 0.4, 5000.0, 90.0, 0.9, 0.4, 0.9, 0.8, 0.45, 9000.0, 140.0],
    [2.5, 0.12, 0.65, 4000.0, 110.0, 0.2, 0.2, 0.8, 0.95, 0.05, 11000.0, 160.0],
    [3.5, 0.22, 0.75, 14000.0, 130.0, 0.35, 0.35, 0.15, 0.05, 0.9, 13000.0, 180.0],
    [4.5, 0.32, 0.85, 16000.0, 150.0, 0.45, 0.45, 0.25, 0.15, 0.6, 2000.0, 200.0],
    [5.5, 0.42, 0.95, 18000.0, 170.0, 0.55, 0.55, 0.35, 0.25, 0.7, 3000.0, 900.0],
    [6.5, 0.05, 0.35, 2000.0, 190.0, 0.65, 0.65, 0.45, 0.35, 0.8, 15000.0, 240.0],
];
struct PvSet([f64; 12]);
impl synfx_dsp::DattorroReverbParams for PvSet {
    fn pre_delay_time_ms(&self) -> f64 {
        self.0[0]
    }
    fn time_scale(&self) -> f64 {
        self.0[1]
    }
    fn decay(&self) -> f64 {
        self.0[2]
    }
    fn input_low_cutoff_hz(&self) -> f64 {
        self.0[3]
    }
    fn input_high_cutoff_hz(&self) -> f64 {
        self.0[4]
    }
    fn diffusion(&self) -> f64 {
        self.0[5]
    }
    fn input_diffusion_mix(&self) -> f64 {
        self.0[6]
    }
    fn mod_speed(&self) -> f64 {
        self.0[7]
    }
    fn mod_shape(&self) -> f64 {
        self.0[8]
    }
    fn mod_depth(&self) -> f64 {
        self.0[9]
    }
    fn reverb_low_cutoff_hz(&self) -> f64 {
        self.0[10]
    }
    fn reverb_high_cutoff_hz(&self) -> f64 {
        self.0[11]
    }
}
fn mc_frames(srate: f32) -> usize {
    (srate * 0.05) as usize
}

/// The filters of the synfx-dsp crate, driven directly: every type keeps its state while another one sounds.
struct VaRef {
    p: std::sync::Arc<synfx_dsp::fh_va::FilterParams>,
    ladder: synfx_dsp::fh_va::LadderFilter,
    svf: synfx_dsp::fh_va::Svf,
    sk: synfx_dsp::fh_va::SallenKey,
    dc: synfx_dsp::DCFilterX4,
    up: synfx_dsp::PolyIIRHalfbandFilter,
    down: synfx_dsp::PolyIIRHalfbandFilter,
}
impl VaRef {
    fn new() -> Self {
        use synfx_dsp::fh_va::*;
        let p = std::sync::Arc::new(FilterParams::new());
        VaRef {
            ladder: LadderFilter::new(p.clone()),
            svf: Svf::new(p.clone()),
            sk: SallenKey::new(p.clone()),
            dc: Default::default(),
            up: synfx_dsp::PolyIIRHalfbandFilter::new(8, true),
            down: synfx_dsp::PolyIIRHalfbandFilter::new(8, true),
            p,
        }
    }
    fn frame(&mut self, m: (i64, i64, i64), srate: f32, freq: f32, res: f32, drive: f32, l: f32, r: f32) -> [f32; 2] {
        use std::simd::f32x4;
        use synfx_dsp::fh_va::*;
        let lm = [
            LadderMode::LP6,
            LadderMode::LP12,
            LadderMode::LP18,
            LadderMode::LP24,
            LadderMode::HP6,
            LadderMode::HP12,
            LadderMode::HP18,
            LadderMode::HP24,
            LadderMode::BP12,
            LadderMode::BP24,
            LadderMode::N12,
        ][m.2 as usize];
        {
            let p = unsafe { std::sync::Arc::get_mut_unchecked(&mut self.p) };
            p.set_sample_rate(2.0 * srate);
            p.set_frequency(freq);
            p.set_resonance(res);
            p.drive = drive;
            p.ladder_mode = lm;
            p.mode = [SvfMode::LP, SvfMode::HP, SvfMode::BP1, SvfMode::BP2, SvfMode::Notch][m.1 as usize];
        }
        self.svf.update();
        self.sk.update();
        self.ladder.set_mix(lm);
        let x = self.dc.process(f32x4::from_array([l, r, 0.0, 0.0]));
        let mut out = f32x4::splat(0.0);
        for v in [x * f32x4::splat(2.0), f32x4::splat(0.0)] {
            let v = self.up.process(v);
            let y = match m.0 {
                0 => self.ladder.tick_newton(v),
                1 => self.svf.process(v),
                _ => self.sk.process(v),
            };
            out = self.down.process(y);
        }
        let o = out.as_array();
        [o[0], o[1]]
    }
}
