use crate::eng::*;
use crate::mc::*;
use hexodsp::nodes::*;
use hexodsp::*;

const INPS: [&str; 5] = ["inp", "alpha", "beta", "delta", "gamma"];

struct Rec {
    e: Eng,
    logs: Vec<Log>,
}

fn rec(nr: usize, sr: f32) -> Rec {
    let mut e = engine(8, 8);
    e.x.set_sample_rate(sr);
    let mut logs = vec![];
    for k in 0..nr {
        let l = Log::default();
        e.m.set_dynamic_node1x1(k, probe(&l));
        logs.push(l);
        e.m.place(k % 8, k / 8, Cell::empty(NodeId::Rust1x1(k as u8)));
    }
    e.m.sync().unwrap();
    Rec { e, logs }
}
impl Rec {
    fn stream(&self, node: usize, i: usize) -> Vec<f32> {
        let l = self.logs[node].lock().unwrap();
        match i {
            0 => l.inp.clone(),
            1 => l.alpha.clone(),
            2 => l.beta.clone(),
            3 => l.delta.clone(),
            _ => l.gamma.clone(),
        }
    }
}

/// (frame, node, input, value)
type Ch = (usize, usize, usize, f32);

/// Runs with the changes made right before the frame given, blocks cut at `cuts` (besides the change frames).
fn run_cuts(nr: usize, sr: f32, total: usize, chs: &[Ch], cuts: &dyn Fn(usize) -> bool, c: &mut Case) -> Rec {
    let mut r = rec(nr, sr);
    let mut f = 0;
    while f < total {
        for ch in chs.iter().filter(|c| c.0 == f) {
            r.e.m.set_param(pid(NodeId::Rust1x1(ch.1 as u8), INPS[ch.2]), SAtom::param(ch.3));
            c.step();
        }
        let mut n = 1;
        while n < 128 && f + n < total && !chs.iter().any(|c| c.0 == f + n) && !cuts(f + n) {
            n += 1;
        }
        r.e.x.process_graph_updates();
        block(&mut r.e.x, &vec![0.0; n]);
        c.step();
        f += n;
    }
    r
}

/// straight ramp of n = 10 ms frames, then the target
fn ramp(sr: f32, total: usize, chs: &[Ch], node: usize, inp: usize) -> Vec<f64> {
    let n = (sr as f64 * 0.01).ceil();
    let mut v = vec![0.0; total];
    let (mut from, mut to, mut t0, mut cur) = (0.0f64, 0.0f64, -1e9f64, 0.0f64);
    for f in 0..total {
        for c in chs.iter().filter(|c| c.0 == f && c.1 == node && c.2 == inp) {
            from = cur;
            to = c.3 as f64;
            t0 = f as f64;
        }
        let k = f as f64 - t0 + 1.0;
        cur = if k >= n { to } else { from + (to - from) * k / n };
        v[f] = cur;
    }
    v
}

fn check_ramp(r: &Rec, sr: f32, total: usize, chs: &[Ch], node: usize, inp: usize, c: &mut Case) -> Result<Vec<u32>, String> {
    let got = r.stream(node, inp);
    let want = ramp(sr, total, chs, node, inp);
    if got.len() != total {
        return Err(format!("node {} saw {} frames instead of {}", node, got.len(), total));
    }
    let n = (sr * 0.01).ceil() as usize;
    let last = chs.iter().filter(|c| c.1 == node && c.2 == inp).map(|c| (c.0, c.3)).last();
    for f in 0..total {
        c.checks += 1;
        if (got[f] as f64 - want[f]).abs() > 2e-4 {
            return Err(format!("node {} {}: frame {} is {}, the ramp is at {}", node, INPS[inp], f, got[f], want[f]));
        }
        if let Some((t, v)) = last {
            if f >= t + n && got[f] != v {
                return Err(format!("node {} {}: frame {} is {:?} instead of exactly {:?}", node, INPS[inp], f, got[f], v));
            }
        }
    }
    Ok(bits(&got))
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution is a run of parameter changes cut into audio blocks; distinct observations are distinct value sequences seen by the node.".into();
    let srs: Vec<f32> = mc.pick(vec![44100.0, 8000.0, 96000.0], vec![44100.0, 8000.0, 22050.0, 48000.0, 96000.0, 11025.0]);
    // change times: a second change before, within, at the end of and after the first ramp
    let seconds: Vec<i64> = vec![-1, 0, 1, 2, 63, 64, 65, 128, 200, 300, 439, 440, 441, 442, 443, 500, 600];
    let firsts = [0usize, 1, 77];
    let total = 1400;
    for &sr in srs.iter() {
        let (seconds, firsts) = (&seconds, &firsts);
        let nb = mc.pick(24usize, 128usize);
        let sizes: Vec<usize> = if nb == 128 { (1..=128).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 13, 16, 21, 31, 32, 33, 50, 63, 64, 65, 77, 90, 100, 111, 126, 127, 128] };
        let (sizes, n2) = (&sizes, seconds.len());
        mc.space(&format!("block-sizes-{}", sr), (nb * n2 * firsts.len()) as u64, |idx, c| {
            let mut d = Dec(idx);
            let b = sizes[d.take(nb)];
            let t1 = firsts[d.take(firsts.len())];
            let s2 = seconds[d.take(n2)];
            let mut chs: Vec<Ch> = vec![(t1, 0, 0, 0.8), (t1, 0, 3, -0.5)];
            if s2 >= 0 {
                chs.push((t1 + s2 as usize, 0, 0, -0.3));
                if s2 % 2 == 1 {
                    chs.push((t1 + s2 as usize, 0, 4, 1.0));
                }
            }
            chs.sort_by_key(|c| c.0);
            c.log(|| format!("changes {:?}, blocks of {} frames", chs, b));
            let r = run_cuts(1, sr, total, &chs, &|f| f % b == 0, c);
            let q = run_cuts(1, sr, total, &chs, &|f| f % 64 == 0, c);
            for i in [0, 1, 3, 4] {
                let v = check_ramp(&r, sr, total, &chs, 0, i, c)?;
                if v != bits(&q.stream(0, i)) {
                    return Err(format!("{}: values differ between blocks of {} and of 64 frames", INPS[i], b));
                }
                c.observe(&v);
            }
            Ok(())
        });
    }
    // every subset of cut positions around the start and the end of a ramp
    let cand: Vec<usize> = mc.pick(
        vec![1, 2, 3, 64, 127, 129, 438, 440, 441, 442, 443, 444],
        vec![1, 2, 3, 64, 127, 128, 129, 255, 437, 438, 439, 440, 441, 442, 443, 444],
    );
    let t2s = [150usize, 441, 442];
    mc.space("cut-subsets", (1u64 << cand.len()) * 3, |idx, c| {
        let mut d = Dec(idx);
        let t2 = t2s[d.take(3)];
        let mask = d.0;
        let chs: Vec<Ch> = vec![(0, 0, 0, 0.7), (t2, 0, 1, 0.4), (t2 + 3, 0, 0, -0.9)];
        let total = 1000;
        let cuts: Vec<usize> = cand.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, c)| *c).collect();
        c.log(|| format!("changes {:?}, cut at {:?}", chs, cuts));
        let r = run_cuts(1, 44100.0, total, &chs, &|f| cuts.contains(&f), c);
        let q = run_cuts(1, 44100.0, total, &chs, &|_| true, c);
        for i in [0, 1, 2] {
            let v = check_ramp(&r, 44100.0, total, &chs, 0, i, c)?;
            if v != bits(&q.stream(0, i)) {
                return Err(format!("{}: values differ from those of one frame blocks", INPS[i]));
            }
            c.observe(&v);
        }
        Ok(())
    });
    // several parameters in flight, all staggerings from a small set
    let maxk = 36usize;
    let stag = [0usize, 1, 5, 13, 64];
    let bl = [1usize, 17, 64, 128];
    mc.space("parameters-in-flight", (maxk * stag.len() * bl.len()) as u64, |idx, c| {
        let mut d = Dec(idx);
        let k = 1 + d.take(maxk);
        let s = stag[d.take(stag.len())];
        let b = bl[d.take(bl.len())];
        let nr = (k + 4) / 5;
        let chs: Vec<Ch> = (0..k).map(|j| (j * s, j / 5, j % 5, 0.9 - 0.05 * j as f32)).collect();
        let total = k * s + 700;
        c.log(|| format!("{} parameters, one every {} frames, blocks of {}", k, s, b));
        let r = run_cuts(nr, 44100.0, total, &chs, &|f| f % b == 0, c);
        for j in 0..nr * 5 {
            let v = check_ramp(&r, 44100.0, total, &chs, j / 5, j % 5, c)?;
            c.observe(&v);
        }
        Ok(())
    });
    // all histories of changes of one or two parameters at a coarse time raster
    let slots = mc.pick(4usize, 5);
    let raster = 150;
    let vals = [f32::NAN, 0.5, -1.0, 0.25];
    mc.space("change-histories", pow(vals.len() as u64 * 2, slots as u32) * 2, |idx, c| {
        let mut d = Dec(idx);
        let b = if d.flag() { 1 } else { 100 };
        let mut chs: Vec<Ch> = vec![];
        for s in 0..slots {
            let which = d.take(2);
            let v = vals[d.take(vals.len())];
            if !v.is_nan() {
                chs.push((s * raster, 0, which, v));
            }
        }
        c.log(|| format!("changes {:?} blocks of {}", chs, b));
        let total = slots * raster + 500;
        let r = run_cuts(1, 44100.0, total, &chs, &|f| f % b == 0, c);
        for i in 0..3 {
            let v = check_ramp(&r, 44100.0, total, &chs, 0, i, c)?;
            c.observe(&v);
        }
        Ok(())
    });
    mc.assume("at most 36 parameters change within one smoothing time (the engine has a fixed number of ramps)");
    mc.assume("ramp values are compared with exact arithmetic within 2e-4, and bit for bit between block partitions");
}
