//! The mixing, routing and mapping nodes against their documented functions.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::*;

fn leak(v: Vec<f32>) -> &'static [f32] {
    Box::leak(v.into_boxed_slice())
}

/// drives input k through the values sets[k] so that all combinations occur, one per frame; unlisted inputs
/// keep their default. Returns per frame (input values, output values).
fn sweep(n: NodeId, sets: &[(&str, &'static [f32])], settings: &[(&str, i64)], parts: &[usize], c: &mut Case) -> Vec<(Vec<f32>, Vec<f32>)> {
    let mut drive = vec![None; nin(n)];
    let mut div = 1;
    let mut sigs = vec![];
    for (name, vals) in sets.iter() {
        let s = Sig::Steps { vals, div };
        drive[pid(n, name).inp() as usize] = Some(s);
        sigs.push(s);
        div *= vals.len();
    }
    let mut r = NRig::new(n, &drive);
    for (p, v) in settings.iter() {
        r.nc.set_param(pid(n, p), SAtom::setting(*v));
    }
    r.upload();
    let mut done = 0;
    let mut i = 0;
    while done < div {
        let b = parts[i % parts.len()].min(div - done);
        r.block(b);
        c.step();
        done += b;
        i += 1;
    }
    let logs: Vec<Vec<f32>> = r.logs.iter().map(|l| l.lock().unwrap().inp.clone()).collect();
    (0..div).map(|f| (sigs.iter().map(|s| s.at(f)).collect(), logs.iter().map(|l| l[f]).collect())).collect()
}

fn close(got: f32, want: f32) -> bool {
    (got - want).abs() <= 1e-5 * (1.0 + want.abs())
}

fn judge(what: &str, rows: &[(Vec<f32>, Vec<f32>)], c: &mut Case, f: impl Fn(&[f32]) -> Option<f32>) -> Result<(), String> {
    for (i, o) in rows.iter() {
        if let Some(want) = f(i) {
            c.checks += 1;
            if !close(o[0], want) {
                return Err(format!("{}: inputs {:?} give {} instead of {}", what, i, o[0], want));
            }
        }
    }
    c.observe(&rows.iter().map(|r| r.1[0].to_bits()).collect::<Vec<_>>());
    Ok(())
}

const PARTS: [&[usize]; 4] = [&[128], &[1], &[64, 3], &[7]];

pub fn run(mc: &mut Mc) {
    mc.rule = "One execution drives a node's inputs through all combinations of the listed values, one combination per frame, and compares every frame with the documented function; for the switch, an execution is one word of triggers.".into();
    let th = mc.thorough();
    let sig: &'static [f32] = if th { &[0.0, 1.0, -1.0, 0.35, -0.62, 0.05, 3.0, -7.0] } else { &[0.0, 1.0, -1.0, 0.35, -0.62, 3.0] };
    let amp: &'static [f32] = if th { &[0.0, 1.0, 0.5, 0.1, 0.87, 0.3] } else { &[0.0, 1.0, 0.5, 0.13] };

    mc.space("amplifier", 2 * 4, |idx, c| {
        let mut d = Dec(idx);
        let neg = d.take(2) as i64;
        let att: &'static [f32] = &[0.0, 1.0, 0.4, -0.3, -1.0, 0.77];
        let n = NodeId::Amp(0);
        let g = pid(n, "gain");
        let rows = sweep(n, &[("inp", sig), ("att", att), ("gain", amp)], &[("neg_att", neg)], PARTS[d.take(4)], c);
        judge("Amp", &rows, c, |i| Some(i[0] * if neg == 1 { i[1].max(0.0) } else { i[1].abs() } * g.denorm(i[2])))
    });
    mc.space("mixer", 4, |idx, c| {
        let n = NodeId::Mix3(0);
        let v = pid(n, "vol1");
        let s3: &'static [f32] = &[0.0, 1.0, -0.62, 2.5];
        let a3: &'static [f32] = &[0.0, 1.0, 0.5];
        let rows = sweep(n, &[("ch1", s3), ("ch2", s3), ("ch3", s3), ("vol1", a3), ("vol2", a3), ("vol3", a3), ("ovol", a3)], &[], PARTS[idx as usize], c);
        judge("Mix3", &rows, c, |i| {
            let d = |x: f32| v.denorm(x);
            Some((i[0] * d(i[3]) + i[1] * d(i[4]) + i[2] * d(i[5])) * d(i[6]))
        })
    });
    mc.space("range mapper", 2 * 3 * 4, |idx, c| {
        let mut d = Dec(idx);
        let clip = d.take(2) as i64;
        let atvs: &'static [f32] = [&[1.0f32, -1.0][..], &[0.5, -0.3], &[0.0, 0.9]][d.take(3)];
        let offs: &'static [f32] = &[0.0, 0.4, -0.7];
        let io: &'static [f32] = &[-1.0, 1.0, 0.0, 0.25];
        let i2: &'static [f32] = &[1.0, -1.0, 0.1, 0.0];
        let rows = sweep(
            NodeId::Map(0),
            &[("inp", sig), ("atv", atvs), ("offs", offs), ("imin", io), ("imax", i2), ("min", i2), ("max", io)],
            &[("clip", clip)],
            PARTS[d.take(4)],
            c,
        );
        judge("Map", &rows, c, |i| {
            let s = i[0] * i[1] + i[2];
            let (a, b, lo, hi) = (i[3], i[4], i[5], i[6]);
            if a == b {
                return None; // an empty input range
            }
            let x = lo + (hi - lo) * ((s - a) / (b - a));
            Some(if clip == 1 { x.clamp(lo.min(hi), lo.max(hi)) } else { x })
        })
    });
    mc.space("simple range mapper", 2 * 4 * 4, |idx, c| {
        let mut d = Dec(idx);
        let clip = d.take(2) as i64;
        let mode = d.take(4) as i64;
        let m: &'static [f32] = &[-1.0, 1.0, 0.0, 0.25, -0.4];
        let rows = sweep(NodeId::SMap(0), &[("inp", sig), ("min", m), ("max", m)], &[("clip", clip), ("mode", mode)], PARTS[d.take(4)], c);
        judge("SMap", &rows, c, |i| {
            let (a, b) = [(0.0, 1.0), (-1.0, 1.0), (1.0, 0.0), (1.0, -1.0)][mode as usize];
            let mut x = (i[0] - a) / (b - a);
            if clip == 1 {
                x = x.clamp(0.0, 1.0);
            }
            Some(i[1] + (i[2] - i[1]) * x)
        })
    });
    let nsel = mc.pick(512usize, 4096);
    let fine = leak((0..nsel).map(|k| (k as f32 + 0.25) / nsel as f32).collect());
    mc.space("switch, selected by signal", 9 * 4, |idx, c| {
        let mut d = Dec(idx);
        let cnt = d.take(9);
        let n = NodeId::Mux9(0);
        let mut sets: Vec<(String, &'static [f32])> = vec![("slct".into(), fine)];
        for i in 0..9 {
            sets.push((format!("in_{}", i + 1), leak(vec![0.11 * i as f32 - 0.5])));
        }
        let sr: Vec<(&str, &'static [f32])> = sets.iter().map(|s| (s.0.as_str(), s.1)).collect();
        let rows = sweep(n, &sr, &[("in_cnt", cnt as i64)], PARTS[d.take(4)], c);
        judge("Mux9", &rows, c, |i| {
            let p = i[0] * (cnt + 1) as f32;
            if (p - p.round()).abs() < 1e-3 {
                return None;
            }
            Some(i[1 + p as usize])
        })
    });
    // triggers: 0 nothing, 1 reset, 2 up, 3 down
    let len = mc.pick(6u32, 8);
    let cnts = [1usize, 2, 3, 9];
    mc.space("switch, stepped by triggers", pow(4, len) * 4 * 2, |idx, c| {
        let mut d = Dec(idx);
        let cnt = cnts[d.take(4)];
        let one = d.flag();
        let w: Vec<usize> = (0..len).map(|_| d.take(4)).collect();
        c.log(|| format!("{} inputs, triggers {:?}", cnt, w));
        let n = NodeId::Mux9(0);
        // three frames per letter, high in the first two; a repeated letter is a new trigger
        let mut drive = vec![None; nin(n)];
        for (k, p) in ["t_rst", "t_up", "t_down"].iter().enumerate() {
            let mut v = vec![];
            for x in w.iter() {
                let h = if *x == k + 1 { 1.0 } else { 0.0 };
                v.extend([h, h, 0.0]);
            }
            let mut bits = 0;
            for (i, h) in v.iter().enumerate() {
                if *h > 0.5 {
                    bits |= 1 << i;
                }
            }
            drive[pid(n, p).inp() as usize] = Some(Sig::Word { bits, n: v.len() as u32, hold: 1, skip: 0 });
        }
        let mut r = NRig::new(n, &drive);
        r.nc.set_param(pid(n, "in_cnt"), SAtom::setting(cnt as i64 - 1));
        for i in 0..9 {
            r.nc.set_param(pid(n, &format!("in_{}", i + 1)), SAtom::param(0.1 * i as f32 - 0.5));
        }
        // a knob that must not matter while triggers are in use
        r.nc.set_param(pid(n, "slct"), SAtom::param(0.99));
        r.upload();
        // parameters settle while the triggers of the first round step the switch
        let t = w.len() * 3;
        for _ in 0..40 {
            r.block(t);
        }
        let mut pos = 0usize;
        let step = |pos: &mut usize| {
            for x in w.iter() {
                match x {
                    1 => *pos = 0,
                    2 => *pos = (*pos + 1) % cnt,
                    3 => *pos = (*pos + cnt - 1) % cnt,
                    _ => {}
                }
            }
        };
        for _ in 0..40 {
            step(&mut pos);
        }
        r.clear_logs();
        if one {
            for _ in 0..t {
                r.block(1);
                c.step();
            }
        } else {
            r.block(t);
            c.step();
        }
        let l = r.logs[0].lock().unwrap().inp.clone();
        for (i, x) in w.iter().enumerate() {
            match x {
                1 => pos = 0,
                2 => pos = (pos + 1) % cnt,
                3 => pos = (pos + cnt - 1) % cnt,
                _ => {}
            }
            for k in 0..3 {
                c.checks += 1;
                if !close(l[3 * i + k], 0.1 * pos as f32 - 0.5) {
                    return Err(format!("after trigger {} (frame {}): output {} instead of input {}", i, 3 * i + k, l[3 * i + k], pos + 1));
                }
            }
        }
        c.observe(&(bits(&l), cnt));
        Ok(())
    });
    mc.space("switch, number of inputs changed while it runs", 9 * 9 * 9 * 2 * 3 * 2, |idx, c| {
        let mut d = Dec(idx);
        let (from, to, k) = (d.take(9) + 1, d.take(9) + 1, d.take(9));
        let down = d.flag();
        let bs = [4usize, 1, 128][d.take(3)];
        // frames until the next trigger
        let ph = d.take(2);
        c.log(|| format!("{} inputs become {} after {} triggers ({}), blocks of {}", from, to, k, if down { "down" } else { "up" }, bs));
        let n = NodeId::Mux9(0);
        let mut drive = vec![None; nin(n)];
        drive[pid(n, if down { "t_down" } else { "t_up" }).inp() as usize] = Some(Sig::Word { bits: 0b0110, n: 4, hold: 1, skip: 2048 });
        let mut r = NRig::new(n, &drive);
        r.nc.set_param(pid(n, "in_cnt"), SAtom::setting(from as i64 - 1));
        for i in 0..9 {
            r.nc.set_param(pid(n, &format!("in_{}", i + 1)), SAtom::param(0.1 * i as f32 - 0.5));
        }
        r.upload();
        for _ in 0..16 {
            r.block(128);
        }
        for _ in 0..k {
            r.block(4);
        }
        if ph == 1 {
            r.block(3);
        }
        r.clear_logs();
        r.block(1);
        r.nc.set_param(pid(n, "in_cnt"), SAtom::setting(to as i64 - 1));
        // the frame before, then twelve triggers, the first in the frame of the change or one later
        let mut left = 48;
        while left > 0 {
            let b = bs.min(left);
            r.block(b);
            left -= b;
            c.step();
        }
        let l = r.logs[0].lock().unwrap().inp.clone();
        let at = |f: usize| {
            let p = (l[f] + 0.5) * 10.0;
            if (p - p.round()).abs() < 0.01 { Ok(p.round() as i64) } else { Err(format!("frame {}: output {} is no input", f, l[f])) }
        };
        let mut pos = at(0)?;
        let k = (k + ph) as i64;
        let (to, want) = (to as i64, if down { -k } else { k }.rem_euclid(from as i64));
        c.checks += 1;
        if pos != want {
            return Err(format!("input {} passed before the change, expected {}", pos + 1, want + 1));
        }
        for f in 1..49 {
            c.checks += 2;
            let p = at(f)?;
            if p < 0 || p >= to {
                return Err(format!("frame {} after the change: input {} passed, but {} are selected", f, p + 1, to));
            }
            // the position behind the last input becomes any of them, but is then kept
            if f == 1 && pos >= to {
                let prev = if down { p + 1 } else { p - 1 };
                c.observe(&(from, to, prev));
                pos = p;
                continue;
            }
            let want = if (f + 4 - ph) % 4 == 1 { (pos + if down { -1 } else { 1 }).rem_euclid(to) } else { pos };
            if p != want {
                return Err(format!("frame {} after the change: input {} passed instead of {}", f, p + 1, want + 1));
            }
            pos = p;
        }
        Ok(())
    });
    // quantizers
    let masks: Vec<i64> = mc.pick((0..12).map(|b| 1 << b).chain([0, 0xfff, 0xab5, 0x5ad, 0x801, 0x028, 0x555, 0x111]).collect(), (0..4096).collect());
    let nm = masks.len();
    let semis = leak((-48..=36).map(|s| s as f32 / 120.0).collect());
    mc.space("pitch quantizer", nm as u64 * 3, |idx, c| {
        let mut d = Dec(idx);
        let mask = masks[d.take(nm)];
        let oct: &'static [f32] = [&[0.0f32][..], &[0.2], &[-0.1]][d.take(3)];
        let rows = sweep(NodeId::Quant(0), &[("freq", semis), ("oct", oct)], &[("keys", mask)], &[128], c);
        let m = if mask == 0 { 0xfff } else { mask };
        // pitch 0 is A4, key 0 is C
        let sel = |s: i64| m >> ((s + 9).rem_euclid(12)) & 1 == 1;
        for (i, o) in rows.iter() {
            let s = (i[0] * 120.0).round() as i64;
            let dist = (0..12).find(|k| sel(s + k) || sel(s - k)).unwrap();
            let got = (o[0] - i[1]) * 120.0;
            c.checks += 1;
            let ok = [s - dist, s + dist].iter().any(|t| sel(*t) && (got - *t as f32).abs() < 0.01);
            if !ok {
                return Err(format!("keys {:03x}: semitone {} becomes {}, the closest selected one is {} away", mask, s, got, dist));
            }
        }
        c.observe(&rows.iter().map(|r| r.1[0].to_bits()).collect::<Vec<_>>());
        Ok(())
    });
    let ctl = leak((0..480).map(|k| (k as f32 + 0.3) / 480.0).collect());
    mc.space("control pitch quantizer", nm as u64 * 25, |idx, c| {
        let mut d = Dec(idx);
        let mask = masks[d.take(nm)];
        let (omin, omax) = (d.take(5) as i64, d.take(5) as i64);
        let oct: &'static [f32] = if (idx / 3) % 2 == 0 { &[0.0] } else { &[0.1] };
        let rows = sweep(NodeId::CQnt(0), &[("inp", ctl), ("oct", oct)], &[("keys", mask), ("omin", omin), ("omax", omax)], &[128], c);
        let m = if mask == 0 { 0xfff } else { mask };
        let mut keys = vec![];
        for o in -omin..=omax {
            for k in 0..12 {
                if m >> k & 1 == 1 {
                    keys.push(o as f32 * 0.1 + (k - 9) as f32 / 120.0);
                }
            }
        }
        judge("CQnt", &rows, c, |i| {
            let p = i[0] * keys.len() as f32;
            if (p - p.round()).abs() < 1e-3 {
                return None;
            }
            Some(keys[p as usize] + i[1])
        })?;
        c.observe(&(mask, omin, omax));
        Ok(())
    });
    // the trigger output of the quantizers
    let tv: [f32; 4] = [0.1, 0.1001, 0.6, 0.35];
    mc.space("change triggers", 2 * pow(4, 6) * 2, |idx, c| {
        let mut d = Dec(idx);
        let cq = d.flag();
        let fast = d.flag();
        let w: Vec<f32> = (0..6).map(|_| tv[d.take(4)]).collect();
        let hold = if fast { 40 } else { 200 };
        let n = if cq { NodeId::CQnt(0) } else { NodeId::Quant(0) };
        let first = pid(n, if cq { "inp" } else { "freq" }).inp() as usize;
        let mut drive = vec![None; nin(n)];
        drive[first] = Some(Sig::Steps { vals: leak(w.clone()), div: hold });
        let mut r = NRig::new(n, &drive);
        r.upload();
        for _ in 0..(6 * hold / 40) {
            r.block(40);
            c.step();
        }
        let s = r.logs[0].lock().unwrap().inp.clone();
        let t = r.logs[1].lock().unwrap().inp.clone();
        let mut since = 0usize;
        for f in 0..s.len() {
            let ch = f == 0 || s[f] != s[f - 1];
            since = if ch { 0 } else { since + 1 };
            c.checks += 1;
            // a pulse begins with every new pitch and is over after 3 ms
            if ch && t[f] < 0.75 {
                return Err(format!("frame {}: the pitch changes to {} without a trigger", f, s[f]));
            }
            if since > 132 && t[f] != 0.0 {
                return Err(format!("frame {}: trigger output {} although the pitch has not changed for {} frames", f, t[f], since));
            }
        }
        c.observe(&bits(&t));
        Ok(())
    });
    // audio ports
    mc.space("audio ports", 2 * 4, |idx, c| {
        let mut d = Dec(idx);
        let mono = d.take(2) as i64;
        let part = PARTS[d.take(4)];
        let n = NodeId::Out(0);
        let vol: &'static [f32] = &[1.0, 0.0, 0.5, 0.12];
        let s = [Sig::Steps { vals: sig, div: 1 }, Sig::Steps { vals: sig, div: sig.len() }, Sig::Steps { vals: vol, div: sig.len() * sig.len() }];
        let mut drive = vec![None; nin(n)];
        for (k, p) in ["ch1", "ch2", "vol"].iter().enumerate() {
            drive[pid(n, p).inp() as usize] = Some(s[k]);
        }
        let mut r = NRig::new(n, &drive);
        r.nc.set_param(pid(n, "mono"), SAtom::setting(mono));
        r.upload();
        let total = sig.len() * sig.len() * vol.len();
        let mut i = 0;
        while r.frame < total {
            let b = part[i % part.len()].min(total - r.frame);
            r.block(b);
            c.step();
            i += 1;
        }
        let v = pid(n, "vol");
        for f in 0..total {
            let k = v.denorm(s[2].at(f));
            let (a, b) = (k * s[0].at(f), k * s[if mono == 1 { 0 } else { 1 }].at(f));
            c.checks += 2;
            if !close(r.out.0[f], a) || !close(r.out.1[f], b) {
                return Err(format!("Out, mono {}: frame {} is {:?} instead of {:?}", mono, f, (r.out.0[f], r.out.1[f]), (a, b)));
            }
        }
        // and the inputs
        let n = NodeId::Inp(0);
        let mut drive = vec![None; nin(n)];
        drive[pid(n, "vol").inp() as usize] = Some(Sig::Steps { vals: vol, div: 16 });
        let mut r = NRig::new(n, &drive);
        r.upload();
        let mut i = 0;
        while r.frame < 256 {
            let b = part[i % part.len()].min(256 - r.frame);
            r.block(b);
            c.step();
            i += 1;
        }
        let v = pid(n, "vol");
        for f in 0..256 {
            let k = v.denorm(vol[(f / 16) % 4]);
            let (a, b) = (k * Sig::Smooth(20).at(f), k * Sig::Smooth(23).at(f));
            let (x, y) = (r.logs[0].lock().unwrap().inp[f], r.logs[1].lock().unwrap().inp[f]);
            c.checks += 2;
            if !close(x, a) || !close(y, b) {
                return Err(format!("Inp: frame {} is {:?} instead of {:?}", f, (x, y), (a, b)));
            }
        }
        c.observe(&(bits(&r.logs[0].lock().unwrap().inp), mono));
        Ok(())
    });
}
