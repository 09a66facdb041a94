use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::HxTimedEvent;
use hexodsp::*;

/// what happens before the audio that is compared; the last rate set is always the same
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Rate(usize),
    Upload,
    /// one audio callback of that many frames, before anything is uploaded
    Empty(usize),
    Params,
    TakeOver,
}

const RATES: [f32; 4] = [44100.0, 96000.0, 22050.0, 48000.0];

fn drives(n: NodeId) -> Vec<Vec<Option<Sig>>> {
    let k = nin(n);
    let mixed: Vec<Option<Sig>> = (0..k)
        .map(|i| {
            let nm = n.inp_param_by_idx(i).unwrap().name();
            Some(if nm == "trig" || nm == "gate" || nm.starts_with("t_") || nm == "clock" { Sig::Gate(i as u32) } else { Sig::Smooth(i as u32) })
        })
        .collect();
    let trig: Vec<Option<Sig>> = mixed.iter().enumerate().map(|(i, d)| match d { Some(Sig::Gate(i)) => Some(Sig::Gate(*i)), _ if i == 0 => Some(Sig::Smooth(0)), _ => None }).collect();
    let mut v = vec![mixed, trig, vec![None; k]];
    if let NodeId::FVaFilt(_) | NodeId::BiqFilt(_) = n {
        for d in v.iter_mut() {
            for i in 1..k {
                d[i] = None;
            }
        }
    }
    v
}

fn exec(n: NodeId, drive: &[Option<Sig>], set: &[(ParamId, SAtom)], sts: &[St], change: Option<(usize, usize)>, base: usize, c: &mut Case) -> Vec<Vec<f32>> {
    let mut r = NRig::new(n, drive);
    crate::c07::prepare(&mut r);
    for (p, a) in set.iter() {
        r.nc.set_param(*p, a.clone());
    }
    for s in sts.iter() {
        c.step();
        match s {
            St::Rate(k) => r.x.set_sample_rate(RATES[*k]),
            St::Upload => r.upload(),
            St::Empty(k) => {
                let keep = r.frame;
                r.block(*k);
                r.frame = keep;
                r.clear_logs();
            }
            St::TakeOver => r.x.process_graph_updates(),
            St::Params => {
                if base > 0 && !matches!(n, NodeId::FVaFilt(_)) {
                    for i in 0..nin(n) {
                        r.nc.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(n, i, base)));
                    }
                }
            }
        }
    }
    r.clear_logs();
    let midi = matches!(n, NodeId::MidiP(_) | NodeId::MidiCC(_));
    for b in 0..10 {
        if let Some((at, to)) = change {
            if at == b {
                r.x.set_sample_rate(RATES[to]);
            }
        }
        if midi && b % 3 == 0 {
            let ev = [HxTimedEvent::note_on(5, 0, 60 + b as u8, 0.7), HxTimedEvent::cc(9, 0, 0, 0.1 * b as f32), HxTimedEvent::note_off(60, 0, 60 + b as u8)];
            let mut it = ev.iter().copied();
            r.x.feed_midi_events_from(|| it.next());
        }
        r.block(if b < 8 && matches!(n, NodeId::TSeq(_)) { 1 } else { 128 });
        c.step();
    }
    r.streams()
}

/// all sequences: Upload exactly once, last Rate is `last`, other Rates/empty blocks around, none of
/// which runs the node before the last rate change
fn prefixes(last: usize) -> Vec<Vec<St>> {
    let mut out = vec![];
    let alph = [St::Rate(0), St::Rate(1), St::Rate(2), St::Empty(16), St::TakeOver];
    // positions: a sequence of up to 3 alphabet steps, with Upload, Params and the final Rate inserted
    let n = seqs_upto(alph.len() as u64, 2);
    for i in 0..n {
        let s = seq_at(alph.len() as u64, i);
        for up in 0..=s.len() {
            for last_after_upload in [false, true] {
                let mut v: Vec<St> = vec![];
                for (k, x) in s.iter().enumerate() {
                    if k == up {
                        if !last_after_upload {
                            v.push(St::Rate(last));
                        }
                        v.push(St::Params);
                        v.push(St::Upload);
                    }
                    v.push(alph[*x]);
                }
                if up == s.len() {
                    if !last_after_upload {
                        v.push(St::Rate(last));
                    }
                    v.push(St::Params);
                    v.push(St::Upload);
                }
                if last_after_upload {
                    v.push(St::Rate(last));
                }
                // the node must not have run before the compared stretch, and the last rate must be `last`
                let u = v.iter().position(|x| *x == St::Upload).unwrap();
                if v[u..].iter().any(|x| matches!(x, St::Empty(_))) {
                    continue;
                }
                if v.iter().rev().find(|x| matches!(x, St::Rate(_))) != Some(&St::Rate(last)) {
                    continue;
                }
                if !out.contains(&v) {
                    out.push(v);
                }
            }
        }
    }
    out
}

fn close(a: &[f32], b: &[f32]) -> (usize, usize) {
    let mut bad = 0;
    let mut n = 0;
    for (x, y) in a.iter().zip(b.iter()) {
        n += 1;
        if !((x - y).abs() <= 0.05 + 0.05 * y.abs()) {
            bad += 1;
        }
    }
    (bad, n)
}

/// phase independent statistics: level, offset, activity
fn stats_close(a: &[f32], b: &[f32]) -> bool {
    let st = |v: &[f32]| {
        let n = v.len() as f32;
        let mean = v.iter().sum::<f32>() / n;
        let lvl = v.iter().map(|x| (x - mean).abs()).sum::<f32>() / n;
        let mut cr = 0.0;
        let mut act = 0.0;
        for w in v.windows(2) {
            if (w[0] > mean) != (w[1] > mean) {
                cr += 1.0;
            }
            act += (w[1] - w[0]).abs();
        }
        [mean, lvl, cr / 50.0, act / n]
    };
    let (x, y) = (st(a), st(b));
    x.iter().zip(y.iter()).all(|(p, q)| (p - q).abs() <= 0.05 + 0.25 * q.abs())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution renders one node type after one order of rate changes, creation, upload and callbacks; distinct observations are distinct reference streams.".into();
    let nodes = all_nodes();
    let mut scen: Vec<(NodeId, Vec<Option<Sig>>, Vec<(ParamId, SAtom)>, usize, usize)> = vec![];
    for n in nodes.iter() {
        let mut seen: Vec<(ParamId, usize)> = vec![];
        for (vi, set) in setting_variants(*n).into_iter().enumerate() {
            // three values of every setting
            let key = set.last().map(|s| s.0);
            if let Some(k) = key {
                match seen.iter_mut().find(|s| s.0 == k) {
                    Some(s) => s.1 += 1,
                    None => seen.push((k, 1)),
                }
                if seen.iter().any(|s| s.0 == k && s.1 > 3) && !mc.thorough() {
                    continue;
                }
            }
            for (di, d) in drives(*n).into_iter().enumerate() {
                for last in 0..RATES.len() {
                    if !mc.thorough() && last == 3 {
                        continue;
                    }
                    if vi > 0 && !mc.thorough() && last != 1 {
                        continue;
                    }
                    scen.push((*n, d.clone(), set.clone(), last, if di == 1 { 0 } else { 1 + vi % 3 }));
                    if di > 0 && (0..nin(*n)).any(|i| short_val(n.inp_param_by_idx(i).unwrap()).is_some()) {
                        scen.push((*n, d.clone(), set.clone(), last, SHORT));
                    }
                }
            }
        }
    }
    let pre: Vec<Vec<Vec<St>>> = (0..RATES.len()).map(prefixes).collect();
    mc.space("orders", scen.len() as u64, |idx, c| {
        let (n, d, set, last, base) = &scen[idx as usize];
        c.log(|| format!("{:?} drive {:?} settings {} rate {} ", n, d, set.len(), RATES[*last]));
        // reference: the rate is set first, then everything else
        let want = exec(*n, d, set, &[St::Rate(*last), St::Params, St::Upload], None, *base, c);
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        for p in pre[*last].iter() {
            let got = exec(*n, d, set, p, None, *base, c);
            for o in 0..want.len() {
                c.checks += want[o].len() as u64;
                crate::layout::diff(&format!("{:?} output {} at {} Hz after {:?}", n, o, RATES[*last], p), &got[o], &want[o])?;
            }
        }
        Ok(())
    });
    // while running: going through any intermediate rate (no audio in between) is the same as going there directly,
    // and repeating the rate changes nothing more
    mc.space("running", scen.len() as u64, |idx, c| {
        let (n, d, set, last, base) = &scen[idx as usize];
        c.log(|| format!("{:?} drive {:?} settings {} rate {} ", n, d, set.len(), RATES[*last]));
        for first in 0..3 {
            if first == *last {
                continue;
            }
            let mk = |mid: Option<usize>, twice: bool, c: &mut Case| {
                let mut r = NRig::new(*n, d);
                crate::c07::prepare(&mut r);
                for (p, a) in set.iter() {
                    r.nc.set_param(*p, a.clone());
                }
                r.x.set_sample_rate(RATES[first]);
                if *base > 0 && !matches!(n, NodeId::FVaFilt(_)) {
                    for i in 0..nin(*n) {
                        r.nc.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(*n, i, *base)));
                    }
                }
                r.upload();
                for _ in 0..9 {
                    r.block(16);
                }
                if let Some(m) = mid {
                    r.x.set_sample_rate(RATES[m]);
                }
                r.x.set_sample_rate(RATES[*last]);
                if twice {
                    r.x.set_sample_rate(RATES[*last]);
                }
                for _ in 0..6 {
                    r.block(128);
                    c.step();
                }
                r.streams()
            };
            let want = mk(None, false, c);
            for mid in [Some(0), Some(1), Some(2), Some(3)] {
                for twice in [false, true] {
                    let got = mk(mid, twice, c);
                    for o in 0..want.len() {
                        c.checks += want[o].len() as u64;
                        crate::layout::diff(
                            &format!("{:?} output {} running at {} Hz, changed to {} Hz via {:?}, twice {}", n, o, RATES[first], RATES[*last], mid, twice),
                            &got[o],
                            &want[o],
                        )?;
                    }
                }
            }
            c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        }
        Ok(())
    });
    // one frame at another rate, then the rate is changed: nearly the same as never having run at the other rate
    mc.space("one-frame-before", scen.len() as u64, |idx, c| {
        let (n, d, set, last, base) = &scen[idx as usize];
        if d.iter().all(|x| x.is_some()) && d.len() > 1 {
            // strongly modulated nodes are chaotic: one frame makes a difference
            return Ok(());
        }
        c.log(|| format!("{:?} drive {:?} settings {} rate {} ", n, d, set.len(), RATES[*last]));
        let want = exec(*n, d, set, &[St::Rate(*last), St::Params, St::Upload, St::Empty(1), St::Rate(3 - *last), St::Rate(*last)], None, *base, c);
        if want.iter().any(|w| w.iter().any(|x| !(x.abs() < 3.0))) {
            // a filter driven to instability
            return Ok(());
        }
        for first in 0..3 {
            let got = exec(*n, d, set, &[St::Rate(first), St::Params, St::Upload, St::Empty(1), St::Rate(*last)], None, *base, c);
            for o in 0..want.len() {
                c.checks += want[o].len() as u64;
                let (bad, len) = close(&got[o], &want[o]);
                if bad * 10 > len && !stats_close(&got[o], &want[o]) {
                    return Err(format!("{:?} output {} of {}: changed from {} to {} Hz after one frame, {} of {} frames differ", n, o, want.len(), RATES[first], RATES[*last], bad, len));
                }
            }
        }
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        Ok(())
    });
    mc.assume("a sample rate change clears what has run so far in some nodes; the third space therefore compares loosely: frames up to 10%, or level, offset, crossings and activity up to 25%");
    // at twice the rate everything takes twice the frames
    mc.space("twice-the-rate", scen.len() as u64 * 2, |idx, c| {
        let (n, d, set, last, base) = &scen[idx as usize / 2];
        let late = idx % 2 == 1;
        // the audio inputs are not slowed down; string, phase distortion and resonator are steep functions of the
        // frames and are judged at several rates by C36 and C37
        if matches!(n, NodeId::Inp(_) | NodeId::BowStri(_) | NodeId::VOsc(_)) || (matches!(n, NodeId::BiqFilt(_)) && set.iter().any(|s| s.0.name() == "ftype")) {
            return Ok(());
        }
        c.log(|| format!("{:?} drive {:?} settings {} variant {} late {}", n, d, set.len(), last, late));
        let low = [44100.0f32, 48000.0, 32000.0, 50000.0][*last];
        let mk = |k: usize, c: &mut Case| {
            let mut r = NRig::slow(*n, d, false, k);
            crate::c07::prepare(&mut r);
            for (p, a) in set.iter() {
                r.nc.set_param(*p, a.clone());
            }
            if !late {
                r.x.set_sample_rate(low * k as f32);
            }
            if *base > 0 && !matches!(n, NodeId::FVaFilt(_)) {
                for i in 0..nin(*n) {
                    r.nc.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(*n, i, *base)));
                }
            }
            r.upload();
            if late {
                r.x.process_graph_updates();
                r.x.set_sample_rate(low * k as f32);
            }
            let midi = matches!(n, NodeId::MidiP(_) | NodeId::MidiCC(_));
            for b in 0..40 * k {
                if midi {
                    let mut ev = vec![];
                    for q in 0..k {
                        if (b * 64 + q) % (k * 64 * 7) < k && (b / k) % 7 == 0 && q == 0 && b % k == 0 {
                            ev.push(HxTimedEvent::note_on(0, 0, 60 + (b / k) as u8, 0.7));
                            ev.push(HxTimedEvent::cc(0, 0, 0, 0.02 * (b / k) as f32));
                        }
                    }
                    if b % k == 0 && (b / k) % 7 == 5 {
                        ev.push(HxTimedEvent::note_off(0, 0, 60 + (b / k / 7 * 7) as u8));
                    }
                    let mut it = ev.iter().copied();
                    r.x.feed_midi_events_from(|| it.next());
                }
                if b == 0 && matches!(n, NodeId::TSeq(_)) {
                    for _ in 0..8 {
                        r.block(k);
                    }
                }
                r.block(64);
                c.step();
            }
            r.streams()
        };
        let (a, b) = (mk(1, c), mk(2, c));
        for o in 0..nout(*n) {
            let dec: Vec<f32> = b[o].iter().step_by(2).copied().collect();
            let m = a[o].len().min(dec.len());
            c.checks += m as u64;
            if a[o].iter().any(|x| !(x.abs() < 3.0)) {
                continue;
            }
            let (bad, len) = close(&a[o][..m], &dec[..m]);
            if bad * 10 > len && !stats_close(&a[o][..m], &dec[..m]) {
                return Err(format!("{:?} output {} drive {}: at {} and {} Hz {} of {} frames differ", n, o, d.iter().filter(|x| x.is_some()).count(), low, 2.0 * low, bad, len));
            }
        }
        Ok(())
    });
}
