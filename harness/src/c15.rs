//! What the oscilloscope shows.
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::SCOPE_SAMPLES;
use hexodsp::*;
use std::sync::Arc;

const SC: NodeId = NodeId::Scope(0);
/// frames before the scripted signals start
const WARM: u32 = 600;

struct Run {
    r: NRig,
    h: Arc<ScopeHandle>,
    sig: [Sig; 3],
    time_ms: f32,
    srate: f32,
}

/// the displayed time that results from setting `ms`
fn shown_time(ms: f32) -> f32 {
    let p = pid(SC, "time");
    p.denorm(p.norm(ms))
}

fn start(ms: f32, srate: f32, sig: [Sig; 3], trig: Option<Sig>, tsrc: i64, thr: f32) -> Run {
    let mut drive = vec![Some(sig[0]), Some(sig[1]), Some(sig[2]), None, trig];
    drive.resize(nin(SC), None);
    let mut r = NRig::new(SC, &drive);
    r.x.set_sample_rate(srate);
    let p = pid(SC, "time");
    r.nc.set_param(p, SAtom::param(p.norm(ms)));
    r.nc.set_param(pid(SC, "thrsh"), SAtom::param(thr));
    r.nc.set_param(pid(SC, "tsrc"), SAtom::setting(tsrc));
    r.upload();
    let h = r.nc.get_node_global().lock().unwrap().get_scope_handle(0);
    Run { r, h, sig, time_ms: shown_time(ms), srate }
}

impl Run {
    fn spb(&self) -> f64 {
        (self.time_ms as f64 * self.srate as f64 / 1000.0) / SCOPE_SAMPLES as f64
    }
    fn block(&mut self, n: usize) {
        self.r.block(n);
    }
    fn slots(&self, i: usize) -> Vec<(f32, f32)> {
        (0..SCOPE_SAMPLES).map(|k| self.h.read(i, k)).collect()
    }
    fn frame_at(&self, ctr: usize, v: f32) -> Option<usize> {
        if let Sig::Count(period) = self.sig[ctr] {
            if v <= 0.0 {
                return None;
            }
            Some((v * period as f32) as usize - 1)
        } else {
            panic!()
        }
    }
    /// every shown stretch must be the exact (max, min) of the frames the counter signal on input
    /// `ctr` says it covers, and these stretches must follow each other without a gap
    fn judge(&self, ctr: usize, c: &mut Case) -> Result<Vec<Option<(usize, usize)>>, String> {
        let spb = self.spb();
        let s = self.slots(ctr);
        let mut spans: Vec<Option<(usize, usize)>> = vec![];
        for (ma, mi) in s.iter() {
            spans.push(match (self.frame_at(ctr, *mi), self.frame_at(ctr, *ma)) {
                (Some(a), Some(b)) => Some((a, b)),
                (None, None) => None,
                _ => return Err(format!("a stretch shows {:?}, the signal is never 0 or below", (ma, mi))),
            });
        }
        for i in 0..3 {
            let v = self.slots(i);
            for (k, sp) in spans.iter().enumerate() {
                if let Some((a, b)) = sp {
                    let mut want = (f32::MIN, f32::MAX);
                    for f in *a..=*b {
                        let x = self.sig[i].at(f);
                        want = (want.0.max(x), want.1.min(x));
                    }
                    c.checks += 1;
                    if v[k] != want {
                        return Err(format!("input {}: stretch {} (frames {}..={}) shows {:?} instead of {:?}", i + 1, k, a, b, v[k], want));
                    }
                }
            }
        }
        // contiguous, apart from one place: where the running recording meets the previous one
        let mut breaks = 0;
        for k in 1..SCOPE_SAMPLES {
            if let (Some(p), Some(q)) = (spans[k - 1], spans[k]) {
                let same = spb < 1.0 && p == q;
                if q.0 != p.1 + 1 && !same {
                    breaks += 1;
                    if q.0 > p.1 {
                        return Err(format!("stretch {} covers frames {:?}, stretch {} {:?}: frames are missing", k - 1, p, k, q));
                    }
                }
            }
        }
        if breaks > 1 {
            return Err(format!("{} places where the shown stretches do not follow each other", breaks));
        }
        Ok(spans)
    }
}

/// free running display
fn free(ms: f32, srate: f32, parts: &[usize], recs: f64, c: &mut Case) -> Result<(), String> {
    let sig = [Sig::Count(65536 * 8), Sig::Smooth(3), Sig::Two { a: -0.7, b: 0.9, bits: 0b100101, n: 6 }];
    let mut x = start(ms, srate, sig, None, 0, 0.0);
    let spb = x.spb();
    let per = (spb * SCOPE_SAMPLES as f64).ceil() as usize;
    let copies = if spb < 1.0 { (1.0 / spb).floor() as usize } else { 0 };
    let per = if spb < 1.0 { (SCOPE_SAMPLES + copies - 1) / copies } else { per };
    let total = (per as f64 * recs) as usize + 64;
    c.log(|| format!("time {} ms at {} Hz: {:.3} frames per stretch, {} frames in blocks of {:?}", ms, srate, spb, total, parts));
    let mut done = 0;
    let mut i = 0;
    while done < total {
        let n = parts[i % parts.len()].min(total - done);
        x.block(n);
        done += n;
        i += 1;
        c.step();
    }
    let spans = x.judge(0, c)?;
    let got: Vec<(usize, usize)> = spans.iter().filter_map(|x| *x).collect();
    c.observe(&got);
    if recs > 1.0 && got.len() < SCOPE_SAMPLES {
        return Err(format!("only {} of {} stretches are filled after {} recordings", got.len(), SCOPE_SAMPLES, recs));
    }
    // the newest shown frame is current
    let newest = got.iter().map(|x| x.1).max().unwrap();
    c.checks += 3;
    if (newest as f64) < total as f64 - spb - 3.0 {
        return Err(format!("newest shown frame is {} of {}", newest, total));
    }
    // time scale inside each of the two recordings
    let brk = (1..SCOPE_SAMPLES).find(|k| matches!((spans[*k - 1], spans[*k]), (Some(p), Some(q)) if q.0 < p.0)).unwrap_or(SCOPE_SAMPLES);
    for (lo, hi) in [(0, brk), (brk, SCOPE_SAMPLES)] {
        if lo >= hi {
            continue;
        }
        let a0 = match spans[lo] {
            Some(s) => s.0,
            None => spans[lo + 1].map(|s| s.0).unwrap_or(0).saturating_sub(spb as usize),
        } as f64;
        for k in lo..hi {
            if let Some((_, b)) = spans[k] {
                let want = if spb < 1.0 { (k / copies - lo / copies) as f64 } else { (k - lo + 1) as f64 * spb };
                let len = if spb < 1.0 { b as f64 - a0 } else { b as f64 - a0 + 1.0 };
                // f32 time keeping: allow a drift of 0.1 percent
                if (len - want).abs() > 2.5 + want * 0.001 {
                    return Err(format!("stretch {} of a recording begun in stretch {} ends {} frames after it began, not {:.1}", k, lo, len, want));
                }
            }
        }
    }
    // the running recording went on right after the previous one
    if brk < SCOPE_SAMPLES {
        if let (Some(l), Some(f)) = (spans[SCOPE_SAMPLES - 1], spans[0]) {
            if f.0 != l.1 + 1 {
                return Err(format!("previous recording ended with frame {}, this one begins with frame {}", l.1, f.0));
            }
        }
    }
    Ok(())
}

/// triggered display, with recordings of a few frames
fn triggered(word: u32, n: u32, ms: f32, ext: bool, thr: f32, parts: &[usize], c: &mut Case) -> Result<(), String> {
    let trig = Sig::Word { bits: word, n, hold: 1, skip: WARM };
    let ctr = Sig::Count(65536);
    let lows = Sig::Two { a: -0.8, b: -0.9, bits: 0b0110, n: 4 };
    // the input that must not matter stays silent or busy
    let (sig, tin) = if ext { ([lows, ctr, lows], Some(trig)) } else { ([trig, ctr, lows], Some(Sig::Two { a: -0.8, b: 0.9, bits: 0b01, n: 2 })) };
    let mut x = start(ms, 44100.0, sig, tin, if ext { 2 } else { 1 }, thr);
    let copies = (1.0 / x.spb()).floor() as usize;
    let per = (SCOPE_SAMPLES + copies - 1) / copies;
    c.log(|| format!("trigger word {:0w$b} (lowest first), recordings of {} frames, threshold {}, {}, blocks {:?}", word, per, thr, if ext { "extern" } else { "intern" }, parts, w = n as usize));
    x.block(128);
    for _ in 0..3 {
        x.block(128);
    }
    x.block(WARM as usize - 512);
    // reference: the recording in progress (start frame, frames so far), and the previous one
    let first = x.judge(1, c)?;
    let mut shown: Vec<usize> = first.iter().map(|s| s.map(|s| s.0).unwrap_or(0)).collect();
    let full_at = |f0: usize| f0 + per - 1;
    let s0 = first[SCOPE_SAMPLES - 1].map(|s| s.0).unwrap_or(0);
    // the recording of the warm-up is complete: `s0` is its last frame
    let mut end = s0; // last frame of the recording
    let mut begun: Option<usize> = None; // first frame of the recording in progress
    let mut f = WARM as usize;
    let total = WARM as usize + 2 * n as usize;
    let mut bi = 0;
    let mut prev = trig.at(f - 1);
    while f < total {
        let b = parts[bi % parts.len()].min(total - f);
        bi += 1;
        x.block(b);
        c.step();
        for g in f..f + b {
            let v = trig.at(g);
            if let Some(f0) = begun {
                // recording
                let k = (g - f0) * copies;
                for s in k..(k + copies).min(SCOPE_SAMPLES) {
                    shown[s] = g;
                }
                if g == full_at(f0) {
                    begun = None;
                    end = g;
                }
            } else if g > end && v > thr && prev <= thr {
                begun = Some(g + 1);
            }
            prev = v;
        }
        f += b;
        let spans = x.judge(1, c)?;
        for k in 0..SCOPE_SAMPLES {
            if let Some((a, e)) = spans[k] {
                if a != e || a != shown[k] {
                    return Err(format!("after frame {}: position {} shows frame {}, the recording has frame {} there", f - 1, k, a, shown[k]));
                }
            } else if shown[k] != 0 {
                return Err(format!("after frame {}: position {} shows nothing", f - 1, k));
            }
        }
        c.checks += SCOPE_SAMPLES as u64;
        c.observe(&shown);
    }
    Ok(())
}

/// triggered display with stretches of several frames: a pulse at every frame around the end of a recording
fn triggered_slow(d: i64, ms: f32, ext: bool, len: u32, part: usize, c: &mut Case) -> Result<(), String> {
    let ctr = Sig::Count(65536 * 4);
    let run = |at: Option<u32>, until: usize, c: &mut Case| -> Result<Vec<Option<(usize, usize)>>, String> {
        let trig = match at {
            Some(a) => Sig::Word { bits: (1 << len) - 1, n: 30, hold: 1, skip: a },
            None => Sig::Const(0.0),
        };
        let z = Sig::Const(-0.3);
        let (sig, tin) = if ext { ([z, ctr, Sig::Smooth(2)], Some(trig)) } else { ([trig, ctr, Sig::Smooth(2)], None) };
        let mut x = start(ms, 44100.0, sig, tin, if ext { 2 } else { 1 }, 0.5);
        let mut f = 0;
        while f < until {
            let n = part.min(until - f);
            x.block(n);
            f += n;
            c.step();
        }
        x.judge(1, c)
    };
    let per = (shown_time(ms) * 44.1) as usize;
    let first = run(None, per + 40, c)?;
    let end = first[SCOPE_SAMPLES - 1].ok_or("the first recording was not completed")?.1;
    // without a passage through the threshold the display is frozen
    if run(None, per + 90, c)? != first {
        return Err("the display changes although the threshold was never passed".into());
    }
    // a pulse of `len` frames at end + d (the word repeats only after 30 frames)
    let at = (end as i64 + d) as usize;
    let stop = at + 12;
    let got = run(Some(at as u32), stop.max(end + 6), c)?;
    c.checks += 1;
    c.observe(&(d, ms.to_bits(), ext, got[0]));
    let spb = shown_time(ms) * 44.1 / SCOPE_SAMPLES as f32;
    if d >= 1 {
        // restarted right at the passage
        let s = got[0].ok_or("nothing shown")?;
        if s.0 != at + 1 && s.0 != at && 12.0 > spb * 2.0 + 2.0 {
            return Err(format!("a passage at frame {} (recording ended with {}): the display begins with frame {}", at, end, s.0));
        }
    } else if d + (len as i64) <= 0 && got != first {
        return Err(format!("a pulse while recording changed what is shown (pulse at {}, end {})", at, end));
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "The first or second scope input carries the frame number, so that every shown stretch tells which frames it covers; the other inputs carry other signals. An execution is one run of the real engine; after it (for triggered displays: after every block) every one of the 512 shown stretches of all three inputs is compared.".into();
    mc.assume("the displayed time, threshold and trigger source are constant during a run; the displayed time is kept up to the resolution of whole frames, and below 512 frames up to a whole number of copies per frame");
    let times: Vec<f32> = mc.pick(
        vec![0.1, 0.15, 0.3, 0.5, 1.0, 2.3, 4.9, 5.7, 7.0, 11.4, 11.7, 13.3, 17.9, 23.4, 29.0, 47.0, 100.0, 250.0, 1000.0],
        vec![0.1, 0.12, 0.15, 0.2, 0.3, 0.4, 0.5, 0.7, 1.0, 1.5, 2.3, 3.4, 4.9, 5.7, 7.0, 9.0, 11.4, 11.7, 13.3, 15.0, 17.9, 20.0, 23.4, 29.0, 37.0, 47.0, 61.0, 80.0, 100.0, 170.0, 250.0, 500.0, 1000.0, 2500.0],
    );
    let rates = [44100.0f32, 96000.0, 22050.0];
    let parts: Vec<Vec<usize>> = vec![vec![128], vec![64], vec![1], vec![127, 1], vec![37, 128, 5], vec![3]];
    let recs = [0.9, 1.4, 1.97, 2.3, 3.2];
    let size = times.len() * rates.len() * parts.len() * recs.len();
    mc.space("free running", size as u64, |idx, c| {
        let mut d = Dec(idx);
        let t = times[d.take(times.len())];
        let s = rates[d.take(3)];
        let p = &parts[d.take(parts.len())];
        let r = recs[d.take(recs.len())];
        free(t, s, p, r, c)
    });

    let n = mc.pick(11u32, 14);
    let tms = [0.1f32, 0.17, 0.35];
    let thrs = [0.5f32, 0.0, 0.9];
    let tparts: Vec<Vec<usize>> = mc.pick(vec![vec![1], vec![4, 3]], vec![vec![1], vec![4, 3], vec![16], vec![2, 5]]);
    mc.space("trigger words", (1u64 << n) * 2 * 3 * tparts.len() as u64, |idx, c| {
        let mut d = Dec(idx);
        let w = d.take(1 << n) as u32;
        let ext = d.flag();
        let t = d.take(3);
        let p = &tparts[d.take(tparts.len())];
        triggered(w, n, tms[t], ext, thrs[(t + w as usize) % 3], p, c)
    });

    let sms = [12.0f32, 23.4, 40.0];
    let sp = [128usize, 1, 17];
    mc.space("trigger around the end of a recording", 16 * 3 * 2 * 3 * 3, |idx, c| {
        let mut d = Dec(idx);
        let off = d.take(16) as i64 - 8;
        let t = d.take(3);
        let ext = d.flag();
        let len = [1u32, 2, 5][d.take(3)];
        let p = sp[d.take(3)];
        triggered_slow(off, sms[t], ext, len, p, c)
    });

    // what goes along with the display: offsets, gains, threshold; and every scope has its own
    mc.space("settings of up to eight scopes", 8 * 3 * 4 * 4, |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(8);
        let tsrc = d.take(3) as i64;
        let a = d.take(4);
        let b = d.take(4);
        let n = NodeId::Scope(k as u8);
        let mut e = engine(8, 2);
        for i in 0..8 {
            e.m.place(i, 0, Cell::empty(NodeId::Amp(i as u8)).out(None, None, Some(0)));
            e.m.place(i, 1, Cell::empty(NodeId::Scope(i as u8)).input(Some(((i + a) % 3) as u8), None, None));
        }
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        let offs = [-0.5f32, 0.0, 0.25, 0.9];
        let gains = [0.5f32, 1.0, 2.0, 0.1];
        let set = |m: &mut Matrix, p: &str, v: f32| {
            let p = pid(n, p);
            m.set_param(p, SAtom::param(p.norm(v)));
        };
        for i in 0..3 {
            set(&mut e.m, &format!("off{}", i + 1), offs[(a + i) % 4]);
            set(&mut e.m, &format!("gain{}", i + 1), gains[(b + 2 * i) % 4]);
        }
        set(&mut e.m, "thrsh", offs[b]);
        e.m.set_param(pid(n, "tsrc"), SAtom::setting(tsrc));
        // short recordings, a signal of its own for every scope
        for i in 0..8u8 {
            let p = pid(NodeId::Scope(i), "time");
            e.m.set_param(p, SAtom::param(p.norm(0.2)));
            e.m.set_param(pid(NodeId::Amp(i), "inp"), SAtom::param(0.1 * (i as f32 + 1.0)));
        }
        for _ in 0..8 {
            e.audio(&[0.0; 128]);
            c.step();
        }
        c.log(|| format!("scope {}, tsrc {}, variant {} {}", k, tsrc, a, b));
        let mut seen: Vec<u32> = vec![];
        for i in 0..8usize {
            let h = e.m.get_scope_handle(i).ok_or("no scope handle")?;
            let mine = i == k;
            for s in 0..3 {
                let want = if mine { (offs[(a + s) % 4], gains[(b + 2 * s) % 4]) } else { (0.0, 1.0) };
                let got = h.get_offs_gain(s);
                c.checks += 1;
                seen.push(got.0.to_bits());
                if (got.0 - want.0).abs() > 1e-4 || (got.1 - want.1).abs() > 1e-3 {
                    return Err(format!("scope {} input {}: offset and gain {:?} instead of {:?}", i, s + 1, got, want));
                }
                if h.is_active(s) != ((i + a) % 3 == s) {
                    return Err(format!("scope {} input {}: active = {}", i, s + 1, h.is_active(s)));
                }
                // a frozen display may show anything older; a free running one shows its own signal
                if !(mine && tsrc != 0) {
                    let v = if (i + a) % 3 == s { 0.1 * (i as f32 + 1.0) } else { 0.0 };
                    for q in 0..SCOPE_SAMPLES {
                        let g = h.read(s, q);
                        if (g.0 - v).abs() > 1e-4 || (g.1 - v).abs() > 1e-4 {
                            return Err(format!("scope {} input {} position {} shows {:?} instead of {}", i, s + 1, q, g, v));
                        }
                    }
                }
            }
            let want = if mine && tsrc != 0 { Some(offs[b]) } else { None };
            match (h.get_threshold(), want) {
                (None, None) => {}
                (Some(x), Some(y)) if (x - y).abs() < 1e-4 => {}
                (x, y) => return Err(format!("scope {}: threshold {:?} instead of {:?}", i, x, y)),
            }
        }
        c.observe(&seen);
        Ok(())
    });
}
