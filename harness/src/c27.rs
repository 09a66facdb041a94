//! C27: the sample player reproduces the loaded sample; loading a file yields what the file contains.
use crate::mc::*;
use crate::nrig::*;
use hexodsp::*;
use std::sync::Arc;

/// four point Hermite interpolation over the (circular) data
fn interp(s: &[f32], pos: f64) -> f32 {
    let n = s.len() as i64;
    let i = pos.floor();
    let f = (pos - i) as f32;
    let at = |k: i64| s[(i as i64 + k).rem_euclid(n) as usize];
    if f == 0.0 {
        return at(0);
    }
    let (a, b, c, d) = (at(-1), at(0), at(1), at(2));
    let m0 = (c - a) * 0.5;
    let m1 = (d - b) * 0.5;
    let (f2, f3) = (f * f, f * f * f);
    (2.0 * f3 - 3.0 * f2 + 1.0) * b + (f3 - 2.0 * f2 + f) * m0 + (-2.0 * f3 + 3.0 * f2) * c + (f3 - f2) * m1
}

/// the settings that are read anew in each block
#[derive(Clone, Debug)]
struct Set {
    data: Option<Vec<f32>>,
    rate: f32,
    oneshot: bool,
    reverse: bool,
    dclick: bool,
    dcms: f32,
}

/// reference player
#[derive(Clone, Debug)]
struct Ref {
    pos: f64,
    high: bool,
    playing: bool,
    last: f32,
    decay: f32,
}

/// what may be heard in a frame: between .0 and .1
type Want = (f32, f32);

impl Ref {
    fn new() -> Self {
        Ref { pos: 0.0, high: false, playing: false, last: 0.0, decay: 0.0 }
    }
    /// one frame; `got` is only used where the documentation leaves the exact value of a fade open
    fn frame(&mut self, s: &Set, trig: f32, offs: f32, len: f32, speed: f64, got: f32) -> Want {
        let data = match &s.data {
            Some(d) if d.len() >= 2 => d,
            _ => {
                self.last = 0.0;
                return (0.0, 0.0);
            }
        };
        if self.high {
            if trig <= 0.25 {
                self.high = false;
            }
        } else if trig > 0.5 {
            self.high = true;
            self.pos = 0.0;
            self.playing = true;
            self.decay = self.last;
        }
        if !s.oneshot {
            self.playing = true;
        }
        let mut lo = 0.0;
        let mut hi = 0.0;
        if self.playing {
            let n = data.len();
            let start = (n as f64 * (offs.abs().min(0.999999)) as f64).floor() as usize;
            let cnt = ((n as f64 * len.abs().min(1.0) as f64).round() as usize).min(n - start);
            let part = &data[start..start + cnt];
            if s.oneshot && self.pos >= cnt as f64 {
                self.playing = false;
            } else if cnt > 0 {
                let p = (self.pos.floor() as usize % cnt) as f64 + self.pos.fract();
                let x = if s.reverse { interp(part, cnt as f64 - p) } else { interp(part, p) };
                lo = x;
                hi = x;
                if s.dclick {
                    // a linear fade in and out; where they overlap, and where a loop just starts over,
                    // anything from silence to the sample is accepted
                    let ramp = s.dcms as f64 * 44.1;
                    let cntr = ramp.ceil();
                    let i = self.pos.floor();
                    let end = cnt as f64 - i;
                    if i >= cnt as f64 || (i < cntr && end < cntr) {
                        lo = x.min(0.0);
                        hi = x.max(0.0);
                    } else if i < cntr {
                        lo = (x as f64 * i / ramp) as f32;
                        hi = lo;
                    } else if end < cntr {
                        lo = (x as f64 * end / ramp) as f32;
                        hi = lo;
                    }
                }
                self.pos = p + speed * s.rate as f64 / 44100.0;
            }
        }
        if s.dclick && self.decay.abs() >= 0.00001 {
            self.decay *= 0.98;
            lo = (lo + self.decay).clamp(-1.0, 1.0);
            hi = (hi + self.decay).clamp(-1.0, 1.0);
        } else {
            self.decay = 0.0;
        }
        self.last = if lo == hi { lo } else { got };
        (lo, hi)
    }
}

fn data(n: usize, k: usize) -> Vec<f32> {
    (0..n).map(|i| [0.5, -0.3, 0.8, -0.9, 0.2, 0.7, -0.6, 0.35, -0.15, 0.95][(i * 3 + k) % 10]).collect()
}

fn atom(d: &Option<Vec<f32>>, rate: f32) -> SAtom {
    match d {
        None => SAtom::audio_unloaded(""),
        Some(d) => {
            let mut v = vec![rate];
            v.extend(d);
            SAtom::audio("x", Arc::new(v))
        }
    }
}

const N: NodeId = NodeId::Sampl(0);

fn apply(r: &mut NRig, s: &Set) {
    let p = |x: &str| N.inp_param(x).unwrap();
    r.nc.set_param(p("sample"), atom(&s.data, s.rate));
    r.nc.set_param(p("pmode"), SAtom::setting(s.oneshot as i64));
    r.nc.set_param(p("dclick"), SAtom::setting(s.dclick as i64));
    r.nc.set_param(p("dir"), SAtom::setting(s.reverse as i64));
}

/// trig, offs, len, freq, det
type Drv = [Sig; 5];

fn rig(d: &Drv, dcms_norm: f32) -> NRig {
    NRig::new(N, &[Some(d[3]), Some(d[0]), Some(d[1]), Some(d[2]), Some(Sig::Const(dcms_norm)), Some(d[4])])
}

fn play(r: &mut NRig, m: &mut Ref, s: &Set, d: &Drv, from: usize, blocks: &[usize], c: &mut Case) -> Result<(), String> {
    r.clear_logs();
    let mut tot = 0;
    for b in blocks.iter() {
        r.block(*b);
        c.step();
        tot += b;
    }
    let got = r.logs[0].lock().unwrap().inp.clone();
    if got.len() != tot {
        return Err(format!("{} frames rendered, {} recorded", tot, got.len()));
    }
    let fq = N.inp_param("freq").unwrap();
    for (k, g) in got.iter().enumerate() {
        let f = from + k;
        let speed = (fq.denorm(d[3].at(f) + d[4].at(f)) / 440.0) as f64;
        let (lo, hi) = m.frame(s, d[0].at(f), d[1].at(f), d[2].at(f), speed, *g);
        let tol = 2e-3;
        c.checks += 1;
        if !g.is_finite() || *g < lo.min(hi) - tol || *g > lo.max(hi) + tol {
            return Err(format!("frame {}: the player gives {}, expected {}..{} (settings {:?}, position {})", f, g, lo, hi, s, m.pos));
        }
    }
    c.observe(&bits(&got));
    Ok(())
}

fn wav(fmt: u16, bits: u16, ch: u16, rate: u32, raw: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(b"RIFF");
    v.extend((36 + raw.len() as u32).to_le_bytes());
    v.extend(b"WAVEfmt ");
    v.extend(16u32.to_le_bytes());
    v.extend(fmt.to_le_bytes());
    v.extend(ch.to_le_bytes());
    v.extend(rate.to_le_bytes());
    let align = ch * (bits / 8);
    v.extend((rate * align as u32).to_le_bytes());
    v.extend(align.to_le_bytes());
    v.extend(bits.to_le_bytes());
    v.extend(b"data");
    v.extend((raw.len() as u32).to_le_bytes());
    v.extend(raw);
    v
}

const FMTS: [(u16, u16); 5] = [(1, 8), (1, 16), (3, 32), (1, 24), (1, 32)];

/// raw bytes and decoded value of sample value number k in the format
fn value(f: (u16, u16), k: usize) -> (Vec<u8>, f32) {
    match f {
        (1, 8) => {
            let b = [128u8, 0, 255, 1, 129, 64, 200][k % 7];
            (vec![b], (b as f32 - 128.0) / 128.0)
        }
        (1, 16) => {
            let b = [0i16, i16::MIN, i16::MAX, 1, -1, 12345, -20000][k % 7];
            (b.to_le_bytes().to_vec(), b as f32 / 32768.0)
        }
        (3, 32) => {
            let b = [0.0f32, -1.0, 1.0, 1e-6, -0.5, 0.123, 2.5][k % 7];
            (b.to_le_bytes().to_vec(), b)
        }
        (1, 24) => {
            let b = [0i32, -0x800000, 0x7fffff, 1, -1, 12345, -20000][k % 7];
            (b.to_le_bytes()[0..3].to_vec(), b as f32 / 8388608.0)
        }
        _ => {
            let b = [0i32, i32::MIN, i32::MAX, 1, -1, 12345678, -20000][k % 7];
            (b.to_le_bytes().to_vec(), (b as f64 / 2147483648.0) as f32)
        }
    }
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(idx: u64) -> Self {
        let p = std::env::temp_dir().join(format!("hx_c27_{}_{}", std::process::id(), idx));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn loaded(path: &std::path::Path) -> Result<Vec<f32>, String> {
    let mut l = SampleLibrary::new();
    match l.load(path.to_str().unwrap()) {
        Ok(a) => match a.v_ref() {
            Some(v) => Ok(v.to_vec()),
            None => Err("no data".to_string()),
        },
        Err(e) => Err(format!("{:?}", e)),
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "a reference player (position, part, direction, once or looped, fades), frame by frame, tolerance 0.002; the samples written into the files".into();
    mc.assume("speed signals within the parameter range; samples of up to 10 values at up to four times the speed; declick values are compared where the fade in and the fade out do not overlap");

    // ---- all settings, constant controls
    let lens = [0usize, 1, 2, 3, 5, 8];
    let offs = [0.0f32, 0.2, 0.5, 0.7, 1.0, -0.5];
    let plen = [1.0f32, 0.0, 0.1, 0.3, 0.5, 0.8];
    let frq = [0.0f32, -0.1, 0.1, 0.0585, -0.2, 0.2];
    let rates = [44100.0f32, 22050.0, 48000.0];
    let words: Vec<u32> = if mc.thorough() { (0..64).collect() } else { vec![0b000001, 0b100000, 0b010010, 0b001111, 0b110001, 0] };
    let words = &words;
    let nr = mc.pick(2, 3);
    let nd = mc.pick(1, 3);
    let size = (4 * lens.len() * offs.len() * plen.len() * frq.len() * nr * nd * words.len()) as u64;
    mc.space("constant controls", size, |idx, c| {
        let mut d = Dec(idx);
        let s = Set {
            oneshot: d.flag(),
            reverse: d.flag(),
            data: Some(data(lens[d.take(lens.len())], 0)),
            rate: rates[d.take(nr)],
            dclick: false,
            dcms: 3.0,
        };
        let o = offs[d.take(offs.len())];
        let l = plen[d.take(plen.len())];
        let f = frq[d.take(frq.len())];
        let det = [0.0f32, 0.1, -0.0083][d.take(nd)];
        let w = words[d.take(words.len())];
        let drv: Drv = [Sig::Word { bits: w, n: 24, hold: 1, skip: 0 }, Sig::Const(o), Sig::Const(l), Sig::Const(f), Sig::Const(det)];
        c.log(|| format!("{:?} offs {} len {} freq {} det {} trig {:06b}", s, o, l, f, det, w));
        let mut r = rig(&drv, 0.2);
        apply(&mut r, &s);
        r.upload();
        let mut m = Ref::new();
        play(&mut r, &mut m, &s, &drv, 0, &[5, 13, 8, 30], c)
    });

    // ---- modulated controls
    let mods = mc.pick(2, 4);
    let size = 4 * 3 * pow(mods as u64, 3) * 64 * 6;
    mc.space("modulated controls", size, |idx, c| {
        let mut d = Dec(idx);
        let s = Set {
            oneshot: d.flag(),
            reverse: d.flag(),
            data: Some(data([3usize, 6, 10][d.take(3)], 2)),
            rate: 44100.0,
            dclick: false,
            dcms: 3.0,
        };
        let o = [(0.0f32, 0.4f32), (0.9, 0.1), (0.0, 0.0), (1.0, -0.3)][d.take(mods)];
        let l = [(1.0f32, 0.3f32), (0.0, 0.6), (1.0, 1.0), (0.5, 1.5)][d.take(mods)];
        let f = [(0.0f32, 0.1f32), (0.0, -0.1), (0.0, 0.0), (0.2, -0.3)][d.take(mods)];
        let bits = d.take(64) as u32 | 0b0110_1000_0000;
        let tw = [0b1u32, 0b1000_0010_0001, 0b1111_0000_0011, 0, 0b10_0000, 0b1010_1010_1010][d.take(6)];
        let drv: Drv = [
            Sig::Word { bits: tw, n: 12, hold: 2, skip: 0 },
            Sig::Two { a: o.0, b: o.1, bits, n: 11 },
            Sig::Two { a: l.0, b: l.1, bits: bits ^ 0b10100, n: 7 },
            Sig::Two { a: f.0, b: f.1, bits: bits >> 1, n: 9 },
            Sig::Const(0.0),
        ];
        c.log(|| format!("{:?} {:?}", s, drv));
        let mut r = rig(&drv, 0.2);
        apply(&mut r, &s);
        r.upload();
        let mut m = Ref::new();
        play(&mut r, &mut m, &s, &drv, 0, &[9, 1, 14, 6, 20], c)
    });

    // ---- fades
    let dc = [0.0f32, 0.02, 0.05, 0.1, 0.3];
    let size = 4 * 3 * dc.len() as u64 * 3 * 8;
    mc.space("declick", size, |idx, c| {
        let mut d = Dec(idx);
        let oneshot = d.flag();
        let reverse = d.flag();
        let n = [40usize, 300, 5][d.take(3)];
        let norm = dc[d.take(dc.len())];
        let dcms = N.inp_param("dcms").unwrap().denorm(norm);
        let f = [0.0f32, 0.1, -0.1][d.take(3)];
        let tw = d.take(8) as u32;
        let s = Set { oneshot, reverse, data: Some(data(n, 1)), rate: 44100.0, dclick: true, dcms };
        let drv: Drv = [Sig::Word { bits: tw, n: 4, hold: 37, skip: 0 }, Sig::Const(0.1), Sig::Const(0.8), Sig::Const(f), Sig::Const(0.0)];
        c.log(|| format!("{:?} {:?}", s, drv));
        let mut r = rig(&drv, norm);
        apply(&mut r, &s);
        r.upload();
        let mut m = Ref::new();
        play(&mut r, &mut m, &s, &drv, 0, &[100, 1, 128, 30], c)
    });

    // ---- histories of settings
    let depth = mc.pick(4, 5) as u32;
    const OPS: usize = 9;
    let size = pow(OPS as u64, depth) * 2;
    mc.space("settings changed while playing", size, |idx, c| {
        let mut d = Dec(idx);
        let drv: Drv = [
            Sig::Word { bits: if d.flag() { 0b1 } else { 0b0100_1001 }, n: 19, hold: 1, skip: 2 },
            Sig::Const(0.0),
            Sig::Const(1.0),
            Sig::Const(0.0),
            Sig::Const(0.0),
        ];
        let mut s = Set { oneshot: false, reverse: false, data: None, rate: 44100.0, dclick: false, dcms: 3.0 };
        let mut r = rig(&drv, 0.2);
        apply(&mut r, &s);
        r.upload();
        let mut m = Ref::new();
        let mut f = 0;
        play(&mut r, &mut m, &s, &drv, f, &[3], c)?;
        f += 3;
        for _ in 0..depth {
            match d.take(OPS) {
                0 => s.data = Some(data(3, 0)),
                1 => s.data = Some(data(9, 4)),
                2 => s.data = None,
                3 => s.data = Some(vec![0.7]),
                4 => s.oneshot = !s.oneshot,
                5 => s.reverse = !s.reverse,
                6 => s.rate = if s.rate == 44100.0 { 22050.0 } else { 44100.0 },
                7 => s.data = Some(vec![]),
                _ => {
                    play(&mut r, &mut m, &s, &drv, f, &[6], c)?;
                    f += 6;
                }
            }
            c.log(|| format!("-> {:?}", s));
            apply(&mut r, &s);
            play(&mut r, &mut m, &s, &drv, f, &[2], c)?;
            f += 2;
        }
        play(&mut r, &mut m, &s, &drv, f, &[12], c)
    });

    // ---- files
    let maxf = mc.pick(3, 4) as u64;
    let nv = 7u64;
    let per: u64 = (0..=maxf).map(|n| pow(nv, n as u32)).sum();
    mc.space("sample files", 5 * 3 * 4 * per, |idx, c| {
        let mut d = Dec(idx);
        let f = FMTS[d.take(5)];
        let ch = 1 + d.take(3);
        let rate = [44100u32, 8000, 1, 192000][d.take(4)];
        let mut rest = d.0;
        let mut n = 0u32;
        while rest >= pow(nv, n) {
            rest -= pow(nv, n);
            n += 1;
        }
        let mut dd = Dec(rest);
        let mut raw = vec![];
        let mut want = vec![rate as f32];
        for _ in 0..n {
            let k = dd.take(nv as usize);
            for q in 0..ch {
                let (b, v) = value(f, k + q);
                raw.extend(b);
                if q == 0 {
                    want.push(v);
                }
            }
        }
        let sc = Scratch::new(idx);
        let p = sc.0.join("a.wav");
        std::fs::write(&p, wav(f.0, f.1, ch as u16, rate, &raw)).unwrap();
        c.log(|| format!("file: format {:?}, {} channels, {} Hz, {:?}", f, ch, rate, want));
        c.step();
        c.checks += 1;
        match loaded(&p) {
            Ok(v) => {
                if v.len() != want.len() || v.iter().zip(want.iter()).any(|(a, b)| (a - b).abs() > 1e-6) {
                    return Err(format!("loaded {:?}, the file contains {:?}", v, want));
                }
                c.observe(&bits(&v));
            }
            Err(e) => {
                if f.1 <= 16 || f.0 == 3 {
                    return Err(format!("a sound file could not be loaded: {}", e));
                }
                c.observe(&e);
            }
        }
        Ok(())
    });

    // ---- long files: cut after 60 seconds
    mc.space("long files", 3 * 5 * 2, |idx, c| {
        let mut d = Dec(idx);
        let f = FMTS[d.take(3)];
        let n = [59usize, 60, 61, 119, 300][d.take(5)];
        let ch = 1 + d.take(2);
        let mut raw = vec![];
        let mut want = vec![1.0f32];
        for k in 0..n {
            for q in 0..ch {
                let (b, v) = value(f, k + q);
                raw.extend(b);
                if q == 0 && k < 60 {
                    want.push(v);
                }
            }
        }
        let sc = Scratch::new(idx);
        let p = sc.0.join("a.wav");
        std::fs::write(&p, wav(f.0, f.1, ch as u16, 1, &raw)).unwrap();
        c.step();
        c.checks += 1;
        let v = loaded(&p)?;
        if v.len() != want.len() || v.iter().zip(want.iter()).any(|(a, b)| (a - b).abs() > 1e-6) {
            return Err(format!("loaded {} values, expected the first 60 seconds, {}", v.len(), want.len()));
        }
        Ok(())
    });

    // ---- damaged files
    // with: where the last value of the first channel ends
    let base: Vec<(Vec<u8>, usize)> = FMTS
        .iter()
        .flat_map(|f| {
            (1..=2u16).map(move |ch| {
                let raw: Vec<u8> = (0..3 * ch as usize).flat_map(|k| value(*f, k).0).collect();
                let w = wav(f.0, f.1, ch, 44100, &raw);
                let l = w.len();
                (w, l - (ch as usize - 1) * f.1 as usize / 8)
            })
        })
        .collect();
    let base = &base;
    let maxlen = base.iter().map(|b| b.0.len()).max().unwrap();
    let vals = mc.pick(9, 256);
    mc.space("truncated files", (base.len() * maxlen) as u64, |idx, c| {
        let mut d = Dec(idx);
        let (b, need) = &base[d.take(base.len())];
        let cut = d.take(maxlen);
        if cut >= b.len() {
            return Ok(());
        }
        let sc = Scratch::new(idx);
        let p = sc.0.join("a.wav");
        std::fs::write(&p, &b[..cut]).unwrap();
        c.step();
        c.checks += 1;
        c.log(|| format!("{} of {} bytes", cut, b.len()));
        match loaded(&p) {
            // what is missing is of a channel that is not loaded
            Ok(v) if cut >= *need && v.len() == 4 => Ok(()),
            Ok(v) => Err(format!("a file cut after {} of {} bytes was loaded as {:?}", cut, b.len(), v)),
            Err(e) => {
                c.observe(&e);
                Ok(())
            }
        }
    });
    mc.space("damaged headers", (base.len() * 44 * vals) as u64, |idx, c| {
        let mut d = Dec(idx);
        let mut b = base[d.take(base.len())].0.clone();
        let at = d.take(44);
        let v = d.take(vals);
        let v = if vals == 256 { v as u8 } else { [0, 1, 2, 3, 0x10, 0x20, 0x7f, 0x80, 0xff][v] };
        let old = b[at];
        b[at] = v;
        let sc = Scratch::new(idx);
        let p = sc.0.join("a.wav");
        std::fs::write(&p, &b).unwrap();
        c.step();
        c.checks += 1;
        c.log(|| format!("byte {}: {:#x} -> {:#x}", at, old, v));
        let r = loaded(&p);
        if let Ok(v) = &r {
            c.observe(&bits(v));
        }
        if old == v && r.is_err() && !(b[20] == 1 && b[34] > 16) {
            return Err(format!("an undamaged file was refused: {:?}", r));
        }
        Ok(())
    });

    // ---- from the file to the sound
    let size = 3 * 2 * 2 * 6;
    mc.space("file to sound", size, |idx, c| {
        let mut d = Dec(idx);
        let f = FMTS[d.take(3)];
        let ch = 1 + d.take(2);
        let rate = [44100u32, 22050][d.take(2)];
        let n = 2 + d.take(6);
        let mut raw = vec![];
        let mut want = vec![];
        for k in 0..n {
            for q in 0..ch {
                let (b, v) = value(f, k + q);
                raw.extend(b);
                if q == 0 {
                    want.push(v);
                }
            }
        }
        let sc = Scratch::new(idx);
        let p = sc.0.join("a.wav");
        std::fs::write(&p, wav(f.0, f.1, ch as u16, rate, &raw)).unwrap();
        let drv: Drv = [Sig::Const(0.0), Sig::Const(0.0), Sig::Const(1.0), Sig::Const(0.0), Sig::Const(0.0)];
        let s = Set { oneshot: false, reverse: false, data: Some(want), rate: rate as f32, dclick: false, dcms: 3.0 };
        for late in [false, true] {
            let mut r = rig(&drv, 0.2);
            let set = |r: &mut NRig| r.nc.set_param(N.inp_param("sample").unwrap(), SAtom::audio_unloaded(p.to_str().unwrap()));
            let mut m = Ref::new();
            let mut from = 0;
            if !late {
                set(&mut r);
            }
            r.upload();
            if late {
                let e = Set { data: None, ..s.clone() };
                play(&mut r, &mut m, &e, &drv, 0, &[5], c)?;
                from = 5;
                set(&mut r);
            }
            play(&mut r, &mut m, &s, &drv, from, &[40], c)?;
            // a file that is not there
            r.nc.set_param(N.inp_param("sample").unwrap(), SAtom::audio_unloaded(sc.0.join("none.wav").to_str().unwrap()));
            let e = Set { data: None, ..s.clone() };
            play(&mut r, &mut m, &e, &drv, from + 40, &[5], c)?;
            c.checks += 1;
            if r.nc.pop_error().is_none() {
                return Err("a file that does not exist was not reported".to_string());
            }
        }
        Ok(())
    });
}
