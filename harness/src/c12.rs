use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::*;
use hexodsp::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Note,
    Step,
    Value,
    Gate,
}
pub const KINDS: [Kind; 4] = [Kind::Note, Kind::Step, Kind::Value, Kind::Gate];

/// A column as the user sees it, and the reference player.
#[derive(Clone, Debug)]
pub struct Col {
    pub kind: Kind,
    pub cells: Vec<Option<u16>>,
}

/// what a cell with a probability may do: the gate as written, or silence
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Played {
    pub v: f32,
    pub gate: f32,
    pub maybe: bool,
}

impl Col {
    fn rows(&self) -> usize {
        self.cells.len()
    }
    /// the value a value column has reached at the end of row `r`
    fn key(&self, r: usize) -> f64 {
        let n = self.rows();
        let val = |i: usize| self.cells[i].map(|v| v as f64 / 4095.0);
        // an empty first or last row counts as 0
        let at = |i: usize| val(i).unwrap_or(0.0);
        let known = |i: usize| val(i).is_some() || i == 0 || i == n - 1;
        if known(r) {
            return at(r);
        }
        let a = (0..r).rev().find(|i| known(*i)).unwrap();
        let b = (r..n).find(|i| known(*i)).unwrap();
        let x = (r - a) as f64 / (b - a) as f64;
        at(a) * (1.0 - x) + at(b) * x
    }
    /// rp: position in rows
    fn at(&self, rp: f64) -> Played {
        let n = self.rows();
        if n == 0 {
            return Played { v: 0.0, gate: 0.0, maybe: false };
        }
        let rp = rp.max(0.0);
        let r = (rp.floor() as usize) % n;
        let fr = rp.fract();
        let set = self.cells[r].is_some();
        let gate = if set { 1.0 } else { 0.0 };
        let last = (0..=r).rev().find_map(|i| self.cells[i]);
        match self.kind {
            Kind::Note => Played { v: last.map(|n| ((n as f32 - 69.0) / 120.0).clamp(-1.0, 1.0)).unwrap_or(0.0), gate, maybe: false },
            Kind::Step => Played { v: last.map(|n| n as f32 / 4095.0).unwrap_or(0.0), gate, maybe: false },
            Kind::Value => {
                let a = self.key(if r == 0 { n - 1 } else { r - 1 });
                let b = self.key(r);
                Played { v: (a * (1.0 - fr) + b * fr) as f32, gate: if r == n - 1 { 1.0 } else { 0.0 }, maybe: false }
            }
            Kind::Gate => match self.cells[r] {
                None => Played { v: 0.0, gate: 0.0, maybe: false },
                Some(c) => {
                    let len = ((c & 0xF) as f64 + 1.0) / 16.0;
                    let div = 16.0 - ((c >> 4) & 0xF) as f64;
                    let sub = (fr * div).fract();
                    Played { v: if sub <= len { 1.0 } else { 0.0 }, gate, maybe: (c >> 8) & 0xF != 0xF }
                }
            },
        }
    }
    /// does (v, gate) fit position `rp`, up to the rounding of positions
    fn fits(&self, rp: f64, v: f32, gate: f32) -> bool {
        [-EPS, 0.0, EPS].iter().any(|d| {
            let p = self.at(rp + d);
            ((p.v - v).abs() < 1e-3 || (p.maybe && v == 0.0)) && p.gate == gate
        })
    }
}
const EPS: f64 = 3e-4;

pub fn write_col(d: &mut PatternData, col: usize, c: &Col) {
    match c.kind {
        Kind::Note => d.set_col_note_type(col),
        Kind::Step => d.set_col_step_type(col),
        Kind::Value => d.set_col_value_type(col),
        Kind::Gate => d.set_col_gate_type(col),
    }
    for (r, v) in c.cells.iter().enumerate() {
        match v {
            Some(v) => d.set_cell_value(r, col, *v),
            None => d.clear_cell(r, col),
        }
    }
}

fn play(col: usize, c: &Col, phases: &[f32], rest: Option<u16>) -> (Vec<f32>, Vec<f32>) {
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    {
        let d = t.data();
        let mut d = d.lock().unwrap();
        d.set_rows(c.rows());
        write_col(&mut d, col, c);
        // what lies behind the end of the pattern is not played
        if let Some(x) = rest {
            for r in c.rows()..(c.rows() + 5).min(MAX_PATTERN_LEN) {
                d.set_cell_value(r, col, x);
            }
        }
    }
    while t.send_one_update() {}
    while b.check_updates() {}
    let mut out = vec![9.0; phases.len()];
    let mut gate = vec![9.0; phases.len()];
    for ((p, o), g) in phases.chunks(50).zip(out.chunks_mut(50)).zip(gate.chunks_mut(50)) {
        b.get_col_at_phase(col, p, o, g);
    }
    (out, gate)
}

fn judge(c: &mut Case, col: usize, cc: &Col, phases: &[f32], rest: Option<u16>) -> Result<(), String> {
    c.step();
    let (o, g) = play(col, cc, phases, rest);
    c.observe(&(bits(&o), bits(&g)));
    let n = cc.rows() as f64;
    // a gate with a probability either sounds as written or is silent, for the whole pass of the row
    let mut seen: Option<(usize, bool)> = None;
    for (i, p) in phases.iter().enumerate() {
        c.checks += 1;
        let rp = *p as f64 * n;
        if !cc.fits(rp, o[i], g[i]) {
            return Err(format!("column {} ({:?} {:?}) at position {} of {} rows: plays {} gate {}, written is {:?}", col, cc.kind, cc.cells, rp, n, o[i], g[i], cc.at(rp)));
        }
        let near = (rp - rp.round()).abs() < EPS;
        let w = cc.at(rp);
        if w.maybe && !near && w.v == 1.0 && cc.at(rp - EPS).v == 1.0 && cc.at(rp + EPS).v == 1.0 {
            let r = rp.floor() as usize;
            let on = o[i] == 1.0;
            if let Some((sr, so)) = seen {
                if sr == r && so != on {
                    return Err(format!("the gate of row {} ({:?}) is partly played in one pass", r, cc.cells[r]));
                }
            }
            seen = Some((r, on));
        }
    }
    Ok(())
}

fn grid(rows: usize, per: usize) -> Vec<f32> {
    let n = (rows * per).max(1);
    let mut v = vec![];
    for i in 0..n {
        if i % per == 0 {
            v.push(i as f32 / n as f32);
        }
        v.push((i as f32 + 0.5) / n as f32);
    }
    v.push(1.0 - 1e-7);
    v
}

fn alphabet(k: Kind) -> Vec<Option<u16>> {
    match k {
        Kind::Note => vec![None, Some(0), Some(69), Some(70), Some(127)],
        Kind::Step | Kind::Value => vec![None, Some(0), Some(0xFFF), Some(0x800), Some(0x123)],
        Kind::Gate => vec![None, Some(0xFFF), Some(0xFF0), Some(0xFE7), Some(0xF3A)],
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every pattern of the stated rows over the cell alphabet, in every column kind, is played by the real tracker at every position of the grid and compared with a reference player; the second group runs the TSeq node over all short clock and trigger words.".into();
    let maxr = mc.pick(4, 6);
    let per: Vec<u64> = (0..=maxr).map(|r| pow(5, r)).collect();
    let tot: u64 = per.iter().sum();
    mc.space("small-patterns", tot * 4 * 2, |idx, c| {
        let mut d = Dec(idx);
        let k = KINDS[d.take(4)];
        let rest = d.flag();
        let mut i = d.0;
        let mut r = 0;
        while i >= per[r] {
            i -= per[r];
            r += 1;
        }
        let al = alphabet(k);
        let mut d = Dec(i);
        let cells: Vec<_> = (0..r).map(|_| al[d.take(5)]).collect();
        let cc = Col { kind: k, cells };
        c.log(|| format!("{:?}, something behind the end: {}", cc, rest));
        if r == 0 {
            // an empty pattern plays nothing and does not fail
            let _ = play(idx as usize % 6, &cc, &[0.0, 0.5, 1.0], None);
            return Ok(());
        }
        judge(c, idx as usize % 6, &cc, &grid(r, 48), if rest { Some(0xFA7) } else { None })
    });
    mc.space("every-cell-value", 4 * 4096, |idx, c| {
        let mut d = Dec(idx);
        let k = KINDS[d.take(4)];
        let v = d.0 as u16;
        let cc = Col { kind: k, cells: vec![None, Some(v), None, Some(0xFFF)] };
        c.log(|| format!("{:?}", cc));
        judge(c, (idx / 4) as usize % 6, &cc, &grid(4, mc_grid(k)), None)
    });
    // rows that last long: lengths and divisions of gates, and the way between two values
    mc.space("long-rows", 4 * 256, |idx, c| {
        let k = KINDS[(idx % 4) as usize];
        let v = (idx / 4) as u16;
        let cc = Col { kind: k, cells: vec![Some(0xF00 | v), Some(0x80 + 13 * v)] };
        c.log(|| format!("{:?}", cc));
        judge(c, (idx / 4) as usize % 6, &cc, &grid(2, 4096), None)
    });
    // long patterns with two cells at every pair of positions of a list
    let lens = [7usize, 16, 63, 128, 255, 256];
    let pos = |n: usize, k: usize| -> usize { [0, 1, n / 3, n / 2, n - 2, n - 1][k] };
    mc.space("long-patterns", 4 * 6 * 36 * 6, |idx, c| {
        let mut d = Dec(idx);
        let k = KINDS[d.take(4)];
        let n = lens[d.take(6)];
        let (a, b) = (pos(n, d.take(6)), pos(n, d.take(6)));
        let col = d.take(6);
        let mut cells = vec![None; n];
        cells[a] = Some(0xF93);
        cells[b] = Some(0xFFF);
        let cc = Col { kind: k, cells };
        c.log(|| format!("{:?}, {} rows, cells at {} and {}", k, n, a, b));
        judge(c, col, &cc, &grid(n, 6), None)
    });
    // probability: drawn anew for each pass, with about the written frequency (fixed seed)
    mc.space("probability", 16 * 3 * 3, |idx, c| {
        let mut d = Dec(idx);
        let p = d.take(16) as u16;
        let rows = 2 + d.take(3);
        let fill = d.take(3);
        c.log(|| format!("probability class {:x} in a pattern of {} rows, the other cells {}", p, rows, ["empty", "always", "same class"][fill]));
        let mut s = PatternSequencer::new_default_seed(rows);
        let other = match fill {
            0 => (f32::from_bits(0xF000), 0),
            1 => (f32::from_bits(0xFFF), 1),
            _ => (f32::from_bits((p as u32) << 8 | 0xFF), 1),
        };
        let mut col = vec![other; rows];
        col[0] = (f32::from_bits((p as u32) << 8 | 0xFF), 1);
        s.set_col(2, &col);
        let n = 3000;
        let mut on = 0;
        for _ in 0..n {
            c.step();
            for r in 0..rows {
                let ph = [(r as f32 + 0.2) / rows as f32, (r as f32 + 0.7) / rows as f32];
                let (mut o, mut g) = ([0.0; 2], [0.0; 2]);
                s.col_gate_at_phase(2, &ph, &mut o, &mut g);
                c.checks += 1;
                if o[0] != o[1] {
                    return Err(format!("row {} is partly played in one pass", r));
                }
                if r == 0 && o[0] == 1.0 {
                    on += 1;
                }
            }
        }
        let want = (p as f64 + 1.0) / 16.0;
        let sd = (want * (1.0 - want) / n as f64).sqrt();
        let got = on as f64 / n as f64;
        c.observe(&(p, on));
        if (got - want).abs() > 7.0 * sd + 1e-9 {
            return Err(format!("{} of {} passes sounded, written is a probability of {}", on, n, want));
        }
        Ok(())
    });
    // the node
    let nrows = [1usize, 3, 4];
    let words = mc.pick(64, 256) as usize;
    let wbits = mc.pick(6, 8) as u32;
    mc.space("tseq-node", (words * 8 * 3 * 3 * 2) as u64, |idx, c| {
        let mut d = Dec(idx);
        let rows = nrows[d.take(3)];
        let mode = d.take(3);
        let cw = d.take(words) as u32;
        let tw = d.take(8) as u32;
        let bs = [64, 13][d.take(2)];
        const SKIP: u32 = 20;
        let clock = if mode == 2 {
            // phase: ramps of several periods, also beyond 1 and negative
            Sig::Ramp { period: 10 + 3 * (cw % 16), skip: SKIP, amp: [1.0, 0.5, 2.5, -1.0][(cw / 16) as usize % 4] }
        } else {
            Sig::Word { bits: cw, n: wbits, hold: 3, skip: SKIP }
        };
        let trig = Sig::Word { bits: tw, n: 3, hold: 11, skip: SKIP };
        let cols: Vec<Col> = (0..6)
            .map(|i| {
                let k = [Kind::Note, Kind::Step, Kind::Value, Kind::Gate, Kind::Value, Kind::Step][i];
                let al = alphabet(k);
                Col { kind: k, cells: (0..rows).map(|r| al[(r * 3 + i * 2 + 1) % 5]).collect() }
            })
            .collect();
        c.log(|| format!("{} rows, clock mode {}, clock {:?}, trig {:?}, blocks of {}", rows, mode, clock, trig, bs));
        let mut r = NRig::new(NodeId::TSeq(0), &[Some(clock), Some(trig)]);
        {
            let g = r.nc.get_node_global();
            let mut g = g.lock().unwrap();
            let p = g.get_pattern_data(0);
            let mut p = p.lock().unwrap();
            p.set_rows(rows);
            for (i, cc) in cols.iter().enumerate() {
                write_col(&mut p, i, cc);
            }
            drop(p);
            for _ in 0..8 {
                g.check_pattern_data(0);
            }
        }
        r.nc.set_param(NodeId::TSeq(0).inp_param("cmode").unwrap(), SAtom::setting(mode as i64));
        r.upload();
        for _ in 0..10 {
            r.block(1);
        }
        let n = 200;
        while r.frame < 10 + n {
            c.step();
            r.block(bs.min(10 + n - r.frame));
        }
        let st = r.streams();
        c.observe(&st.iter().map(|x| bits(x)).collect::<Vec<_>>());
        // reference clock
        let (mut phase, mut inc, mut high, mut count, mut thigh) = (0.0f64, 0.0f64, true, 0u32, false);
        let limit = if mode == 0 { rows as f64 } else { 1.0 };
        for f in 0..10 + n {
            let (cv, tv) = (clock.at(f), trig.at(f));
            if thigh {
                thigh = tv > 0.25;
            } else if tv > 0.5 {
                thigh = true;
                phase = 0.0;
            }
            if high {
                high = cv > 0.25;
            } else if cv > 0.5 {
                high = true;
                if count > 0 {
                    inc = 1.0 / count as f64;
                }
                count = 0;
            }
            count += 1;
            phase = (phase + inc) % limit;
            if f < 10 {
                continue;
            }
            let rp = match mode {
                0 => phase,
                1 => phase * rows as f64,
                _ => (cv.abs() as f64).fract() * rows as f64,
            };
            for (i, cc) in cols.iter().enumerate() {
                c.checks += 1;
                let (v, g) = (st[i][f], st[6 + i][f]);
                // a position just before the wrap may be shown as the start
                if !cc.fits(rp, v, g) && !(rp < EPS && cc.fits(rows as f64 - EPS, v, g)) {
                    return Err(format!("frame {}: column {} ({:?} {:?}) at row position {}: plays {} gate {}, written is {:?}", f, i + 1, cc.kind, cc.cells, rp, v, g, cc.at(rp)));
                }
            }
        }
        Ok(())
    });
}

fn mc_grid(k: Kind) -> usize {
    if k == Kind::Gate {
        64
    } else {
        4
    }
}
