use crate::eng::*;
use crate::mc::*;
use crate::nrig::Sig;
use hexodsp::monitor::*;
use hexodsp::*;
use std::time::{Duration, Instant};

/// length of the stretch summarised by one shown value
const STRETCH: usize = 900;

/// reference of one slot: minima and maxima of successive stretches of the stream
fn reference(stream: &[f32]) -> Vec<(f32, f32)> {
    stream
        .chunks(STRETCH)
        .filter(|s| s.len() == STRETCH)
        .map(|s| s.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x))))
        .collect()
}

/// what must be shown: the last values, newest last, padded with zeros at the front
fn shown(r: &[(f32, f32)]) -> Vec<(f32, f32)> {
    let n = MONITOR_MINMAX_SAMPLES;
    let mut v = vec![(0.0, 0.0); n];
    let k = r.len().min(n);
    v[n - k..].copy_from_slice(&r[r.len() - k..]);
    v
}

fn diff(have: &[(f32, f32)], want: &[(f32, f32)]) -> Option<String> {
    let n = have.len();
    for i in (0..n).rev() {
        if have[i] != want[i] {
            return Some(format!("the value shown {} from the newest is {:?} instead of {:?}", n - 1 - i, have[i], want[i]));
        }
    }
    None
}

/// polls until all slots show what they have to, or nothing more can be expected
fn compare(get: &mut dyn FnMut(usize) -> Vec<(f32, f32)>, streams: &[Vec<f32>], c: &mut Case) -> Result<(), String> {
    let want: Vec<Vec<(f32, f32)>> = streams.iter().map(|s| shown(&reference(s))).collect();
    let t0 = Instant::now();
    let mut settled = false;
    loop {
        let have: Vec<Vec<(f32, f32)>> = (0..MON_SIG_CNT).map(|i| get(i)).collect();
        let d = (0..MON_SIG_CNT).find_map(|i| diff(&have[i], &want[i]).map(|d| format!("signal {}: {}", i, d)));
        match d {
            // nothing more may come
            None if !settled => {
                settled = true;
                real_sleep_ms(2);
            }
            None => {
                c.checks += MON_SIG_CNT as u64;
                c.observe(&want.iter().map(|w| w.iter().flat_map(|x| [x.0.to_bits(), x.1.to_bits()]).collect::<Vec<_>>()).collect::<Vec<_>>());
                return Ok(());
            }
            Some(d) => {
                if t0.elapsed() > Duration::from_millis(3000) {
                    return Err(d);
                }
                settled = false;
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    }
}

/// waits until the monitor has taken all buffers
fn caught_up(b: &mut MonitorBackend, total: usize) -> bool {
    let t0 = Instant::now();
    loop {
        b.check_recycle();
        if b.count_unused_mon_bufs() == total {
            return true;
        }
        if t0.elapsed() > Duration::from_millis(3000) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn blocks128(v: Vec<usize>) -> Vec<usize> {
    v.into_iter().flat_map(|n| (0..(n + 127) / 128).map(move |i| (n - i * 128).min(128))).collect()
}

fn raw(sigs: &[Option<fn(usize) -> f32>], f: &dyn Fn(usize, usize) -> f32, blocks: &[usize], together: bool, wait_every: usize, c: &mut Case) -> Result<(), String> {
    let (mut b, mut m) = new_monitor_processor();
    let total = b.count_unused_mon_bufs();
    let mut streams = vec![vec![]; MON_SIG_CNT];
    let mut pos = 0;
    let mut used = 0;
    for (k, n) in blocks.iter().enumerate() {
        c.step();
        b.check_recycle();
        if used > 300 || (wait_every > 0 && k % wait_every == 0) {
            if !caught_up(&mut b, total) {
                return Err(format!("only {} of {} monitor buffers came back", b.count_unused_mon_bufs(), total));
            }
            used = 0;
        }
        let data: Vec<Option<Vec<f32>>> = (0..MON_SIG_CNT).map(|i| sigs[i].map(|_| (0..*n).map(|j| f(i, pos + j)).collect())).collect();
        if together {
            let mut mb = b.get_unused_mon_buf().ok_or("no monitor buffer left")?;
            for i in 0..MON_SIG_CNT {
                if let Some(d) = &data[i] {
                    mb.feed(i, *n, &d[..]);
                }
            }
            b.send_mon_buf(mb);
            used += 1;
        } else {
            for i in 0..MON_SIG_CNT {
                if let Some(d) = &data[i] {
                    let mut mb = b.get_unused_mon_buf().ok_or("no monitor buffer left")?;
                    mb.feed(i, *n, &d[..]);
                    b.send_mon_buf(mb);
                    used += 1;
                }
            }
        }
        for i in 0..MON_SIG_CNT {
            if let Some(d) = &data[i] {
                streams[i].extend_from_slice(d);
            }
        }
        pos += n;
    }
    c.checks += 1;
    if !caught_up(&mut b, total) {
        return Err(format!("only {} of {} monitor buffers came back", b.count_unused_mon_bufs(), total));
    }
    compare(
        &mut |i| {
            let s = m.get_minmax_monitor_samples(i);
            (0..s.len()).map(|k| *s.at(k)).collect()
        },
        &streams,
        c,
    )?;
    Ok(())
}

fn dummy(_: usize) -> f32 {
    0.0
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// monitor the cell at this place
    Mon(usize, usize),
    MonNothing,
    Sync,
    Place(usize),
    Param(usize, f32),
    Clear,
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every listed cut of the signal into blocks, every position of an extreme value, every number of stretches, and every history of monitor switches, edits and audio up to the depth is run on the real monitor (with its thread) and compared with the minima and maxima computed from the signals themselves.".into();
    // cuts and waits
    let cand = if mc.thorough() { vec![1, 127, 128, 500, 899, 900, 901, 1000, 1799, 1800, 1801, 2699, 2700] } else { vec![1, 128, 500, 899, 900, 901, 1799, 1801, 2699, 2700] };
    let k = cand.len();
    mc.space("cuts", (1u64 << k) * 4, |idx, c| {
        let mut d = Dec(idx);
        let together = d.flag();
        let wait = [0, 3][d.take(2)];
        let blocks = blocks128(blocks_from_cuts(2750, &cand, d.0));
        // which signals are fed changes with the index
        let mask = (d.0 * 7 + 1) % 63 + 1;
        let sigs: Vec<Option<fn(usize) -> f32>> = (0..MON_SIG_CNT).map(|i| if mask >> i & 1 == 1 { Some(dummy as fn(usize) -> f32) } else { None }).collect();
        c.log(|| format!("signals {:06b} {} buffer(s), blocks {:?}", mask, if together { "in one" } else { "in separate" }, blocks));
        raw(&sigs, &|i, p| Sig::Smooth(i as u32 * 2).at(p * (i + 1)) * (1.0 + (p / 333) as f32 * 0.1), &blocks, together, wait, c)
    });
    // an extreme value at each position
    let step = if mc.thorough() { 1 } else { 3 };
    mc.space("extremes", 2000 / step * 3, |idx, c| {
        let mut d = Dec(idx);
        let kind = d.take(3);
        let p = d.0 as usize * step as usize;
        let (lo, hi) = [(-0.5, 0.5), (120.0, 250.0), (-400.0, -150.0)][kind];
        c.log(|| format!("values between {} and {}, one outside at {}", lo, hi, p));
        let spike = |i: usize, q: usize| if q == p { if i == 0 { lo - 3.0 } else { hi + 3.0 } } else if q % 2 == 0 { lo } else { hi };
        raw(&[Some(dummy), None, None, None, None, Some(dummy)], &spike, &blocks128(vec![2750]), false, 0, c)
    });
    // number of stretches, beyond the number of values kept
    let th = mc.thorough();
    mc.space("history-length", if th { 340 } else { 40 }, |idx, c| {
        let n = if th { idx as usize } else { [0, 1, 2, 3, 5, 10, 50, 100, 150, 158, 159, 160, 161, 162, 170, 200, 319, 320, 321, 322][(idx / 2) as usize % 20] + (idx as usize % 2) };
        c.log(|| format!("{} stretches", n));
        raw(&[Some(dummy), None, Some(dummy), None, None, None], &|i, p| ((p / STRETCH) as f32 + (p % 7) as f32 * 0.1) * if i == 0 { 0.25 } else { -0.5 }, &blocks128(vec![n * STRETCH + 10]), true, 200, c)
    });
    // through the engine: which signals are monitored
    let ports = [None, Some(0u8), Some(1), Some(2), Some(3), Some(4)];
    mc.space("cell-ports", 6 * 6 * 6 * 8, |idx, c| {
        let mut d = Dec(idx);
        let ins = [ports[d.take(6)], ports[d.take(6)], ports[d.take(6)]];
        let outs: Vec<Option<u8>> = (0..3).map(|_| if d.flag() { Some(0) } else { None }).collect();
        c.log(|| format!("cell with inputs {:?}, outputs {:?}", ins, outs));
        let mut w = World::new();
        w.inner(ins, &outs);
        w.e.m.sync().map_err(|e| format!("{:?}", e))?;
        w.op(Op::Mon(1, 1), c)?;
        for _ in 0..15 {
            w.block(128, c);
        }
        w.finish(c)
    });
    // histories
    let al = [Op::Mon(1, 1), Op::Mon(1, 0), Op::Mon(1, 2), Op::MonNothing, Op::Sync, Op::Place(0), Op::Place(1), Op::Param(1, 0.7), Op::Clear];
    let depth = mc.pick(4, 5);
    let n = seqs_upto(al.len() as u64, depth);
    mc.space("histories", n, |idx, c| {
        let sq = seq_at(al.len() as u64, idx);
        let mut w = World::new();
        w.inner([Some(1), Some(0), Some(2)], &[Some(0), None, Some(0)]);
        w.e.m.sync().map_err(|e| format!("{:?}", e))?;
        for s in sq.iter() {
            w.op(al[*s as usize], c)?;
            for b in [128, 128, 100, 1, 128] {
                w.block(b, c);
            }
        }
        for _ in 0..5 {
            w.block(128, c);
        }
        w.finish(c)
    });
    mc.assume("the monitoring thread keeps up: less than the buffered amount (about two seconds) is pending");
    mc.assume("a stretch during which another cell is selected spans both; the display history is kept across switches");
}

/// A small matrix of probes, the cell in the middle has ports to choose.
struct World {
    e: Eng,
    logs: Vec<Log>,
    streams: Vec<Vec<f32>>,
    cleared: bool,
}

impl World {
    fn new() -> World {
        let e = engine(3, 3);
        let logs = (0..4).map(|_| Log::default()).collect();
        let w = World { e, logs, streams: vec![vec![]; MON_SIG_CNT], cleared: false };
        for i in 0..4 {
            w.install(i);
        }
        w
    }
    fn install(&self, i: usize) {
        let l2 = self.logs[i].clone();
        self.e.m.set_dynamic_node1x1(
            i,
            Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                let mut l = l2.lock().unwrap();
                let f = l.inp.len();
                l.inp.extend_from_slice(inp);
                l.alpha.extend_from_slice(ctx.alpha_slice());
                l.beta.extend_from_slice(ctx.beta_slice());
                l.gamma.extend_from_slice(ctx.gamma_slice());
                l.delta.extend_from_slice(ctx.delta_slice());
                l.calls.push(inp.len());
                for (k, o) in out.iter_mut().enumerate() {
                    *o = Sig::Smooth(i as u32 + 1).at(f + k) + i as f32;
                }
            }),
        );
    }
    fn inner(&mut self, ins: [Option<u8>; 3], outs: &[Option<u8>]) {
        let m = &mut self.e.m;
        m.place(1, 0, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0)));
        m.place(1, 1, Cell::empty(NodeId::Rust1x1(1)).input(ins[0], ins[1], ins[2]).out(outs[0], outs[1], outs[2]));
        m.place(1, 2, Cell::empty(NodeId::Rust1x1(2)).input(None, Some(0), None).out(None, None, Some(0)));
        for (i, p) in ["alpha", "beta", "gamma", "delta"].iter().enumerate() {
            m.set_param(pid(NodeId::Rust1x1(1), p), SAtom::param(-0.9 + 0.3 * i as f32));
        }
    }
    fn op(&mut self, op: Op, c: &mut Case) -> Result<(), String> {
        c.log(|| format!("{:?}", op));
        c.step();
        let m = &mut self.e.m;
        match op {
            Op::Mon(x, y) => {
                let cell = m.get_copy(x, y).unwrap();
                m.monitor_cell(cell);
            }
            Op::MonNothing => m.monitor_cell(Cell::empty(NodeId::Nop)),
            Op::Sync => m.sync().map_err(|e| format!("{:?}", e))?,
            Op::Place(k) => {
                // a further node beside, or the middle one gone
                if k == 0 {
                    m.place(0, 2, Cell::empty(NodeId::Sin(0)).out(None, None, Some(0)));
                } else {
                    m.place(1, 1, Cell::empty(NodeId::Rust1x1(3)).input(Some(2), None, Some(0)).out(Some(0), None, None));
                }
                m.sync().map_err(|e| format!("{:?}", e))?;
                if self.cleared && k == 1 {
                    // the node was made anew, what was installed went with the old one
                    self.install(3);
                }
            }
            Op::Param(k, v) => m.set_param(pid(NodeId::Rust1x1(1), ["alpha", "beta", "gamma", "delta"][k]), SAtom::param(v)),
            Op::Clear => {
                m.clear();
                self.cleared = true;
            }
        }
        Ok(())
    }
    fn block(&mut self, n: usize, c: &mut Case) {
        c.step();
        let cell = *self.e.m.monitored_cell();
        let before: Vec<usize> = self.logs.iter().map(|l| l.lock().unwrap().inp.len()).collect();
        self.e.audio(&vec![0.0; n]);
        let inst = cell.node_id().instance();
        if !matches!(cell.node_id(), NodeId::Rust1x1(_)) {
            return;
        }
        let l = self.logs[inst].lock().unwrap();
        if l.inp.len() == before[inst] {
            // the node does not run
            return;
        }
        let ins = [CellDir::T, CellDir::TL, CellDir::BL].map(|d| cell.local_port_idx(d));
        let outs = [CellDir::TR, CellDir::BR, CellDir::B].map(|d| cell.local_port_idx(d));
        for (i, p) in ins.iter().enumerate() {
            if let Some(p) = p {
                let s = [&l.inp, &l.alpha, &l.beta, &l.delta, &l.gamma][*p as usize];
                self.streams[i].extend_from_slice(&s[before[inst]..]);
            }
        }
        for (i, p) in outs.iter().enumerate() {
            if p.is_some() {
                for f in before[inst]..l.inp.len() {
                    self.streams[3 + i].push(Sig::Smooth(inst as u32 + 1).at(f) + inst as f32);
                }
            }
        }
    }
    fn finish(&mut self, c: &mut Case) -> Result<(), String> {
        let m = &mut self.e.m;
        compare(
            &mut |i| {
                let s = m.get_minmax_monitor_samples(i);
                (0..s.len()).map(|k| s[k]).collect()
            },
            &self.streams,
            c,
        )
    }
}
