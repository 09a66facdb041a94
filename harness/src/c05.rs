use crate::eng::*;
use crate::mc::*;
use hexodsp::nodes::*;
use hexodsp::*;

const INPS: [&str; 5] = ["inp", "alpha", "beta", "delta", "gamma"];

struct W {
    e: Eng,
    logs: Vec<Log>,
    nr: usize,
    link: Vec<bool>,
    amt: Vec<Option<f32>>,
    val: Vec<f32>,
    scale: f32,
}

/// nr recording nodes whose 5 inputs can each be linked to the audio input (left channel, via Inp)
fn world(nr: usize) -> W {
    let mut e = engine(2 * nr * 5, 2);
    let mut logs = vec![];
    for k in 0..nr {
        let l = Log::default();
        e.m.set_dynamic_node1x1(k, probe(&l));
        logs.push(l);
    }
    W { e, logs, nr, link: vec![false; nr * 5], amt: vec![None; nr * 5], val: vec![0.0; nr * 5], scale: 1.0 }
}

impl W {
    fn p(&self, j: usize) -> ParamId {
        pid(NodeId::Rust1x1((j / 5) as u8), INPS[j % 5])
    }
    fn place(&mut self) {
        for j in 0..self.nr * 5 {
            self.e.m.place(2 * j, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
            let i = if self.link[j] { Some((j % 5) as u8) } else { None };
            self.e.m.place(2 * j, 1, Cell::empty(NodeId::Rust1x1((j / 5) as u8)).input(i, None, None));
        }
    }
    fn sync(&mut self) -> Result<(), String> {
        self.place();
        self.e.m.sync().map_err(|e| format!("{:?}", e))
    }
    fn set_val(&mut self, j: usize, v: f32) {
        self.val[j] = v;
        let p = self.p(j);
        self.e.m.set_param(p, SAtom::param(v));
    }
    fn set_amt(&mut self, j: usize, a: Option<f32>) -> Result<(), String> {
        self.amt[j] = a;
        let p = self.p(j);
        self.e.m.set_param_modamt(p, a).map_err(|e| format!("{:?}", e))
    }
    fn block(&mut self, n: usize) -> Vec<f32> {
        let s: Vec<f32> = (0..n).map(|i| self.scale * (0.7 - 0.09 * (i % 16) as f32)).collect();
        self.e.x.process_graph_updates();
        block2(&mut self.e.x, &s, &vec![0.25; n]);
        s
    }
    fn check(&mut self, c: &mut Case) -> Result<(), String> {
        for _ in 0..5 {
            self.block(128);
            self.e.m.update_output_feedback();
        }
        for l in self.logs.iter() {
            *l.lock().unwrap() = ProbeLog::default();
        }
        let s = self.block(16);
        for j in 0..self.nr * 5 {
            let l = self.logs[j / 5].lock().unwrap();
            let got = [&l.inp, &l.alpha, &l.beta, &l.delta, &l.gamma][j % 5];
            if got.len() != 16 {
                return Err(format!("node {} saw {} frames", j / 5, got.len()));
            }
            for f in 0..16 {
                c.checks += 1;
                let want = match (self.link[j], self.amt[j]) {
                    (false, _) => self.val[j],
                    (true, None) => s[f],
                    (true, Some(a)) => self.val[j] + a * s[f],
                };
                let ok = if self.link[j] { (got[f] - want).abs() < 1e-5 * (1.0 + want.abs() + (self.amt[j].unwrap_or(0.0) * s[f]).abs()) } else { got[f] == want };
                if !ok {
                    return Err(format!(
                        "node {} {} (linked {}, amount {:?}, value {}): signal {} gave {}, expected {}",
                        j / 5, INPS[j % 5], self.link[j], self.amt[j], self.val[j], s[f], got[f], want
                    ));
                }
            }
            let shown = self.e.m.get_param_modamt(&self.p(j));
            if shown != self.amt[j] {
                return Err(format!("amount shown {:?}, set {:?}", shown, self.amt[j]));
            }
        }
        c.observe(&format!("{:?} {:?}", self.link, self.amt));
        Ok(())
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution is a history of amount, value and link edits with audio in between; distinct observations are distinct link/amount states reached.".into();
    // histories on three inputs of one node
    let hist = |w: &mut W, js: &[usize], seq: &[usize], na: usize, c: &mut Case| -> Result<(), String> {
        for (k, s) in seq.iter().enumerate() {
            let (op, gap) = (s % (5 * na), s / (5 * na));
            let j = js[op / 5];
            c.step();
            match op % 5 {
                0 => {
                    c.log(|| format!("amount of input {} = 0.5", j));
                    w.set_amt(j, Some(0.5 - 0.125 * k as f32))?;
                }
                1 => {
                    c.log(|| format!("toggle link of input {}", j));
                    w.link[j] = !w.link[j];
                    w.sync()?;
                }
                2 => {
                    c.log(|| format!("remove amount of input {}", j));
                    w.set_amt(j, None)?;
                }
                3 => {
                    c.log(|| format!("amount of input {} = -1.25", j));
                    w.set_amt(j, Some(-1.25))?;
                }
                _ => {
                    c.log(|| format!("value of input {}", j));
                    w.set_val(j, 0.1 + 0.2 * k as f32);
                }
            }
            if gap == 1 {
                w.block(32);
                c.step();
            }
        }
        w.check(c)
    };
    for start in 0..3usize {
        let d = mc.pick(3u32, 4);
        let na = if mc.thorough() { 2 } else { 3 };
        let js: Vec<usize> = vec![1, 0, 4];
        mc.space(&format!("amount-histories-{}", start), seqs_upto((10 * na) as u64, d), |idx, c| {
            let mut w = world(1);
            if start > 0 {
                w.link = vec![true; 5];
                w.sync()?;
            } else {
                w.sync()?;
            }
            for j in 0..5 {
                w.set_val(j, 0.05 * j as f32 + 0.02);
            }
            if start == 2 {
                for j in 0..5 {
                    w.set_amt(j, Some(0.3 + 0.1 * j as f32))?;
                }
            }
            w.block(64);
            hist(&mut w, &js, &seq_at((10 * na) as u64, idx), na, c)
        });
    }
    // two nodes: amount indices of one node must not move those of the other
    let d = mc.pick(3u32, 4);
    mc.space("two-nodes", seqs_upto(20, d), |idx, c| {
        let mut w = world(2);
        w.link = vec![true; 10];
        w.sync()?;
        for j in 0..10 {
            w.set_val(j, 0.03 * j as f32);
        }
        w.set_amt(3, Some(0.9))?;
        w.set_amt(8, Some(-0.8))?;
        hist(&mut w, &[2, 6], &seq_at(20, idx), 2, c)
    });
    // every set of inputs with amounts, set in ascending or descending order, then one changed and one removed
    let n = mc.pick(8usize, 10);
    mc.space("amount-subsets", (1u64 << n) * 4, |idx, c| {
        let mut d = Dec(idx);
        let desc = d.flag();
        let audio = d.flag();
        let mask = d.0;
        let mut w = world(2);
        w.link = vec![true; 10];
        let set: Vec<usize> = (0..n).filter(|j| mask & (1 << j) != 0).collect();
        if !audio {
            w.place();
        } else {
            w.sync()?;
            w.block(64);
        }
        for j in 0..10 {
            w.set_val(j, 0.04 * j as f32 - 0.1);
        }
        let mut o = set.clone();
        if desc {
            o.reverse();
        }
        c.log(|| format!("amounts on {:?}, audio running: {}", o, audio));
        for j in o.iter() {
            w.set_amt(*j, Some(0.1 + 0.15 * *j as f32))?;
            c.step();
        }
        w.e.m.sync().map_err(|e| format!("{:?}", e))?;
        w.check(c)?;
        if let Some(j) = o.get(o.len() / 2) {
            w.set_amt(*j, Some(-0.77))?;
            w.check(c)?;
            c.step();
        }
        if let Some(j) = o.first() {
            w.set_amt(*j, None)?;
            w.check(c)?;
            c.step();
        }
        Ok(())
    });
    // every pair of amounts after each other (also 0, tiny and large ones), with a value change, at several signal levels
    let amts = [Some(0.0f32), Some(1.0), Some(-1.0), Some(1e-6), Some(0.3), Some(2.0), Some(-7.5), Some(40.0), None];
    let vals = [0.0f32, 0.25, -0.9, 1.0];
    let scales = [1.0f32, 0.0, 25.0, -300.0, 1e-4];
    mc.space("amount-values", (9 * 9 * 4 * 4 * 5 * 2) as u64, |idx, c| {
        let mut d = Dec(idx);
        let (a, b) = (amts[d.take(9)], amts[d.take(9)]);
        let (v, w2) = (vals[d.take(4)], vals[d.take(4)]);
        let sc = scales[d.take(5)];
        let j = [1usize, 4][d.take(2)];
        c.log(|| format!("amount {:?} then {:?}, value {} then {}, signal times {}", a, b, v, w2, sc));
        let mut w = world(1);
        w.link[j] = true;
        w.scale = sc;
        w.sync()?;
        w.set_val(j, v);
        w.set_amt(j, a)?;
        c.step();
        w.check(c)?;
        w.set_val(j, w2);
        c.step();
        w.check(c)?;
        w.set_amt(j, b)?;
        c.step();
        w.check(c)
    });
    // many amounts at once
    let nr = 12usize;
    mc.space("many-amounts", (nr * 5) as u64, |idx, c| {
        let mut w = world(nr);
        w.link = vec![true; nr * 5];
        w.sync()?;
        for j in 0..=idx as usize {
            w.set_amt(j, Some(0.01 * (j + 1) as f32))?;
            c.step();
        }
        w.check(c)?;
        w.set_amt(idx as usize / 2, None)?;
        w.check(c)
    });
    mc.assume("amounts take effect at the start of the next audio block; values are compared after the smoothing time");
}
