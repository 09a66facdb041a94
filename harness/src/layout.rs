//! Small matrix layouts and an independent interpreter for them.
use crate::eng::*;
use hexodsp::nodes::*;
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum N {
    R(u8),
    Inp,
    Out,
    Ext,
}
impl N {
    pub fn id(self) -> NodeId {
        match self {
            N::R(i) => NodeId::Rust1x1(i),
            N::Inp => NodeId::Inp(0),
            N::Out => NodeId::Out(0),
            N::Ext => NodeId::ExtA(0),
        }
    }
    pub fn nin(self) -> usize {
        match self {
            N::R(_) => 5,
            N::Inp => 1,
            N::Out => 3,
            N::Ext => 4,
        }
    }
    pub fn nout(self) -> usize {
        match self {
            N::R(_) => 1,
            N::Inp => 2,
            N::Out => 0,
            N::Ext => 3,
        }
    }
    pub fn in_name(self, i: usize) -> &'static str {
        match self {
            N::R(_) => ["inp", "alpha", "beta", "delta", "gamma"][i],
            N::Inp => ["vol"][i],
            N::Out => ["ch1", "ch2", "vol"][i],
            N::Ext => ["slew", "atv1", "atv2", "atv3"][i],
        }
    }
    /// parameter value given to that input (normalised); None: leave the default
    pub fn pval(self, i: usize) -> Option<f32> {
        match self {
            N::R(k) => Some(0.0625 * (1 + i) as f32 + 0.25 * (k % 3) as f32 + 0.001 * (k as f32)),
            N::Out if i < 2 => Some(0.125 + 0.25 * i as f32),
            N::Ext if i > 0 => Some(0.25 * i as f32 - 0.1),
            _ => None,
        }
    }
    pub fn pid(self, i: usize) -> ParamId {
        self.id().inp_param(self.in_name(i)).unwrap()
    }
    pub fn effective(self, i: usize) -> f32 {
        self.pval(i).unwrap_or_else(|| self.pid(i).norm_def())
    }
}

/// one grid cell: inputs at (T, TL, BL), outputs at (TR, BR, B)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct LCell {
    pub n: N,
    pub i: [Option<u8>; 3],
    pub o: [Option<u8>; 3],
}

pub fn lc(n: N, i: [i8; 3], o: [i8; 3]) -> Option<LCell> {
    let f = |v: i8| if v < 0 { None } else { Some(v as u8) };
    Some(LCell { n, i: i.map(f), o: o.map(f) })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Layout {
    pub w: usize,
    pub h: usize,
    pub c: Vec<Option<LCell>>,
}

pub type Link = ((usize, usize), (usize, usize), N, u8, N, u8);

impl Layout {
    pub fn new(w: usize, h: usize) -> Self {
        Self { w, h, c: vec![None; w * h] }
    }
    pub fn at(&self, x: i64, y: i64) -> Option<LCell> {
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            None
        } else {
            self.c[x as usize * self.h + y as usize]
        }
    }
    pub fn set(&mut self, x: usize, y: usize, c: Option<LCell>) {
        let h = self.h;
        self.c[x * h + y] = c;
    }
    /// (from pos, to pos, from node, output, to node, input)
    pub fn links(&self) -> Vec<Link> {
        let mut v = vec![];
        for x in 0..self.w as i64 {
            for y in 0..self.h as i64 {
                let Some(a) = self.at(x, y) else { continue };
                // odd columns are shifted half a cell down
                let up = if x % 2 == 0 { -1 } else { 0 };
                let targets = [((x + 1, y + up), 2), ((x + 1, y + up + 1), 1), ((x, y + 1), 0)];
                for (k, ((tx, ty), inslot)) in targets.iter().enumerate() {
                    if let (Some(o), Some(b)) = (a.o[k], self.at(*tx, *ty)) {
                        if let Some(i) = b.i[*inslot] {
                            v.push(((x as usize, y as usize), (*tx as usize, *ty as usize), a.n, o, b.n, i));
                        }
                    }
                }
            }
        }
        v
    }
    pub fn nodes(&self) -> BTreeSet<N> {
        self.c.iter().flatten().map(|c| c.n).collect()
    }
    pub fn has_duplicate(&self) -> bool {
        let mut s = BTreeSet::new();
        self.links().iter().any(|l| !s.insert((l.4, l.5)))
    }
    /// nodes in a dependency order, None when cyclic
    pub fn order(&self) -> Option<Vec<N>> {
        let links = self.links();
        let mut left: BTreeSet<N> = self.nodes();
        let mut out = vec![];
        while !left.is_empty() {
            let r = left
                .iter()
                .find(|n| !links.iter().any(|l| l.4 == **n && left.contains(&l.2)))
                .copied()?;
            left.remove(&r);
            out.push(r);
        }
        Some(out)
    }
    pub fn valid(&self) -> bool {
        !self.has_duplicate() && self.order().is_some()
    }
    pub fn cell(&self, c: &Option<LCell>) -> Cell {
        match c {
            None => Cell::empty(NodeId::Nop),
            Some(c) => Cell::empty(c.n.id()).input(c.i[0], c.i[1], c.i[2]).out(c.o[0], c.o[1], c.o[2]),
        }
    }
    pub fn place(&self, m: &mut Matrix) {
        for x in 0..self.w {
            for y in 0..self.h {
                m.place(x, y, self.cell(&self.c[x * self.h + y]));
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for x in 0..self.w {
            for y in 0..self.h {
                if let Some(c) = self.at(x as i64, y as i64) {
                    let f = |v: &[Option<u8>; 3]| {
                        v.iter().map(|o| o.map(|o| o.to_string()).unwrap_or("-".into())).collect::<String>()
                    };
                    s.push_str(&format!("({},{})={:?}[in {} out {}] ", x, y, c.n, f(&c.i), f(&c.o)));
                }
            }
        }
        s
    }

    /// Evaluate `n` frames; returns per node the input and output streams.
    pub fn eval(&self, in_l: &[f32], in_r: &[f32]) -> Option<BTreeMap<N, (Vec<Vec<f32>>, Vec<Vec<f32>>)>> {
        let order = self.order()?;
        let links = self.links();
        let n = in_l.len();
        let mut r: BTreeMap<N, (Vec<Vec<f32>>, Vec<Vec<f32>>)> = BTreeMap::new();
        for node in order {
            let mut ins = vec![];
            for i in 0..node.nin() {
                let l = links.iter().find(|l| l.4 == node && l.5 as usize == i);
                ins.push(match l {
                    Some(l) if (l.3 as usize) < l.2.nout() => r[&l.2].1[l.3 as usize].clone(),
                    _ => vec![node.effective(i); n],
                });
            }
            let outs = match node {
                N::R(k) => vec![(0..n)
                    .map(|f| rfun(k, ins[0][f], ins[1][f], ins[2][f], ins[3][f], ins[4][f]))
                    .collect::<Vec<f32>>()],
                N::Inp => {
                    let p = node.pid(0);
                    vec![
                        (0..n).map(|f| p.denorm(ins[0][f]) * in_l[f]).collect(),
                        (0..n).map(|f| p.denorm(ins[0][f]) * in_r[f]).collect(),
                    ]
                }
                N::Out => vec![],
                N::Ext => (0..3).map(|k| (0..n).map(|f| ins[k + 1][f] * EXT[k]).collect()).collect(),
            };
            r.insert(node, (ins, outs));
        }
        Some(r)
    }
    pub fn out_streams(
        &self,
        ev: &BTreeMap<N, (Vec<Vec<f32>>, Vec<Vec<f32>>)>,
        n: usize,
    ) -> (Vec<f32>, Vec<f32>) {
        match ev.get(&N::Out) {
            None => (vec![0.0; n], vec![0.0; n]),
            Some((ins, _)) => {
                let p = N::Out.pid(2);
                (
                    (0..n).map(|f| p.denorm(ins[2][f]) * ins[0][f]).collect(),
                    (0..n).map(|f| p.denorm(ins[2][f]) * ins[1][f]).collect(),
                )
            }
        }
    }
}

pub const EXT: [f32; 3] = [0.7, -0.3, 0.45];
pub struct Ext;
impl ExternalParams for Ext {
    fn a1(&self) -> f32 {
        EXT[0]
    }
    fn a2(&self) -> f32 {
        EXT[1]
    }
    fn a3(&self) -> f32 {
        EXT[2]
    }
}

pub fn rfun(k: u8, a: f32, b: f32, c: f32, d: f32, e: f32) -> f32 {
    (k as f32 + 1.0) * 0.015625 + a + 0.5 * b + 0.25 * c + 0.375 * d + 0.125 * e
}

pub fn rnode(k: u8, log: &Log) -> Box<dyn DynamicNode1x1> {
    let log = log.clone();
    Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
        let mut l = log.lock().unwrap();
        l.inp.extend_from_slice(inp);
        l.alpha.extend_from_slice(ctx.alpha_slice());
        l.beta.extend_from_slice(ctx.beta_slice());
        l.gamma.extend_from_slice(ctx.gamma_slice());
        l.delta.extend_from_slice(ctx.delta_slice());
        l.calls.push(inp.len());
        for f in 0..inp.len() {
            out[f] = rfun(
                k,
                inp[f],
                ctx.alpha_slice()[f],
                ctx.beta_slice()[f],
                ctx.delta_slice()[f],
                ctx.gamma_slice()[f],
            );
        }
    })
}

pub struct Rig {
    pub e: Eng,
    pub logs: Vec<Log>,
}

/// An engine with `nr` recording DSP nodes and the parameter values of `N::pval`.
pub fn rig(w: usize, h: usize, nr: usize) -> Rig {
    let mut e = engine(w, h);
    e.x.set_external_params(Arc::new(Ext));
    let mut logs = vec![];
    for k in 0..nr {
        let l = Log::default();
        e.m.set_dynamic_node1x1(k, rnode(k as u8, &l));
        logs.push(l);
    }
    set_params(&mut e.m, nr);
    Rig { e, logs }
}

pub fn set_params(m: &mut Matrix, nr: usize) {
    let mut ns: Vec<N> = (0..nr).map(|k| N::R(k as u8)).collect();
    ns.extend([N::Inp, N::Out, N::Ext]);
    for n in ns {
        for i in 0..n.nin() {
            if let Some(v) = n.pval(i) {
                m.set_param(n.pid(i), SAtom::param(v));
            }
        }
    }
}

pub fn diff(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} frames instead of {}", what, got.len(), want.len()));
    }
    for f in 0..got.len() {
        if got[f].to_bits() != want[f].to_bits() && !(got[f] == 0.0 && want[f] == 0.0) {
            return Err(format!("{}: frame {} is {:?}, expected {:?}", what, f, got[f], want[f]));
        }
    }
    Ok(())
}

impl Rig {
    pub fn clear_logs(&mut self) {
        for l in self.logs.iter() {
            *l.lock().unwrap() = ProbeLog::default();
        }
    }
    /// Renders blocks of the given sizes and compares everything with the interpreter.
    pub fn compare(&mut self, l: &Layout, blocks: &[usize]) -> Result<u64, String> {
        self.clear_logs();
        let total: usize = blocks.iter().sum();
        let in_l: Vec<f32> = (0..total).map(|i| 0.01 * (i + 1) as f32).collect();
        let in_r: Vec<f32> = (0..total).map(|i| -0.02 * (i + 1) as f32).collect();
        let ev = l.eval(&in_l, &in_r).ok_or("cyclic")?;
        let (mut ol, mut or) = (vec![], vec![]);
        let mut p = 0;
        for b in blocks {
            self.e.x.process_graph_updates();
            let (a, c) = block2(&mut self.e.x, &in_l[p..p + b], &in_r[p..p + b]);
            ol.extend(a);
            or.extend(c);
            p += b;
        }
        let (wl, wr) = l.out_streams(&ev, total);
        diff("left output", &ol, &wl)?;
        diff("right output", &or, &wr)?;
        let mut n = 2 * total as u64;
        for (k, log) in self.logs.iter().enumerate() {
            let log = log.lock().unwrap();
            match ev.get(&N::R(k as u8)) {
                None => {
                    if !log.calls.is_empty() {
                        return Err(format!("node R{} ran although it is not in the layout", k));
                    }
                }
                Some((ins, _)) => {
                    for (i, s) in [&log.inp, &log.alpha, &log.beta, &log.delta, &log.gamma].iter().enumerate() {
                        diff(&format!("R{} input {}", k, N::R(0).in_name(i)), s, &ins[i])?;
                        n += total as u64;
                    }
                }
            }
        }
        Ok(n)
    }
    /// the link queries agree with the drawn links
    pub fn compare_links(&self, l: &Layout) -> Result<u64, String> {
        let links = l.links();
        let mut n = 0;
        for x in 0..l.w {
            for y in 0..l.h {
                let mut want: Vec<(u8, u8, u8, (usize, usize))> = vec![];
                for (a, b, _, o, _, i) in links.iter() {
                    let dir = if b.0 == a.0 {
                        CellDir::B
                    } else {
                        let up = if a.0 % 2 == 0 { -1i64 } else { 0 };
                        if b.1 as i64 == a.1 as i64 + up {
                            CellDir::TR
                        } else {
                            CellDir::BR
                        }
                    };
                    if *a == (x, y) {
                        want.push((dir.as_edge(), *o, *i, *b));
                    }
                    if *b == (x, y) {
                        want.push((dir.flip().as_edge(), *i, *o, *a));
                    }
                }
                want.sort();
                let mut got: Vec<_> = self
                    .e
                    .m
                    .get_connections(x, y)
                    .ok_or("no connections answer for a cell inside the matrix")?
                    .iter()
                    .map(|(c, o)| (c.1.as_edge(), c.2, o.2, o.3))
                    .collect();
                got.sort();
                n += 1;
                if got != want {
                    return Err(format!("connections listed at ({},{}) are {:?}, drawn are {:?}", x, y, got, want));
                }
            }
        }
        for nd in l.nodes() {
            for i in 0..nd.nin() {
                let used = links.iter().any(|k| k.4 == nd && k.5 as usize == i);
                n += 1;
                if self.e.m.param_input_is_used(nd.pid(i)) != used {
                    return Err(format!("{:?} input {} reported used={}, drawn {}", nd, nd.in_name(i), !used, used));
                }
            }
        }
        Ok(n)
    }
}

/// a general purpose cell alphabet
pub fn alphabet() -> Vec<Option<LCell>> {
    vec![
        None,
        lc(N::R(0), [0, 1, 2], [0, 0, 0]),
        lc(N::Inp, [-1, -1, -1], [0, 1, 0]),
        lc(N::Out, [0, 1, -1], [-1, -1, -1]),
        lc(N::R(1), [0, 1, 4], [0, 0, 0]),
        lc(N::Out, [1, -1, 0], [-1, -1, -1]),
        lc(N::R(0), [3, 4, -1], [0, -1, -1]),
        lc(N::Ext, [1, 2, 3], [1, 2, 0]),
        lc(N::R(2), [-1, 0, 4], [-1, 0, 0]),
        lc(N::R(1), [2, -1, 0], [-1, -1, 0]),
    ]
}
