//! C28: the chain builder places the chain described, with its parameters.
use crate::eng::*;
use crate::mc::*;
use hexodsp::chain_builder::MatrixCellChain;
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

/// where the neighbour in a direction lies: columns with odd x are half a cell lower
fn neighbour(p: (i32, i32), d: CellDir) -> (i32, i32) {
    let odd = p.0.rem_euclid(2);
    match d {
        CellDir::T => (p.0, p.1 - 1),
        CellDir::B => (p.0, p.1 + 1),
        CellDir::TR => (p.0 + 1, p.1 - 1 + odd),
        CellDir::BR => (p.0 + 1, p.1 + odd),
        CellDir::TL => (p.0 - 1, p.1 - 1 + odd),
        CellDir::BL => (p.0 - 1, p.1 + odd),
        CellDir::C => p,
    }
}
fn opposite(d: CellDir) -> CellDir {
    match d {
        CellDir::T => CellDir::B,
        CellDir::B => CellDir::T,
        CellDir::TR => CellDir::BL,
        CellDir::BL => CellDir::TR,
        CellDir::BR => CellDir::TL,
        CellDir::TL => CellDir::BR,
        CellDir::C => CellDir::C,
    }
}
const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];
const OUTS: [CellDir; 3] = [CellDir::TR, CellDir::BR, CellDir::B];

#[derive(Clone, Copy, Debug)]
struct Link {
    node: &'static str,
    inp: Option<(&'static str, u8)>,
    out: Option<(&'static str, u8)>,
}
const LINKS: [Link; 6] = [
    Link { node: "sin", inp: None, out: Some(("sig", 0)) },
    Link { node: "amp", inp: Some(("inp", 0)), out: Some(("sig", 0)) },
    Link { node: "out", inp: Some(("ch1", 0)), out: None },
    Link { node: "sin", inp: Some(("pm", 2)), out: Some(("sig", 0)) },
    Link { node: "amp", inp: Some(("att", 2)), out: None },
    Link { node: "sin", inp: None, out: None },
];

/// parameters given to a link
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Denorm(&'static str, f32),
    Norm(&'static str, f32),
    Atom(&'static str, i64),
}
fn params(node: &str) -> [Vec<P>; 4] {
    match node {
        "sin" => [
            vec![],
            vec![P::Denorm("freq", 220.0)],
            vec![P::Norm("det", 0.05), P::Norm("freq", 0.3)],
            vec![P::Norm("freq", 0.1), P::Denorm("freq", 880.0)],
        ],
        "amp" => [vec![], vec![P::Atom("neg_att", 0)], vec![P::Norm("att", 0.25), P::Atom("neg_att", 0)], vec![P::Denorm("att", 0.75), P::Norm("gain", 0.5)]],
        _ => [vec![], vec![P::Atom("mono", 1)], vec![P::Norm("vol", 0.5)], vec![P::Norm("ch2", 0.25), P::Atom("mono", 1)]],
    }
}

fn build(dir: CellDir, links: &[(Link, Vec<P>)], late: bool) -> MatrixCellChain {
    let mut ch = MatrixCellChain::new(dir);
    for (l, p) in links.iter() {
        match (l.inp, l.out) {
            (None, None) => ch.node(l.node),
            (Some(i), None) => ch.node_inp(l.node, i.0),
            (None, Some(o)) => ch.node_out(l.node, o.0),
            (Some(i), Some(o)) => ch.node_io(l.node, i.0, o.0),
        };
        if !late {
            give(&mut ch, p);
        }
    }
    if late {
        // backwards, with the links chosen by index
        for (k, (_, p)) in links.iter().enumerate().rev() {
            ch.params_for_idx(k);
            give(&mut ch, p);
        }
    }
    ch
}
fn give(ch: &mut MatrixCellChain, p: &[P]) {
    for p in p.iter() {
        match p {
            P::Denorm(n, v) => ch.set_denorm(n, *v),
            P::Norm(n, v) => ch.set_norm(n, *v),
            P::Atom(n, v) => ch.set_atom(n, SAtom::setting(*v)),
        };
    }
}

type Cells = BTreeMap<(usize, usize), (NodeId, [Option<u8>; 6])>;
fn cells(m: &Matrix) -> Cells {
    let mut r = Cells::new();
    m.for_each(|x, y, c| {
        let mut e = [None; 6];
        for (k, d) in DIRS.iter().enumerate() {
            e[k] = c.local_port_idx(*d);
        }
        r.insert((x, y), (c.node_id(), e));
    });
    r
}

/// all parameters the matrix knows of the nodes in use
fn all_params(m: &Matrix, used: &BTreeSet<NodeId>) -> BTreeMap<(NodeId, &'static str), String> {
    let mut r = BTreeMap::new();
    for n in used.iter() {
        let mut i = 0;
        while let Some(p) = n.inp_param_by_idx(i) {
            r.insert((*n, p.name()), format!("{:?}", m.get_param(&p)));
            i += 1;
        }
        let mut i = 0;
        while let Some(p) = n.atom_param_by_idx(i) {
            r.insert((*n, p.name()), format!("{:?}", m.get_param(&p)));
            i += 1;
        }
    }
    r
}

/// places the chain and checks the matrix against the description; returns the instances used
fn place(e: &mut Eng, dir: CellDir, ch: &mut MatrixCellChain, links: &[(Link, Vec<P>)], at: (usize, usize), used: &BTreeSet<NodeId>, late: bool, c: &mut Case) -> Result<Vec<NodeId>, String> {
    let before = cells(&e.m);
    let pb = all_params(&e.m, used);
    c.step();
    let (w, h) = e.m.size();
    guarded(|| ch.place(&mut e.m, at.0, at.1))?.map_err(|x| format!("refused: {:?}", x))?;
    let after = cells(&e.m);
    let mut want = before.clone();
    let mut pos = (at.0 as i32, at.1 as i32);
    let mut got = vec![];
    let outdir = if OUTS.contains(&dir) { dir } else { opposite(dir) };
    let indir = opposite(outdir);
    for (l, _) in links.iter() {
        if pos.0 >= 0 && pos.1 >= 0 && (pos.0 as usize) < w && (pos.1 as usize) < h {
            let k = (pos.0 as usize, pos.1 as usize);
            let n = after[&k].0;
            if n.name() != l.node {
                return Err(format!("at {:?} lies {}, described is {}", k, n, l.node));
            }
            if used.contains(&n) || got.contains(&n) {
                return Err(format!("at {:?} lies {}, which is already in use", k, n));
            }
            let mut edges = [None; 6];
            if let Some((_, i)) = l.inp {
                edges[DIRS.iter().position(|d| *d == indir).unwrap()] = Some(i);
            }
            if let Some((_, o)) = l.out {
                edges[DIRS.iter().position(|d| *d == outdir).unwrap()] = Some(o);
            }
            want.insert(k, (n, edges));
            got.push(n);
        } else {
            got.push(NodeId::Nop);
        }
        pos = neighbour(pos, dir);
    }
    c.checks += 2;
    if want != after {
        let d: Vec<_> = after.iter().filter(|(k, v)| want.get(k) != Some(v)).map(|(k, v)| format!("{:?}: {:?}, expected {:?}", k, v, want[k])).collect();
        return Err(format!("the cells differ: {}", d.join("; ")));
    }
    let pa = all_params(&e.m, used);
    if pa != pb {
        let d: Vec<_> = pa.iter().filter(|(k, v)| pb.get(k) != Some(v)).collect();
        return Err(format!("parameters of other nodes changed: {:?}", d));
    }
    given(e, links, &got, late, c)?;
    Ok(got)
}

/// the given parameters are those of the placed nodes
fn given(e: &Eng, links: &[(Link, Vec<P>)], got: &[NodeId], _late: bool, c: &mut Case) -> Result<(), String> {
    for ((_, ps), n) in links.iter().zip(got.iter()) {
        if *n == NodeId::Nop {
            continue;
        }
        let mut last: BTreeMap<&str, P> = BTreeMap::new();
        for p in ps.iter() {
            match p {
                P::Denorm(x, _) | P::Norm(x, _) | P::Atom(x, _) => last.insert(x, *p),
            };
        }
        for (x, p) in last {
            let id = n.inp_param(x).ok_or("no such parameter")?;
            let v = e.m.get_param(&id);
            c.checks += 1;
            let ok = match (p, &v) {
                (P::Denorm(_, d), Some(SAtom::Param(v))) => (id.denorm(*v) - d).abs() <= 1e-3 * d.abs(),
                (P::Norm(_, d), Some(SAtom::Param(v))) => *v == d,
                (P::Atom(_, d), Some(SAtom::Setting(v))) => *v == d,
                _ => false,
            };
            if !ok {
                return Err(format!("{} of {} is {:?}, given was {:?}", x, n, v, p));
            }
        }
    }
    Ok(())
}

fn links_at(mut i: u64, variants: usize) -> Vec<(Link, Vec<P>)> {
    let a = (LINKS.len() * variants) as u64;
    let mut n = 1u32;
    while i >= pow(a, n) {
        i -= pow(a, n);
        n += 1;
    }
    let mut d = Dec(i);
    (0..n)
        .map(|_| {
            let l = LINKS[d.take(LINKS.len())];
            (l, params(l.node)[d.take(variants)].clone())
        })
        .collect()
}
fn upto(a: u64, n: u32) -> u64 {
    (1..=n).map(|k| pow(a, k)).sum()
}

/// the nodes that are in use on the grid
fn in_use(m: &Matrix) -> BTreeSet<NodeId> {
    let mut r = BTreeSet::new();
    m.for_each(|_, _, c| {
        if c.node_id() != NodeId::Nop {
            r.insert(c.node_id());
        }
    });
    r
}

pub fn run(mc: &mut Mc) {
    mc.rule = "every chain of the given links, placed on the real matrix; the cells, edges, instances and parameters are compared with the description, everything else with what was there before".into();
    mc.assume("the instances in use are those known at the last sync (documented); links that come to lie outside the matrix are left out");

    // ---- geometry
    let len = mc.pick(4, 5) as u32;
    let n = upto(LINKS.len() as u64, len);
    mc.space("directions and places", n * 6 * 12, |i, c| {
        let mut d = Dec(i);
        let dir = DIRS[d.take(6)];
        let at = (d.take(4), d.take(3));
        let links = links_at(d.0, 1);
        c.log(|| format!("{:?} from {:?}: {:?}", dir, at, links));
        let mut e = engine(4, 3);
        let mut ch = build(dir, &links, false);
        let got = place(&mut e, dir, &mut ch, &links, at, &BTreeSet::new(), false, c)?;
        c.observe(&(at, got.len(), dir as u8));
        Ok(())
    });

    // ---- instances and parameters
    let len = mc.pick(2, 3) as u32;
    let n = upto(LINKS.len() as u64 * 4, len);
    mc.space("instances and parameters", n * 8 * 4 * 2 * 2, |i, c| {
        let mut d = Dec(i);
        let (sins, amps) = (d.take(8), d.take(4));
        let remove = d.flag();
        let late = d.flag();
        let links = links_at(d.0, 4);
        let dir = CellDir::BR;
        c.log(|| format!("in use: sin {:03b} amp {:02b} others {} late {}: {:?}", sins, amps, if remove { "removed" } else { "never placed" }, late, links));
        let mut e = engine(6, 3);
        for k in 0..3usize {
            if remove || sins >> k & 1 == 1 {
                e.m.place(0, k, Cell::empty(NodeId::Sin(k as u8)));
                e.m.set_param(NodeId::Sin(k as u8).inp_param("freq").unwrap(), SAtom::param(-0.1 * (k as f32 + 1.0)));
            }
        }
        for k in 0..2usize {
            if remove || amps >> k & 1 == 1 {
                e.m.place(1, k, Cell::empty(NodeId::Amp(k as u8)));
                e.m.set_param(NodeId::Amp(k as u8).inp_param("att").unwrap(), SAtom::param(0.9 - 0.1 * k as f32));
            }
        }
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        if remove {
            for k in 0..3usize {
                if sins >> k & 1 == 0 {
                    e.m.place(0, k, Cell::empty(NodeId::Nop));
                }
            }
            for k in 0..2usize {
                if amps >> k & 1 == 0 {
                    e.m.place(1, k, Cell::empty(NodeId::Nop));
                }
            }
            e.m.sync().map_err(|e| format!("{:?}", e))?;
        }
        let used = in_use(&e.m);
        let mut ch = build(dir, &links, late);
        let got = place(&mut e, dir, &mut ch, &links, (2, 0), &used, late, c)?;
        // the parameters are still those after the nodes came to life
        if e.m.sync().is_ok() {
            given(&e, &links, &got, late, c)?;
            // and the chain can be placed once more
            let used = in_use(&e.m);
            let got2 = place(&mut e, dir, &mut ch, &links, (2, 2), &used, late, c)?;
            if e.m.sync().is_ok() {
                given(&e, &links, &got, late, c)?;
                given(&e, &links, &got2, late, c)?;
            }
        }
        c.observe(&got);
        Ok(())
    });

    // ---- bad descriptions are reported and place nothing
    let bad = ["node", "out", "inp", "io-in", "io-out", "denorm", "norm", "atom"];
    let n = upto(LINKS.len() as u64, 2) + 1;
    mc.space("bad descriptions", n * n * bad.len() as u64 * 2 * 3, |i, c| {
        let mut d = Dec(i);
        let how = bad[d.take(bad.len())];
        let setter = d.flag();
        let dir = [CellDir::B, CellDir::T, CellDir::TR][d.take(3)];
        let a = d.take(n as usize) as u64;
        let b = d.take(n as usize) as u64;
        let (a, b) = (if a == 0 { vec![] } else { links_at(a - 1, 1) }, if b == 0 { vec![] } else { links_at(b - 1, 1) });
        c.log(|| format!("{:?} then bad {} (setter {}) then {:?}", a, how, setter, b));
        let mut ch = build(dir, &a, false);
        let r = guarded(|| {
            match how {
                "node" => {
                    ch.node("sinn");
                }
                "out" => {
                    ch.node_out("sin", "sigg");
                }
                "inp" => {
                    ch.node_inp("out", "ch9");
                }
                "io-in" => {
                    ch.node_io("amp", "sig", "sig");
                }
                "io-out" => {
                    ch.node_io("amp", "inp", "inp");
                }
                _ if a.is_empty() => return false,
                "denorm" => {
                    ch.set_denorm("nope", 1.0);
                }
                "norm" => {
                    ch.set_norm("nope", 1.0);
                }
                _ => {
                    ch.set_atom("nope", SAtom::setting(1));
                }
            }
            if setter {
                // goes on describing the chain
                ch.set_norm("freq", 0.2);
                ch.set_denorm("att", 0.5);
                ch.set_atom("mono", SAtom::setting(1));
            }
            for (l, _) in b.iter() {
                match (l.inp, l.out) {
                    (None, None) => ch.node(l.node),
                    (Some(i), None) => ch.node_inp(l.node, i.0),
                    (None, Some(o)) => ch.node_out(l.node, o.0),
                    (Some(i), Some(o)) => ch.node_io(l.node, i.0, o.0),
                };
            }
            true
        })
        .map_err(|e| format!("{:?} then bad {}: {}", a, how, e))?;
        if !r {
            return Ok(());
        }
        let mut e = engine(4, 4);
        let before = cells(&e.m);
        c.step();
        c.checks += 2;
        match guarded(|| ch.place(&mut e.m, 1, 1))? {
            Ok(()) => return Err(format!("{:?}, bad {}, {:?} was placed without an error", a, how, b)),
            Err(x) => c.observe(&format!("{:?}", x)),
        }
        if cells(&e.m) != before {
            return Err("a refused chain changed the matrix".into());
        }
        Ok(())
    });
}
