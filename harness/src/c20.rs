use crate::c01::perm;
use crate::mc::*;
use hexodsp::nodes::NodeGraphOrdering;
use hexodsp::NodeId;

/// node k of up to 1500: spread over node types
fn nid(k: usize) -> NodeId {
    let i = k % 250;
    match k / 250 {
        0 => NodeId::Sin(i as u8),
        1 => NodeId::Amp(i as u8),
        2 => NodeId::Mix3(i as u8),
        3 => NodeId::Delay(i as u8),
        4 => NodeId::Map(i as u8),
        _ => NodeId::Test(i as u8),
    }
}

struct G {
    n: usize,
    edges: Vec<(usize, usize)>,
}

impl G {
    fn reach(&self) -> Vec<Vec<bool>> {
        let mut r = vec![vec![false; self.n]; self.n];
        for (a, b) in self.edges.iter() {
            r[*a][*b] = true;
        }
        for k in 0..self.n {
            for a in 0..self.n {
                if r[a][k] {
                    for b in 0..self.n {
                        if r[k][b] {
                            r[a][b] = true;
                        }
                    }
                }
            }
        }
        r
    }
}

fn build(o: &mut NodeGraphOrdering, g: &G, ord: &[usize], rev: bool) {
    for k in ord {
        o.add_node(nid(*k));
    }
    let mut e = g.edges.clone();
    if rev {
        e.reverse();
    }
    for (a, b) in e {
        o.add_edge(nid(a), nid(b));
    }
}

fn check(o: &mut NodeGraphOrdering, g: &G, paths: bool, c: &mut Case) -> Result<(), String> {
    let r = g.reach();
    let cyclic = (0..g.n).any(|k| r[k][k]);
    let mut out = vec![];
    let ok = o.calculate_order(&mut out);
    c.step();
    c.checks += 1;
    if ok == cyclic {
        return Err(format!("ordering {} on a {} graph", if ok { "succeeds" } else { "fails" }, if cyclic { "cyclic" } else { "cycle free" }));
    }
    if ok {
        if out.len() != g.n {
            return Err(format!("{} of {} nodes listed", out.len(), g.n));
        }
        let mut pos = std::collections::HashMap::new();
        for (i, n) in out.iter().enumerate() {
            if pos.insert(*n, i).is_some() {
                return Err(format!("{} listed twice", n));
            }
        }
        for k in 0..g.n {
            if !pos.contains_key(&nid(k)) {
                return Err(format!("{} not listed", nid(k)));
            }
        }
        for (a, b) in g.edges.iter() {
            if pos[&nid(*a)] >= pos[&nid(*b)] {
                return Err(format!("{} listed before {}, which it depends on", nid(*b), nid(*a)));
            }
        }
    }
    // asking again gives the same answer
    let mut out2 = vec![];
    if o.calculate_order(&mut out2) != ok || out2 != out {
        return Err("second query differs".into());
    }
    if paths {
        for a in 0..g.n {
            let cyc_reach = (0..g.n).any(|k| (k == a || r[a][k]) && r[k][k]);
            for b in 0..g.n {
                let want = a == b || r[a][b];
                c.checks += 1;
                match o.has_path(nid(a), nid(b)) {
                    Some(x) if x != want => return Err(format!("has_path({},{}) answers {}", nid(a), nid(b), x)),
                    None if !cyc_reach => return Err(format!("has_path({},{}) reports a cycle, there is none", nid(a), nid(b))),
                    _ => {}
                }
            }
        }
    }
    c.observe(&(cyclic, g.edges.len(), out.len()));
    Ok(())
}

fn digraph(n: usize, selfloops: bool, mut bits: u64) -> G {
    let mut edges = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b || selfloops {
                if bits & 1 == 1 {
                    edges.push((a, b));
                }
                bits >>= 1;
            }
        }
    }
    G { n, edges }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "A state is a labelled digraph with node and edge insertion order; the real ordering and path code is run on every one and judged by a transitive closure.".into();
    let run1 = |g: &G, ord: &[usize], rev: bool, paths: bool, c: &mut Case| {
        c.log(|| format!("{} nodes inserted as {:?}, edges {:?}", g.n, ord, g.edges));
        let mut o = NodeGraphOrdering::new();
        build(&mut o, g, ord, rev);
        check(&mut o, g, paths, c)
    };
    for n in 1..=3usize {
        let perms: u64 = (1..=n as u64).product();
        mc.space(&format!("digraphs-{}", n), (1 << (n * n)) * perms * 2, |idx, c| {
            let mut d = Dec(idx);
            let rev = d.flag();
            let p = d.take(perms as usize);
            run1(&digraph(n, true, d.0), &perm(p as u64, n), rev, true, c)
        });
    }
    let orders: Vec<Vec<usize>> = if mc.thorough() { (0..24).map(|i| perm(i, 4)).collect() } else { vec![vec![0, 1, 2, 3], vec![3, 2, 1, 0], vec![2, 0, 3, 1]] };
    mc.space("digraphs-4", (1 << 16) * orders.len() as u64, |idx, c| {
        let g = digraph(4, true, idx / orders.len() as u64);
        run1(&g, &orders[(idx % orders.len() as u64) as usize], idx & 1 == 1, true, c)
    });
    if mc.thorough() {
        mc.space("digraphs-5", 1 << 20, |idx, c| run1(&digraph(5, false, idx), &[4, 1, 3, 0, 2], false, true, c));
    }
    // nodes are implicitly added by edges (target side): no explicit insertion of the targets
    mc.space("implicit-nodes", 1 << 9, |idx, c| {
        let g = digraph(3, true, idx);
        let mut o = NodeGraphOrdering::new();
        for (a, b) in g.edges.iter() {
            o.add_node(nid(*a));
            o.add_edge(nid(*a), nid(*b));
        }
        for k in 0..3 {
            o.add_node(nid(k));
        }
        check(&mut o, &g, true, c)
    });
    // reuse of one object: graph, clear, other graph
    mc.space("reuse-after-clear", 1 << 18, |idx, c| {
        let (g1, g2) = (digraph(3, true, idx & 511), digraph(3, true, idx >> 9));
        let mut o = NodeGraphOrdering::new();
        build(&mut o, &g1, &[0, 1, 2], false);
        check(&mut o, &g1, false, c)?;
        o.clear();
        build(&mut o, &g2, &[2, 0, 1], false);
        check(&mut o, &g2, true, c)
    });
    // the same edge repeated
    mc.space("repeated-edges", (1 << 9) * 3, |idx, c| {
        let mut g = digraph(3, true, idx / 3);
        let e = g.edges.clone();
        for _ in 0..=idx % 3 {
            g.edges.extend(e.iter());
        }
        run1(&g, &[0, 1, 2], false, true, c)
    });
    // families around the internal capacities
    let sizes: Vec<usize> = if mc.thorough() {
        (1..=520).collect()
    } else {
        vec![1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513]
    };
    mc.space("families", sizes.len() as u64 * 6 * 2, |idx, c| {
        let mut d = Dec(idx);
        let rev = d.flag();
        let kind = d.take(6);
        let n = sizes[d.take(sizes.len())];
        let mut edges: Vec<(usize, usize)> = vec![];
        let mut nn = n + 1;
        match kind {
            0 => edges.extend((0..n).map(|k| (k, k + 1))),             // chain
            1 => edges.extend((0..n).map(|k| (0, k + 1))),             // fan out
            2 => edges.extend((0..n).map(|k| (k + 1, 0))),             // fan in
            3 => {
                // ring
                edges.extend((0..n).map(|k| (k, k + 1)));
                edges.push((n, 0));
            }
            4 => {
                // star out, then all into one sink
                nn = n + 2;
                edges.extend((0..n).map(|k| (0, k + 1)));
                edges.extend((0..n).map(|k| (k + 1, n + 1)));
            }
            _ => {
                // star with one back edge from the last to the hub
                edges.extend((0..n).map(|k| (0, k + 1)));
                edges.push((n, 0));
            }
        }
        let g = G { n: nn, edges };
        let mut ord: Vec<usize> = (0..nn).collect();
        if rev {
            ord.reverse();
        }
        let mut o = NodeGraphOrdering::new();
        build(&mut o, &g, &ord, rev);
        check(&mut o, &g, false, c)?;
        // a few path queries
        let r = g.reach();
        for (a, b) in [(0, nn - 1), (nn - 1, 0), (0, 0), (nn / 2, nn - 1), (1.min(nn - 1), nn / 2)] {
            let want = a == b || r[a][b];
            let cyc = (0..nn).any(|k| (k == a || r[a][k]) && r[k][k]);
            c.checks += 1;
            match o.has_path(nid(a), nid(b)) {
                Some(x) if x != want => return Err(format!("family {} n={}: has_path({},{}) answers {}", kind, n, a, b, x)),
                None if !cyc => return Err(format!("family {} n={}: has_path({},{}) reports a cycle", kind, n, a, b)),
                _ => {}
            }
        }
        Ok(())
    });
    mc.assume("the source node of an edge has been added before the edge, as the matrix and the synth constructor do");
    mc.assume("has_path on a graph with a reachable cycle may answer None (cycle) instead of a verdict");
}
