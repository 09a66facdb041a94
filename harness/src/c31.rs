//! C31: questions about the grid and its connections agree with its cells.
use crate::eng::*;
use crate::mc::*;
use hexodsp::*;

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

/// centre of a cell in the plane: columns are 1.5 apart, cells of a column sqrt(3),
/// odd columns lie half a cell lower
fn centre(p: (i64, i64)) -> (f64, f64) {
    let h = 3.0f64.sqrt();
    (1.5 * p.0 as f64, h * p.1 as f64 + if p.0.rem_euclid(2) == 1 { h / 2.0 } else { 0.0 })
}
/// the neighbour in a direction, from the geometry of the plane alone
fn neighbour(p: (i64, i64), d: CellDir) -> (i64, i64) {
    let a: f64 = match d {
        CellDir::T => -90.0,
        CellDir::TR => -30.0,
        CellDir::BR => 30.0,
        CellDir::B => 90.0,
        CellDir::BL => 150.0,
        CellDir::TL => 210.0,
        CellDir::C => return p,
    };
    let (x, y) = centre(p);
    let h = 3.0f64.sqrt();
    let t = (x + h * a.to_radians().cos(), y + h * a.to_radians().sin());
    for dx in -1..=1 {
        for dy in -1..=1 {
            let q = (p.0 + dx, p.1 + dy);
            let (u, v) = centre(q);
            if (u - t.0).abs() < 0.01 && (v - t.1).abs() < 0.01 {
                return q;
            }
        }
    }
    unreachable!()
}
fn opp(d: CellDir) -> CellDir {
    match d {
        CellDir::T => CellDir::B,
        CellDir::B => CellDir::T,
        CellDir::TR => CellDir::BL,
        CellDir::BL => CellDir::TR,
        CellDir::BR => CellDir::TL,
        CellDir::TL => CellDir::BR,
        CellDir::C => CellDir::C,
    }
}
fn is_out(d: CellDir) -> bool {
    matches!(d, CellDir::TR | CellDir::BR | CellDir::B)
}
/// number of steps between two cells
fn dist(a: (i64, i64), b: (i64, i64)) -> i64 {
    let ax = |p: (i64, i64)| {
        let q = p.0;
        let r = p.1 - (p.0 - p.0.rem_euclid(2)) / 2;
        (q, r)
    };
    let (a, b) = (ax(a), ax(b));
    let (dq, dr) = (a.0 - b.0, a.1 - b.1);
    (dq.abs() + dr.abs() + (dq + dr).abs()) / 2
}

/// a cell of the enumerated kinds, with edges as the bits of a number
fn cell(kind: usize, edges: usize) -> Cell {
    let n = [NodeId::Nop, NodeId::Amp(0), NodeId::Sin(1), NodeId::Mix3(0)][kind];
    let mut c = Cell::empty(n);
    if kind == 0 {
        return c;
    }
    for (k, d) in DIRS.iter().enumerate() {
        if edges >> k & 1 == 1 {
            c.set_io_dir(*d, if is_out(*d) { 0 } else { k % 3 });
        }
    }
    c
}
fn port(kind: usize, edges: usize, d: CellDir) -> Option<u8> {
    let k = DIRS.iter().position(|x| *x == d)?;
    if kind == 0 || edges >> k & 1 == 0 {
        None
    } else {
        Some(if is_out(d) { 0 } else { (k % 3) as u8 })
    }
}

/// a matrix whose nodes exist already
fn matrix(w: usize) -> Matrix {
    let mut m = engine(w, 3).m;
    for k in 1..4 {
        m.place(k - 1, 0, cell(k, 0));
    }
    m.sync().unwrap();
    m
}

type Grid = Vec<((usize, usize), usize, usize)>;

/// all questions about one cell of the grid
fn ask(m: &Matrix, g: &Grid, w: i64, h: i64, p: (usize, usize), c: &mut Case) -> Result<(), String> {
    let at = |q: (i64, i64)| -> Option<(usize, usize)> {
        if q.0 < 0 || q.1 < 0 || q.0 >= w || q.1 >= h {
            return None;
        }
        Some(g.iter().find(|x| x.0 == (q.0 as usize, q.1 as usize)).map(|x| (x.1, x.2)).unwrap_or((0, 0)))
    };
    let me = at((p.0 as i64, p.1 as i64)).ok_or("outside")?;
    let cl = m.get_copy(p.0, p.1).ok_or("no cell")?;
    if cl.pos() != p || m.get(p.0, p.1).map(|c| c.node_id()) != Some(cl.node_id()) {
        return Err(format!("the cell at {:?} says it is at {:?}", p, cl.pos()));
    }
    if cl.is_empty() != (me.0 == 0) {
        return Err(format!("is_empty of {:?} is {}", p, cl.is_empty()));
    }
    let mut conns = vec![];
    let (mut free_in, mut free_out, mut free_all) = (vec![], vec![], vec![]);
    let (mut open_in, mut open_out, mut open_all) = (vec![], vec![], vec![]);
    for d in [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B] {
        let q = neighbour((p.0 as i64, p.1 as i64), d);
        let mine = port(me.0, me.1, d);
        let n = at(q);
        let theirs = n.and_then(|n| port(n.0, n.1, opp(d)));
        c.checks += 6;
        if cl.has_dir_set(d) != mine.is_some() || cl.local_port_idx(d) != mine {
            return Err(format!("{:?} at {:?}: port {:?}, placed was {:?}", d, p, cl.local_port_idx(d), mine));
        }
        let want = if mine.is_some() && theirs.is_some() { Some((q.0 as usize, q.1 as usize)) } else { None };
        if cl.is_port_dir_connected(m, d) != want {
            return Err(format!("{:?} at {:?} is connected to {:?}, expected {:?}", d, p, cl.is_port_dir_connected(m, d), want));
        }
        if let (Some(a), Some(b)) = (mine, theirs) {
            conns.push((d as u8, a, b, (q.0 as usize, q.1 as usize)));
        } else {
            open_all.push(d);
            if is_out(d) {
                open_out.push(d)
            } else {
                open_in.push(d)
            }
        }
        if let Some((0, _)) = n {
            let v = (d, (q.0 as usize, q.1 as usize));
            free_all.push(v);
            if is_out(d) {
                free_out.push(v)
            } else {
                free_in.push(v)
            }
        }
        // the neighbour
        let a = m.get_adjacent(p.0, p.1, d).map(|c| c.node_id());
        let wa = n.map(|n| cell(n.0, n.1).node_id());
        if a != wa {
            return Err(format!("{:?} of {:?} lies {:?}, expected {:?}", d, p, a, wa));
        }
        let ao = m.get_adjacent_output(p.0, p.1, d);
        let wo = if is_out(d) { None } else { n.and_then(|n| port(n.0, n.1, opp(d)).map(|o| (cell(n.0, n.1).node_id(), o))) };
        if ao != wo {
            return Err(format!("the output at {:?} of {:?} is {:?}, expected {:?}", d, p, ao, wo));
        }
        if is_out(d) && m.adjacent_edge_has_input(p.0, p.1, d) != theirs.is_some() {
            return Err(format!("the cell at {:?} of {:?} has an input: {}, expected {}", d, p, m.adjacent_edge_has_input(p.0, p.1, d), theirs.is_some()));
        }
        // the label of the edge
        let mut buf = [0u8; 20];
        let l = m.edge_label(&cl, d, &mut buf).map(|(s, b)| (s.to_string(), b));
        let wl = mine.and_then(|i| {
            let n = cl.node_id();
            if is_out(d) {
                n.out_name_by_idx(i).map(|s| (s.to_string(), theirs.is_some()))
            } else {
                n.inp_name_by_idx(i).map(|s| (s.to_string(), false))
            }
        });
        if l != wl {
            return Err(format!("the label of {:?} at {:?} is {:?}, expected {:?}", d, p, l, wl));
        }
    }
    c.checks += 10;
    let mut got: Vec<_> = m
        .get_connections(p.0, p.1)
        .ok_or("no connections answered")?
        .into_iter()
        .map(|((cc, d, i), (oc, od, oi, pos))| {
            let ok = cc.node_id() == cl.node_id() && od == opp(d) && Some(oc.node_id()) == m.get(pos.0, pos.1).map(|c| c.node_id());
            (d as u8, i, oi, if ok { pos } else { (999, 999) })
        })
        .collect();
    got.sort();
    conns.sort();
    if got != conns {
        return Err(format!("connections of {:?}: {:?}, expected {:?}", p, got, conns));
    }
    for (d, free, open) in [(CellDir::T, &free_in, &open_in), (CellDir::B, &free_out, &open_out), (CellDir::C, &free_all, &open_all)] {
        let mut f = cl.find_all_adjacent_free(m, d);
        f.sort();
        let mut w = free.clone();
        w.sort();
        if f != w {
            return Err(format!("free places {:?} of {:?}: {:?}, expected {:?}", d, p, f, w));
        }
        let mut f = cl.find_unconnected_ports(m, d);
        f.sort();
        let mut w = open.clone();
        w.sort();
        if f != w {
            return Err(format!("unconnected ports {:?} of {:?}: {:?}, expected {:?}", d, p, f, w));
        }
        match cl.find_first_adjacent_free(m, d) {
            None => {
                if !free.is_empty() {
                    return Err(format!("no free place {:?} of {:?}, there are {:?}", d, p, free));
                }
            }
            Some((fd, fi)) => {
                if !free.iter().any(|x| x.0 == fd) {
                    return Err(format!("first free place {:?} of {:?} is {:?}, free are {:?}", d, p, fd, free));
                }
                // one with an assigned port comes first
                let any = free.iter().any(|x| port(me.0, me.1, x.0).is_some());
                if fi != port(me.0, me.1, fd) || (any && fi.is_none()) {
                    return Err(format!("first free place {:?} of {:?} is {:?} with port {:?}, free are {:?}", d, p, fd, fi, free));
                }
            }
        }
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "every question of the editor about every cell of every enumerated grid, against the placed cells and the geometry of hexagons in the plane".into();

    let r = mc.pick(14, 40) as i64;
    mc.space("directions", (r * r) as u64, |i, c| {
        let mut d = Dec(i);
        let p = (d.take(r as usize) as i64, d.take(r as usize) as i64);
        let up = (p.0 as usize, p.1 as usize);
        for (k, d) in DIRS.iter().enumerate() {
            c.step();
            c.checks += 5;
            if CellDir::from(k as u8) != *d || d.as_edge() != k as u8 {
                return Err(format!("{:?} has edge {}", d, d.as_edge()));
            }
            if d.flip() != opp(*d) || d.is_output() != is_out(*d) || d.is_input() == is_out(*d) {
                return Err(format!("{:?}: flip {:?} output {}", d, d.flip(), d.is_output()));
            }
            let q = neighbour(p, *d);
            let w = if q.0 >= 0 && q.1 >= 0 { Some((q.0 as usize, q.1 as usize)) } else { None };
            if d.offs_pos(up) != w {
                return Err(format!("{:?} of {:?} is {:?}, expected {:?}", d, p, d.offs_pos(up), w));
            }
            let mut cl = Cell::empty_at(NodeId::Sin(0), up.0 as u8, up.1 as u8);
            if cl.offs_dir(*d) != w.is_some() || cl.pos() != w.unwrap_or(up) {
                return Err(format!("a cell at {:?} moved {:?} is at {:?}", p, d, cl.pos()));
            }
        }
        // adjacent cells
        for dx in -3..=3i64 {
            for dy in -3..=3i64 {
                let q = (p.0 + dx, p.1 + dy);
                if q.0 < 0 || q.1 < 0 {
                    continue;
                }
                let w = DIRS.iter().find(|d| neighbour(p, **d) == q).copied();
                c.checks += 1;
                if CellDir::are_adjacent(up, (q.0 as usize, q.1 as usize)) != w {
                    return Err(format!("{:?} and {:?} are adjacent: {:?}, expected {:?}", p, q, CellDir::are_adjacent(up, (q.0 as usize, q.1 as usize)), w));
                }
            }
        }
        c.observe(&p);
        Ok(())
    });

    let r = mc.pick(9, 14) as usize;
    mc.space("paths", pow(r as u64, 4), |i, c| {
        let mut d = Dec(i);
        let a = (d.take(r), d.take(r));
        let b = (d.take(r), d.take(r));
        let path = CellDir::path_from_to(a, b);
        c.step();
        c.checks += 1;
        let mut p = (a.0 as i64, a.1 as i64);
        for d in path.iter() {
            p = neighbour(p, *d);
            if p.0 < 0 || p.1 < 0 {
                return Err(format!("the path from {:?} to {:?} leaves the grid: {:?}", a, b, path));
            }
        }
        if p != (b.0 as i64, b.1 as i64) {
            return Err(format!("the path from {:?} to {:?} ends at {:?}: {:?}", a, b, p, path));
        }
        let n = dist((a.0 as i64, a.1 as i64), p);
        if (path.len() as i64) < n || path.len() as i64 > 2 * n {
            return Err(format!("the path from {:?} to {:?} has {} steps, they are {} apart", a, b, path.len(), n));
        }
        c.observe(&(n, path.len()));
        Ok(())
    });

    // a cell with all its edges, and one neighbour with all its edges, everywhere on the grid
    let kinds = mc.pick(3, 4);
    mc.space("two cells", 2 * 9 * 64 * 9 * kinds as u64 * 64, |i, c| {
        let mut d = Dec(i);
        let even = d.flag();
        let p = (d.take(3), d.take(3));
        let e1 = d.take(64);
        let q = (d.take(3), d.take(3));
        let k2 = d.take(kinds as usize);
        let e2 = d.take(64);
        if p == q || (k2 == 0 && e2 != 0) {
            return Ok(());
        }
        // the same grid one column further, so that both parities are in the middle
        let sh = |x: (usize, usize)| (x.0 + !even as usize, x.1);
        let g: Grid = vec![(sh(p), 1, e1), (sh(q), k2, e2)];
        let (w, h) = (3 + !even as i64, 3);
        thread_local! {
            static M: std::cell::RefCell<Vec<Matrix>> = Default::default();
        }
        M.with(|m| {
            let mut m = m.borrow_mut();
            if m.is_empty() {
                for w in 3..5 {
                    m.push(matrix(w));
                }
            }
            let m = &mut m[(w - 3) as usize];
            c.step();
            for x in 0..w as usize {
                for y in 0..h as usize {
                    m.place(x, y, Cell::empty(NodeId::Nop));
                }
            }
            for (p, k, e) in g.iter() {
                m.place(p.0, p.1, cell(*k, *e));
            }
            ask(m, &g, w, h, g[0].0, c).map_err(|e| format!("grid {:?}: {}", g, e))?;
            // outside there is nothing
            if m.get(w as usize, 0).is_some() || m.get(0, h as usize).is_some() || m.get_copy(w as usize, h as usize).is_some() || m.get_connections(w as usize, 0).is_some() {
                return Err("a cell outside of the grid".into());
            }
            Ok(())
        })
    });

    // four cells around a place, edges all or none or those towards each other
    mc.space("surrounded cells", 2 * pow(3, 6) * 64, |i, c| {
        let mut d = Dec(i);
        let even = d.flag();
        let (cx, cy) = (1 + even as usize, 1usize);
        let (w, h) = (4i64, 3i64);
        let mut g: Grid = vec![];
        for dd in DIRS.iter() {
            let k = d.take(3);
            let q = neighbour((cx as i64, cy as i64), *dd);
            if k > 0 && q.0 >= 0 && q.1 >= 0 && q.0 < w && q.1 < h {
                g.push(((q.0 as usize, q.1 as usize), k, if k == 1 { 0b111111 } else { 0 }));
            }
        }
        g.push(((cx, cy), 3, d.take(64)));
        thread_local! {
            static M: std::cell::RefCell<Option<Matrix>> = Default::default();
        }
        M.with(|m| {
            let mut m = m.borrow_mut();
            let m = m.get_or_insert_with(|| matrix(4));
            c.step();
            for x in 0..w as usize {
                for y in 0..h as usize {
                    m.place(x, y, Cell::empty(NodeId::Nop));
                }
            }
            for (p, k, e) in g.iter() {
                m.place(p.0, p.1, cell(*k, *e));
            }
            for x in 0..w as usize {
                for y in 0..h as usize {
                    ask(m, &g, w, h, (x, y), c).map_err(|e| format!("grid {:?}: {}", g, e))?;
                }
            }
            Ok(())
        })
    });

    // editing the edges of one cell
    let depth = mc.pick(3, 4) as u32;
    mc.space("edges of a cell", pow(14, depth), |i, c| {
        let mut d = Dec(i);
        let mut cl = Cell::empty(NodeId::Mix3(2));
        let mut w: [Option<u8>; 6] = [None; 6];
        for k in 0..depth {
            let o = d.take(14);
            c.step();
            if o < 6 {
                cl.set_io_dir(DIRS[o], k as usize + o);
                w[o] = Some(k as u8 + o as u8);
            } else if o < 12 {
                cl.clear_io_dir(DIRS[o - 6]);
                w[o - 6] = None;
            } else if o == 12 {
                cl.clear_io_dir(CellDir::C);
                w = [None; 6];
            } else {
                cl.set_node_id_keep_ios(NodeId::Mix3(k as u8));
                if cl.node_id() != NodeId::Mix3(k as u8) {
                    return Err("the node was not set".into());
                }
            }
            for (j, dd) in DIRS.iter().enumerate() {
                c.checks += 2;
                if cl.local_port_idx(*dd) != w[j] || cl.has_dir_set(*dd) != w[j].is_some() {
                    return Err(format!("{:?} is {:?}, expected {:?}", dd, cl.local_port_idx(*dd), w[j]));
                }
            }
            let r = Cell::from_repr(&cl.to_repr());
            if DIRS.iter().any(|d| r.local_port_idx(*d) != cl.local_port_idx(*d)) || r.node_id() != cl.node_id() || r.pos() != cl.pos() {
                return Err(format!("stored and restored: {:?}", r));
            }
        }
        c.observe(&w);
        Ok(())
    });
}
