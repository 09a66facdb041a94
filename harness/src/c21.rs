use crate::mc::*;
use hexodsp::*;

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

/// doubled/cube coordinates of the drawn hexagons: flat-top columns, odd columns half a cell lower
fn center(p: (i64, i64)) -> (i64, i64) {
    (2 * p.0, 2 * p.1 + (p.0 & 1))
}
/// where the neighbour in a direction is drawn
fn geo(d: CellDir) -> (i64, i64) {
    match d {
        CellDir::T => (0, -2),
        CellDir::B => (0, 2),
        CellDir::TR => (2, -1),
        CellDir::BR => (2, 1),
        CellDir::TL => (-2, -1),
        CellDir::BL => (-2, 1),
        CellDir::C => (0, 0),
    }
}
fn step(p: (usize, usize), d: CellDir) -> Option<(usize, usize)> {
    let c = center((p.0 as i64, p.1 as i64));
    let g = geo(d);
    let t = (c.0 + g.0, c.1 + g.1);
    let x = t.0 / 2;
    if t.0 < 0 {
        return None;
    }
    let y2 = t.1 - (x & 1);
    if y2 < 0 {
        return None;
    }
    Some((x as usize, (y2 / 2) as usize))
}
fn opposite(d: CellDir) -> CellDir {
    *DIRS.iter().find(|o| geo(**o) == (-geo(d).0, -geo(d).1)).unwrap()
}
fn is_out(d: CellDir) -> bool {
    matches!(d, CellDir::TR | CellDir::BR | CellDir::B)
}
fn port_of(c: &Cell, d: CellDir) -> Option<u8> {
    c.local_port_idx(d)
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every position, direction and pair of positions of a bounded grid, and every occupation/port pattern around a cell, on the real functions; the oracle is the geometry of the drawn hexagons.".into();
    let n = mc.pick(24u64, 40u64);

    mc.space("steps", n * n * 7, |idx, c| {
        let mut d = Dec(idx);
        let p = (d.take(n as usize), d.take(n as usize));
        let di = d.take(7);
        c.step();
        c.checks += 1;
        if di == 6 {
            if CellDir::C.offs_pos(p) != Some(p) {
                return Err("the center direction moves".into());
            }
            return Ok(());
        }
        let dir = DIRS[di];
        c.log(|| format!("{:?} step {:?}", p, dir));
        let want = step(p, dir);
        let got = dir.offs_pos(p);
        if got != want {
            return Err(format!("neighbour of {:?} towards {:?} is {:?}, drawn is {:?}", p, dir, got, want));
        }
        if dir.flip() != opposite(dir) {
            return Err(format!("opposite of {:?} is {:?}", dir, dir.flip()));
        }
        if dir.is_output() != is_out(dir) || dir.is_input() == is_out(dir) {
            return Err(format!("{:?} side wrong", dir));
        }
        if CellDir::from(dir.as_edge()) != dir || dir.as_edge() as usize != di {
            return Err(format!("{:?} edge number wrong", dir));
        }
        if let Some(q) = got {
            if dir.flip().offs_pos(q) != Some(p) {
                return Err(format!("stepping {:?} from {:?} and back does not return", dir, p));
            }
            let mut cell = Cell::empty_at(NodeId::Sin(0), p.0 as u8, p.1 as u8);
            if !cell.offs_dir(dir) || cell.pos() != q {
                return Err(format!("offs_dir {:?} from {:?} gives {:?}", dir, p, cell.pos()));
            }
        } else {
            let mut cell = Cell::empty_at(NodeId::Sin(0), p.0 as u8, p.1 as u8);
            if cell.offs_dir(dir) || cell.pos() != p {
                return Err(format!("offs_dir {:?} moves {:?} out of the grid", dir, p));
            }
        }
        c.observe(&(p.0 % 2, di, want.is_some(), p));
        Ok(())
    });

    mc.space("pairs", n * n * n * n, |idx, c| {
        let mut d = Dec(idx);
        let n = n as usize;
        let (a, b) = ((d.take(n), d.take(n)), (d.take(n), d.take(n)));
        c.step();
        c.checks += 1;
        c.log(|| format!("{:?} {:?}", a, b));
        let want = DIRS.iter().copied().find(|d| step(a, *d) == Some(b));
        let got = CellDir::are_adjacent(a, b);
        if got != want {
            return Err(format!("adjacency of {:?} and {:?} is {:?}, drawn is {:?}", a, b, got, want));
        }
        let path = CellDir::path_from_to(a, b);
        let mut p = a;
        for s in path.iter() {
            p = match step(p, *s) {
                Some(q) => q,
                None => return Err(format!("path from {:?} to {:?} leaves the grid: {:?}", a, b, path)),
            };
            if p.0 > a.0.max(b.0) + 1 || p.1 > a.1.max(b.1) + 1 || p.0 >= n || p.1 >= n {
                return Err(format!("path from {:?} to {:?} leaves the grid: {:?}", a, b, path));
            }
        }
        if p != b {
            return Err(format!("path from {:?} to {:?} ends at {:?}: {:?}", a, b, p, path));
        }
        if path.len() > 2 * ((a.0 as i64 - b.0 as i64).unsigned_abs() + (a.1 as i64 - b.1 as i64).unsigned_abs()) as usize + 1 {
            return Err(format!("path from {:?} to {:?} wanders: {:?}", a, b, path));
        }
        if let Some(w) = want {
            if path != vec![w] {
                return Err(format!("path between neighbours {:?} {:?} is {:?}", a, b, path));
            }
        }
        c.observe(&(want.is_some(), path.len()));
        Ok(())
    });

    // every occupation of the neighbourhood and every port pattern: queries around a cell
    mc.space("free-neighbours", 9 * 64 * 64, |idx, c| {
        let mut d = Dec(idx);
        let p = (d.take(3), d.take(3));
        let occ = d.take(64);
        let ports = d.take(64);
        let (nc, _x) = crate::engcache();
        let mut m = Matrix::new(nc, 3, 3);
        let mut cell = Cell::empty(NodeId::Mix3(0));
        for (i, dir) in DIRS.iter().enumerate() {
            if ports & (1 << i) != 0 {
                cell.set_io_dir(*dir, i % 3);
            }
        }
        m.place(p.0, p.1, cell);
        for (i, dir) in DIRS.iter().enumerate() {
            if occ & (1 << i) != 0 {
                if let Some(q) = step(p, *dir) {
                    // the facing edge carries a port only for every other neighbour
                    let mut o = Cell::empty(NodeId::Mix3(1 + i as u8));
                    if i % 2 == 0 {
                        o.set_io_dir(opposite(*dir), 1);
                    }
                    m.place(q.0, q.1, o);
                }
            }
        }
        c.step();
        c.log(|| format!("cell at {:?}, occupied {:06b}, ports {:06b}", p, occ, ports));
        let cell = m.get_copy(p.0, p.1).unwrap();
        let inside = |q: (usize, usize)| q.0 < 3 && q.1 < 3;
        for (qi, q) in [CellDir::T, CellDir::B, CellDir::C].iter().enumerate() {
            let sel = |d: CellDir| qi == 2 || is_out(d) == (qi == 1);
            let mut want: Vec<(u8, (usize, usize))> = DIRS
                .iter()
                .enumerate()
                .filter(|(i, d)| sel(**d) && occ & (1 << i) == 0 && step(p, **d).map(inside).unwrap_or(false))
                .map(|(_, d)| (d.as_edge(), step(p, *d).unwrap()))
                .collect();
            want.sort();
            let mut got: Vec<(u8, (usize, usize))> = cell.find_all_adjacent_free(&m, *q).iter().map(|(d, p)| (d.as_edge(), *p)).collect();
            got.sort();
            c.checks += 3;
            if got != want {
                return Err(format!("free neighbours {:?}: {:?}, drawn {:?}", q, got, want));
            }
            let first = cell.find_first_adjacent_free(&m, *q);
            match first {
                None if !want.is_empty() => return Err("no free neighbour found although there is one".into()),
                Some((d, port)) => {
                    if !want.iter().any(|w| w.0 == d.as_edge()) {
                        return Err(format!("{:?} reported free", d));
                    }
                    let with_port = want.iter().any(|w| port_of(&cell, CellDir::from(w.0)).is_some());
                    if with_port != port.is_some() || port != port_of(&cell, d) {
                        return Err(format!("free neighbour with an assigned port not preferred: {:?}", (d, port)));
                    }
                }
                _ => {}
            }
            let mut un: Vec<u8> = cell.find_unconnected_ports(&m, *q).iter().map(|d| d.as_edge()).collect();
            un.sort();
            let mut wun: Vec<u8> = DIRS
                .iter()
                .enumerate()
                .filter(|(i, d)| {
                    let conn = ports & (1 << i) != 0 && occ & (1 << i) != 0 && i % 2 == 0 && step(p, **d).map(inside).unwrap_or(false);
                    sel(**d) && !conn
                })
                .map(|(_, d)| d.as_edge())
                .collect();
            wun.sort();
            if un != wun {
                return Err(format!("unconnected ports {:?}: {:?}, drawn {:?}", q, un, wun));
            }
        }
        for (i, dir) in DIRS.iter().enumerate() {
            let q = step(p, *dir).filter(|q| inside(*q));
            let conn = q.filter(|_| ports & (1 << i) != 0 && occ & (1 << i) != 0 && i % 2 == 0);
            c.checks += 2;
            if cell.is_port_dir_connected(&m, *dir) != conn {
                return Err(format!("{:?} connected: {:?}, drawn {:?}", dir, cell.is_port_dir_connected(&m, *dir), conn));
            }
            let adj = m.get_adjacent(p.0, p.1, *dir).map(|c| c.node_id());
            let wadj = q.map(|_| if occ & (1 << i) != 0 { NodeId::Mix3(1 + i as u8) } else { NodeId::Nop });
            if adj != wadj {
                return Err(format!("neighbour towards {:?} is {:?}, drawn {:?}", dir, adj, wadj));
            }
            let wout = q.filter(|_| !is_out(*dir) && occ & (1 << i) != 0 && i % 2 == 0).map(|_| (NodeId::Mix3(1 + i as u8), 1u8));
            if m.get_adjacent_output(p.0, p.1, *dir) != wout {
                return Err(format!("adjacent output towards {:?}: {:?}, drawn {:?}", dir, m.get_adjacent_output(p.0, p.1, *dir), wout));
            }
            let win = q.is_some() && is_out(*dir) && occ & (1 << i) != 0 && i % 2 == 0;
            if m.adjacent_edge_has_input(p.0, p.1, *dir) != win {
                return Err(format!("adjacent input towards {:?}: {}, drawn {}", dir, !win, win));
            }
        }
        let mut conns: Vec<(u8, (usize, usize), u8, u8)> = m.get_connections(p.0, p.1).unwrap().iter().map(|(a, b)| (a.1.as_edge(), b.3, a.2, b.2)).collect();
        conns.sort();
        let wc: Vec<(u8, (usize, usize), u8, u8)> = DIRS
            .iter()
            .enumerate()
            .filter(|(i, d)| ports & (1 << i) != 0 && occ & (1 << i) != 0 && i % 2 == 0 && step(p, **d).map(inside).unwrap_or(false))
            .map(|(i, d)| (d.as_edge(), step(p, *d).unwrap(), (i % 3) as u8, 1u8))
            .collect();
        if conns != wc {
            return Err(format!("connections {:?}, drawn {:?}", conns, wc));
        }
        c.observe(&(p, occ, ports));
        Ok(())
    });

    // cell port accessors: setting, clearing and reading ports by direction touches that edge only
    mc.space("cell-ports", 64 * 7 * 7, |idx, c| {
        let mut d = Dec(idx);
        let init = d.take(64);
        let a = d.take(7);
        let b = d.take(7);
        let mut cell = Cell::empty(NodeId::Mix3(0));
        let mut want: [Option<u8>; 6] = [None; 6];
        for (i, dir) in DIRS.iter().enumerate() {
            if init & (1 << i) != 0 {
                cell.set_io_dir(*dir, i % 3);
                want[i] = Some((i % 3) as u8);
            }
        }
        c.log(|| format!("ports {:06b}, clear {}, set {}", init, a, b));
        cell.clear_io_dir(CellDir::from(a as u8));
        if a == 6 {
            want = [None; 6];
        } else {
            want[a] = None;
        }
        cell.set_io_dir(CellDir::from(b as u8), 2);
        if b < 6 {
            want[b] = Some(2);
        }
        for (i, dir) in DIRS.iter().enumerate() {
            c.checks += 1;
            if cell.local_port_idx(*dir) != want[i] || cell.has_dir_set(*dir) != want[i].is_some() {
                return Err(format!("port {:?} is {:?}, expected {:?}", dir, cell.local_port_idx(*dir), want[i]));
            }
        }
        c.step();
        c.observe(&(init, a, b));
        Ok(())
    });
}
