use crate::mc::*;
use hexodsp::wblockdsp::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

type Pos = (i64, i64);
type Ports = Vec<Option<String>>;

/// a block as the user sees it
#[derive(Clone, Debug, PartialEq)]
struct B {
    id: u64,
    typ: String,
    lbl: String,
    rows: i64,
    ins: Ports,
    outs: Ports,
    sub: [Option<usize>; 2],
    color: i64,
    expanded: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Area {
    blocks: BTreeMap<Pos, B>,
    size: (i64, i64),
    shrink: bool,
    header: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Board {
    /// the root area and everything nested in it
    areas: BTreeMap<usize, Area>,
}

fn read(f: &BlockFun) -> Result<Board, String> {
    parse(&f.save_snapshot().serialize())
}
fn ports(v: &Value) -> Ports {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
fn parse(v: &Value) -> Result<Board, String> {
    let all = v["areas"].as_array().ok_or("no areas")?;
    let mut b = Board::default();
    let mut work = vec![0usize];
    while let Some(a) = work.pop() {
        let v = all.get(a).ok_or(format!("a block contains area {}, there are {}", a, all.len()))?;
        let mut ar = Area {
            size: (v["size"][0].as_i64().unwrap(), v["size"][1].as_i64().unwrap()),
            shrink: v["auto_shrink"].as_bool().unwrap(),
            header: v["header"].as_str().unwrap().to_string(),
            ..Default::default()
        };
        for q in v["blocks"].as_array().unwrap() {
            let k = &q["block"];
            let sub = [k["contains"][0].as_u64().map(|x| x as usize), k["contains"][1].as_u64().map(|x| x as usize)];
            work.extend(sub.iter().flatten());
            let blk = B {
                id: k["id"].as_u64().unwrap(),
                typ: k["typ"].as_str().unwrap().to_string(),
                lbl: k["lbl"].as_str().unwrap().to_string(),
                rows: k["rows"].as_i64().unwrap(),
                ins: ports(&k["inputs"]),
                outs: ports(&k["outputs"]),
                sub,
                color: k["color"].as_i64().unwrap(),
                expanded: k["expanded"].as_bool().unwrap(),
            };
            if ar.blocks.insert((q["x"].as_i64().unwrap(), q["y"].as_i64().unwrap()), blk).is_some() {
                return Err("two blocks saved at one place".into());
            }
        }
        if b.areas.insert(a, ar).is_some() {
            return Err(format!("area {} is inside of two blocks or of itself", a));
        }
    }
    Ok(b)
}

impl Area {
    fn at(&self, x: i64, y: i64) -> Option<Pos> {
        self.blocks.iter().find(|((bx, by), b)| *bx == x && *by <= y && y < *by + b.rows).map(|(p, _)| *p)
    }
    fn free(&self, x: i64, y: i64, rows: i64) -> bool {
        (0..rows).all(|r| self.at(x, y + r).is_none())
    }
    fn port(v: &Ports, r: i64) -> bool {
        r >= 0 && v.get(r as usize).map(|p| p.is_some()).unwrap_or(false)
    }
    fn linked(&self, l: Pos, r: Pos) -> bool {
        let (a, b) = (&self.blocks[&l], &self.blocks[&r]);
        l.0 + 1 == r.0 && (0..a.rows).any(|k| Self::port(&a.outs, k) && l.1 + k >= r.1 && l.1 + k < r.1 + b.rows && Self::port(&b.ins, l.1 + k - r.1))
    }
    fn chain(&self, p: Pos) -> BTreeSet<Pos> {
        let mut s: BTreeSet<Pos> = [p].into_iter().collect();
        loop {
            let add: Vec<Pos> = self.blocks.keys().filter(|q| !s.contains(q) && s.iter().any(|m| self.linked(*m, **q) || self.linked(**q, *m))).copied().collect();
            if add.is_empty() {
                return s;
            }
            s.extend(add);
        }
    }
}
impl Board {
    fn subs(&self, b: &B) -> Vec<usize> {
        let mut o = vec![];
        let mut w: Vec<usize> = b.sub.iter().flatten().copied().collect();
        while let Some(a) = w.pop() {
            o.push(a);
            for q in self.areas[&a].blocks.values() {
                w.extend(q.sub.iter().flatten());
            }
        }
        o
    }
    fn sizes(&self, a: usize) -> (i64, i64) {
        let ar = &self.areas[&a];
        let (mut w, mut h) = (1, 1);
        for (&(x, y), b) in &ar.blocks {
            if b.rows > 0 {
                w = w.max(x.max(0) + 1);
                h = h.max((y + b.rows - 1).max(0) + 1);
            }
            let (x, y) = (x.max(0), y.max(0));
            let mut below = 1;
            for s in b.sub.iter().flatten() {
                let (sw, sh) = self.sizes(*s);
                w = w.max(x + sw + 1);
                h = h.max(y + below + sh + 1);
                below += sh + below;
            }
        }
        if ar.shrink {
            (w, h)
        } else {
            (w.max(ar.size.0), h.max(ar.size.1))
        }
    }
    fn sane(&self) -> Result<(), String> {
        let mut ids = HashSet::new();
        for (a, ar) in &self.areas {
            for (p, b) in &ar.blocks {
                if !ids.insert(b.id) {
                    return Err(format!("the id {} is used by two blocks", b.id));
                }
                for r in 0..b.rows {
                    if let Some((q, _)) = ar.blocks.iter().find(|(q, o)| *q != p && q.0 == p.0 && q.1 <= p.1 + r && p.1 + r < q.1 + o.rows) {
                        return Err(format!("in area {} the blocks at {:?} and {:?} overlap", a, p, q));
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Op {
    Place(usize, Pos, &'static str),
    Move(usize, Pos, usize, Pos),
    MoveChain(usize, Pos, usize, Pos),
    Clone(usize, Pos, usize, Pos),
    Split(usize, Pos, Option<&'static str>),
    Remove(usize, Pos),
    Shift(usize, Pos, usize, bool),
    Take(usize, Pos, bool),
    Sizes,
    Reload,
}

struct T {
    rows: i64,
    ins: Ports,
    outs: Ports,
    areas: usize,
}
fn ty(t: &str) -> Option<T> {
    let s = |v: &[&str]| v.iter().map(|x| Some(x.to_string())).collect::<Ports>();
    Some(match t {
        "value" | "get" | "zero" => T { rows: 1, ins: vec![], outs: s(&[""]), areas: 0 },
        "->" => T { rows: 1, ins: s(&[""]), outs: s(&[""]), areas: 0 },
        "->2" => T { rows: 2, ins: s(&[""]), outs: s(&["", ""]), areas: 0 },
        "->3" => T { rows: 3, ins: s(&[""]), outs: s(&["", "", ""]), areas: 0 },
        "set" => T { rows: 1, ins: s(&[""]), outs: vec![], areas: 0 },
        "if" => T { rows: 1, ins: s(&[""]), outs: s(&[""]), areas: 2 },
        "+" => T { rows: 2, ins: s(&["", ""]), outs: s(&[""]), areas: 0 },
        "-" => T { rows: 2, ins: s(&["a", "b"]), outs: s(&[""]), areas: 0 },
        _ => return None,
    })
}

fn apply(f: &mut BlockFun, o: &Op) -> Result<(), String> {
    let e = |r: Result<(), BlockDSPError>| r.map_err(|e| format!("{:?}", e));
    match o.clone() {
        Op::Place(a, p, t) => e(f.instanciate_at(a, p.0, p.1, t, if t == "value" { Some("0.5".into()) } else { None })),
        Op::Move(a, p, b, q) => e(f.move_block_from_to(a, p.0, p.1, b, q.0, q.1)),
        Op::MoveChain(a, p, b, q) => e(f.move_block_chain_from_to(a, p.0, p.1, b, q.0, q.1)),
        Op::Clone(a, p, b, q) => e(f.clone_block_from_to(a, p.0, p.1, b, q.0, q.1)),
        Op::Split(a, p, t) => e(f.split_block_chain_after(a, p.0, p.1, t)),
        Op::Remove(a, p) => e(f.remove_at(a, p.0, p.1)),
        Op::Shift(a, p, r, out) => {
            f.shift_port(a, p.0, p.1, r, out);
            Ok(())
        }
        Op::Take(a, p, rm) => f.retrieve_block_chain_at(a, p.0, p.1, rm).map(|_| ()).ok_or("no chain".into()),
        Op::Sizes => {
            f.recalculate_area_sizes();
            Ok(())
        }
        Op::Reload => {
            let s = f.save_snapshot().serialize().to_string();
            let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            let s = BlockFunSnapshot::deserialize(&v).map_err(|e| e.to_string())?;
            f.load_snapshot(&s);
            Ok(())
        }
    }
}

const NEW: u64 = u64::MAX;
const NEWA: usize = usize::MAX;

/// what the operation has to do: None = refuse
fn want(b: &Board, o: &Op) -> Vec<Option<Board>> {
    let mut n = b.clone();
    let drop_to = |y: i64, oy: i64, ty: i64| if y > oy { (ty - (y - oy)).max(0) } else { ty };
    match o.clone() {
        Op::Place(a, p, t) => {
            let Some(ar) = n.areas.get_mut(&a) else { return vec![None] };
            let Some(d) = ty(t) else { return vec![None] };
            if !ar.free(p.0, p.1, d.rows) {
                return vec![None];
            }
            let sub = if d.areas > 0 { [Some(NEWA); 2] } else { [None; 2] };
            let lbl = if t == "value" { "0.5" } else { t };
            ar.blocks.insert(p, B { id: NEW, typ: t.into(), lbl: lbl.into(), rows: d.rows, ins: d.ins, outs: d.outs, sub, color: -1, expanded: true });
            vec![Some(n)]
        }
        Op::Move(a, p, a2, q) | Op::Clone(a, p, a2, q) => {
            let mv = matches!(o, Op::Move(..));
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![None] };
            let mut blk = b.areas[&a].blocks[&or].clone();
            if mv {
                if b.subs(&blk).contains(&a2) {
                    return vec![None];
                }
                n.areas.get_mut(&a).unwrap().blocks.remove(&or);
            } else {
                blk.id = NEW;
                for s in blk.sub.iter_mut().flatten() {
                    *s = NEWA;
                }
            }
            let q = (q.0, drop_to(p.1, or.1, q.1));
            let Some(ar) = n.areas.get_mut(&a2) else { return vec![None] };
            if !ar.free(q.0, q.1, blk.rows) {
                return vec![None];
            }
            ar.blocks.insert(q, blk);
            vec![Some(n)]
        }
        Op::Remove(a, p) => {
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![None] };
            let blk = n.areas.get_mut(&a).unwrap().blocks.remove(&or).unwrap();
            for s in b.subs(&blk) {
                n.areas.remove(&s);
            }
            vec![Some(n)]
        }
        Op::Take(a, p, rm) => {
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![None] };
            if rm {
                for q in b.areas[&a].chain(or) {
                    let blk = n.areas.get_mut(&a).unwrap().blocks.remove(&q).unwrap();
                    for s in b.subs(&blk) {
                        n.areas.remove(&s);
                    }
                }
            }
            vec![Some(n)]
        }
        Op::Shift(a, p, r, out) => {
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![Some(n)] };
            let blk = n.areas.get_mut(&a).unwrap().blocks.get_mut(&or).unwrap();
            if blk.rows > 1 {
                let rows = blk.rows as usize;
                let v = if out { &mut blk.outs } else { &mut blk.ins };
                if v.len() < rows {
                    v.resize(rows, None);
                }
                let e = v.remove(r);
                let to = (r + 1) % (v.len() + 1);
                v.insert(to, e);
            }
            vec![Some(n)]
        }
        Op::Sizes => {
            for a in b.areas.keys() {
                n.areas.get_mut(a).unwrap().size = b.sizes(*a);
            }
            vec![Some(n)]
        }
        Op::Reload => {
            for a in b.areas.keys() {
                n.areas.get_mut(a).unwrap().size = b.sizes(*a);
            }
            vec![Some(n)]
        }
        Op::Split(a, p, t) => {
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![None] };
            let fill = match t {
                Some(t) => match ty(t) {
                    Some(d) => Some((t, d)),
                    None => return vec![None],
                },
                None => None,
            };
            let ar = &b.areas[&a];
            let ch = ar.chain(or);
            let na = n.areas.get_mut(&a).unwrap();
            for q in &ch {
                na.blocks.remove(q);
            }
            let mut put: Vec<(Pos, B)> = ch.iter().map(|q| (if q.0 > p.0 { (q.0 + 1, q.1) } else { *q }, ar.blocks[q].clone())).collect();
            if let Some((t, d)) = fill {
                for q in ch.iter().filter(|q| q.0 == p.0 + 1) {
                    let r = &ar.blocks[q];
                    for row in 0..r.rows {
                        let y = q.1 + row;
                        let src = ch.iter().any(|l| l.0 == p.0 && y >= l.1 && y < l.1 + ar.blocks[l].rows && Area::port(&ar.blocks[l].outs, y - l.1));
                        if Area::port(&r.ins, row) && src && y != p.1 {
                            put.push(((p.0 + 1, y), B { id: NEW, typ: t.into(), lbl: t.into(), rows: d.rows, ins: d.ins.clone(), outs: d.outs.clone(), sub: [None; 2], color: -1, expanded: true }));
                        }
                    }
                }
            }
            for (q, blk) in put {
                if !na.free(q.0, q.1, blk.rows) {
                    return vec![None];
                }
                na.blocks.insert(q, blk);
            }
            vec![Some(n)]
        }
        Op::MoveChain(a, p, a2, q) => {
            let Some(or) = b.areas.get(&a).and_then(|ar| ar.at(p.0, p.1)) else { return vec![None] };
            let ch = b.areas[&a].chain(or);
            let blks: Vec<(Pos, B)> = ch.iter().map(|q| (*q, b.areas[&a].blocks[q].clone())).collect();
            for q in &ch {
                n.areas.get_mut(&a).unwrap().blocks.remove(q);
            }
            if !b.areas.contains_key(&a2) || blks.iter().any(|(_, k)| b.subs(k).contains(&a2)) {
                return vec![None];
            }
            let (mut ox, mut oy) = (q.0 - p.0, q.1 - p.1);
            if a2 != a {
                // never beyond the upper left corner of the other area
                let (mx, my) = (ch.iter().map(|q| q.0).min().unwrap(), ch.iter().map(|q| q.1).min().unwrap());
                ox = (mx + ox).max(0) - mx;
                oy = (my + oy).max(0) - my;
            }
            let place = |dx: i64, dy: i64| {
                let mut m = n.clone();
                let ar = m.areas.get_mut(&a2).unwrap();
                for (q, k) in &blks {
                    if !ar.free(q.0 + dx, q.1 + dy, k.rows) {
                        return None;
                    }
                }
                for (q, k) in &blks {
                    ar.blocks.insert((q.0 + dx, q.1 + dy), k.clone());
                }
                Some(m)
            };
            if let Some(m) = place(ox, oy) {
                return vec![Some(m)];
            }
            // close by, if it does not fit where it was dropped
            let mut v = vec![];
            for x in -1..=1 {
                for y in -3..=3 {
                    if let Some(m) = place(ox + x, oy + y) {
                        v.push(Some(m));
                    }
                }
            }
            if v.is_empty() {
                vec![None]
            } else {
                v
            }
        }
    }
}

/// fills the new ids and areas of `w` in from `got`, where they have to be fresh
fn adopt(w: &Board, got: &Board, old: &Board) -> Result<Board, String> {
    let mut n = w.clone();
    let mut fresh: Vec<usize> = vec![];
    let olds: HashSet<u64> = old.areas.values().flat_map(|a| a.blocks.values().map(|b| b.id)).collect();
    for (a, ar) in n.areas.iter_mut() {
        for (p, b) in ar.blocks.iter_mut() {
            let Some(g) = got.areas.get(a).and_then(|x| x.blocks.get(p)) else { continue };
            if b.id == NEW {
                if olds.contains(&g.id) {
                    return Err(format!("the new block at {:?} has the id {} of an older one", p, g.id));
                }
                b.id = g.id;
            }
            if b.color == -1 {
                b.color = g.color;
            }
            for k in 0..2 {
                if b.sub[k] == Some(NEWA) {
                    match g.sub[k] {
                        Some(s) if !old.areas.contains_key(&s) => {
                            b.sub[k] = Some(s);
                            fresh.push(s);
                        }
                        s => return Err(format!("the new block at {:?} contains area {:?}", p, s)),
                    }
                }
            }
        }
    }
    for s in fresh {
        let g = got.areas.get(&s).cloned().unwrap_or_default();
        n.areas.insert(s, Area { blocks: BTreeMap::new(), size: g.size, shrink: true, header: g.header });
    }
    Ok(n)
}

fn tree(f: &BlockFun) -> Result<String, String> {
    f.generate_tree::<ASTNodeRef>("zero").map(|t| t.walk_dump("", "", 0)).map_err(|e| format!("{:?}", e))
}

/// one transition: the operation on the real program, against what it has to do
fn step(f: &mut BlockFun, o: &Op, c: &mut Case, deep: bool) -> Result<Board, String> {
    let old = read(f)?;
    let gen = f.generation();
    let before = f.save_snapshot();
    let res = guarded(|| apply(f, o)).map_err(|e| format!("{:?}: {}", o, e))?;
    c.step();
    let got = read(f).map_err(|e| format!("after {:?}: {}", o, e))?;
    got.sane().map_err(|e| format!("after {:?}: {}", o, e))?;
    let w = want(&old, o);
    c.checks += 4;
    let mut why = String::new();
    let ok = w.iter().any(|w| match w {
        None => res.is_err() && got == old,
        Some(w) => {
            res.is_ok()
                && match adopt(w, &got, &old) {
                    Ok(w) => w == got,
                    Err(e) => {
                        why = e;
                        false
                    }
                }
        }
    });
    if !ok {
        return Err(format!("{:?} answered {:?} ({}):\n before {}\n after  {}\n wanted {}", o, res, why, show(&old), show(&got), w.iter().map(|w| w.as_ref().map(show).unwrap_or("refusal".into())).collect::<Vec<_>>().join(" or ")));
    }
    if got != old && !matches!(o, Op::Sizes) && f.generation() <= gen {
        return Err(format!("{:?} changed the program, the generation is still {}", o, gen));
    }
    // what is shown at every position
    for (a, ar) in &got.areas {
        for x in -2..7 {
            for y in -4..8 {
                let p = ar.at(x, y);
                if f.origin_at(*a, x, y) != p {
                    return Err(format!("after {:?}: at {} {},{} there is {:?}, should be {:?}", o, a, x, y, f.origin_at(*a, x, y), p));
                }
                let b = ar.blocks.get(&(x, y));
                match (f.block_at(*a, x, y), b) {
                    (None, None) => {}
                    (Some(v), Some(b)) => {
                        let mut buf = [0u8; 64];
                        let n = v.label(&mut buf);
                        let lbl = String::from_utf8_lossy(&buf[..n]).to_string();
                        let io = (0..4).all(|k| v.has_input(k) == Area::port(&b.ins, k as i64) && v.has_output(k) == Area::port(&b.outs, k as i64));
                        if lbl != b.lbl || v.rows() as i64 != b.rows || !io || v.contains(0) != b.sub[0] || v.contains(1) != b.sub[1] {
                            return Err(format!("after {:?}: at {} {},{} another block is shown", o, a, x, y));
                        }
                    }
                    _ => return Err(format!("after {:?}: block_at {} {},{}", o, a, x, y)),
                }
            }
        }
        if f.area_size(*a) != (ar.size.0 as usize, ar.size.1 as usize) {
            return Err(format!("area size {:?}", f.area_size(*a)));
        }
    }
    if deep {
        // saved, read back into an empty program
        c.checks += 2;
        let s: Value = serde_json::from_str(&f.save_snapshot().serialize().to_string()).map_err(|e| e.to_string())?;
        let sn = BlockFunSnapshot::deserialize(&s).map_err(|e| e.to_string())?;
        let mut f2 = BlockFun::new(f.block_language());
        f2.load_snapshot(&sn);
        let mut b2 = read(&f2)?;
        for (a, ar) in b2.areas.iter_mut() {
            ar.size = got.areas.get(a).map(|x| x.size).unwrap_or((0, 0));
        }
        if b2 != got {
            return Err(format!("saved and restored: {} instead of {}", show(&b2), show(&got)));
        }
        if tree(&f2)? != tree(f)? {
            return Err("saved and restored, it means something else".into());
        }
        // a new block in the restored program gets its own id
        if f2.instanciate_at(0, 40, 40, "+", None).is_ok() {
            read(&f2)?.sane().map_err(|e| format!("placing into the restored program: {}", e))?;
        }
        // taken back
        let mut f3 = f.clone();
        f3.load_snapshot(&before);
        let mut b3 = read(&f3)?;
        for (a, ar) in b3.areas.iter_mut() {
            ar.size = old.areas.get(a).map(|x| x.size).unwrap_or((0, 0));
        }
        if b3 != old {
            return Err(format!("taken back: {} instead of {}", show(&b3), show(&old)));
        }
    }
    Ok(got)
}

fn show(b: &Board) -> String {
    let mut s = String::new();
    for (a, ar) in &b.areas {
        s += &format!("[{}: ", a);
        for (p, k) in &ar.blocks {
            s += &format!("{}@{},{}#{}{} ", k.typ, p.0, p.1, k.id as i64, if k.sub[0].is_some() { format!("{:?}", k.sub) } else { "".into() });
        }
        s += "]";
    }
    s
}

/// independent of ids
fn key(b: &Board) -> u64 {
    let mut s = vec![];
    let mut w = vec![(0usize, 0u32)];
    while let Some((a, d)) = w.pop() {
        let ar = &b.areas[&a];
        s.push(format!("{} {:?} {}", d, ar.size, ar.shrink));
        for (p, k) in &ar.blocks {
            s.push(format!("{:?} {} {:?} {:?}", p, k.typ, k.ins, k.outs));
            for q in k.sub.iter().flatten() {
                w.push((*q, d + 1));
            }
        }
    }
    hash_of(&s)
}

thread_local! {
    static LANG: Rc<RefCell<BlockLanguage>> = setup_hxdsp_block_language(synfx_dsp_jit::get_standard_library());
}
pub fn fun() -> BlockFun {
    BlockFun::new(LANG.with(|l| l.clone()))
}

fn ops(b: &Board, xs: i64, ys: i64, types: &[&'static str], rich: bool) -> Vec<Op> {
    let mut o = vec![];
    let areas: Vec<usize> = b.areas.keys().copied().chain(std::iter::once(999)).collect();
    let cells = |a: usize| -> Vec<Pos> {
        if a == 0 {
            (0..xs).flat_map(|x| (0..ys).map(move |y| (x, y))).collect()
        } else {
            vec![(0, 0), (1, 1)]
        }
    };
    for &a in &areas {
        for p in cells(a) {
            for t in types {
                o.push(Op::Place(a, p, t));
            }
        }
    }
    o.push(Op::Place(0, (0, -1), "+"));
    o.push(Op::Place(0, (0, 0), "nosuch"));
    for (&a, ar) in &b.areas {
        let mut grab: Vec<Pos> = vec![];
        for (p, k) in &ar.blocks {
            for r in 0..k.rows {
                grab.push((p.0, p.1 + r));
            }
            for r in 0..k.rows {
                for out in [false, true] {
                    o.push(Op::Shift(a, (p.0, p.1 + (r % k.rows)), r as usize, out));
                }
            }
        }
        if a == 0 {
            grab.push((xs, ys));
        }
        for g in grab {
            for &a2 in &areas {
                for q in cells(a2) {
                    o.push(Op::Move(a, g, a2, q));
                    o.push(Op::MoveChain(a, g, a2, q));
                    if rich || q.0 == 0 {
                        o.push(Op::Clone(a, g, a2, q));
                    }
                }
            }
            if a == 0 {
                for q in [(g.0, -1), (-1, g.1)] {
                    o.push(Op::Move(a, g, 0, q));
                    o.push(Op::MoveChain(a, g, 0, q));
                }
            }
            for t in [None, Some("->"), Some("value"), Some("nosuch")] {
                o.push(Op::Split(a, g, t));
            }
            o.push(Op::Remove(a, g));
            o.push(Op::Take(a, g, true));
            o.push(Op::Take(a, g, false));
        }
    }
    o.push(Op::Remove(999, (0, 0)));
    o.push(Op::Move(999, (0, 0), 0, (0, 0)));
    o.push(Op::MoveChain(999, (0, 0), 0, (0, 0)));
    o.push(Op::Clone(999, (0, 0), 0, (0, 0)));
    o.push(Op::Split(999, (0, 0), None));
    o.push(Op::Take(999, (0, 0), true));
    o.push(Op::Shift(999, (0, 0), 0, true));
    o.push(Op::Sizes);
    o.push(Op::Reload);
    o
}

type Start = Vec<(usize, Pos, &'static str)>;

/// programs to start from; area k is written as the k-th area created
fn starts() -> Vec<Start> {
    vec![
        vec![],
        vec![(0, (0, 0), "value"), (0, (0, 1), "value"), (0, (1, 0), "+"), (0, (2, 0), "set")],
        vec![(0, (0, 0), "get"), (0, (1, 0), "->2"), (0, (2, 0), "-"), (0, (0, 2), "value"), (0, (1, 2), "set")],
        vec![(0, (0, 0), "value"), (0, (1, 0), "if"), (1, (0, 0), "value"), (2, (0, 0), "value"), (2, (1, 0), "->")],
        vec![(0, (0, 0), "if"), (1, (0, 0), "if"), (3, (0, 0), "->3"), (3, (1, 1), "if"), (0, (1, 0), "->")],
        vec![(0, (0, 0), "->3"), (0, (1, 0), "->3"), (0, (1, 3), "value"), (0, (2, 0), "+"), (0, (2, 2), "->2")],
    ]
}
fn build(s: &Start) -> Result<BlockFun, String> {
    let mut f = fun();
    for (a, p, t) in s {
        apply(&mut f, &Op::Place(*a, *p, t))?;
    }
    Ok(f)
}

fn explore(f: &BlockFun, depth: usize, dims: (i64, i64), types: &[&'static str], seen: &mut HashSet<u64>, c: &mut Case) -> Result<(), String> {
    let b = read(f)?;
    for o in ops(&b, dims.0, dims.1, types, depth > 1) {
        // an editor of its own (the id counter is shared by clones, as in the program itself)
        let mut g = f.clone();
        let n = match step(&mut g, &o, c, depth > 1) {
            Ok(n) => n,
            Err(e) => return Err(e),
        };
        let k = key(&n);
        if seen.insert(k) {
            c.observe(&k);
            if depth > 1 {
                c.log(|| format!("{:?}", o));
                explore(&g, depth - 1, dims, types, seen, c).map_err(|e| format!("{:?} then {}", o, e))?;
            }
        }
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "every operation with every argument of the board, in every program reachable from the start programs within the depth; programs that differ only in ids are explored once per first operation".into();
    let st = starts();
    let types: &[&'static str] = &["value", "+", "->", "if", "->2"];
    // two steps of everything
    for (k, s) in st.iter().enumerate() {
        let b = build(s).and_then(|f| read(&f));
        let first = match &b {
            Ok(b) => ops(b, 3, 4, types, true),
            Err(_) => vec![Op::Sizes],
        };
        let depth = mc.pick(1usize, 2);
        mc.space(&format!("program {} edited", k), first.len() as u64, |i, c| {
            let f = build(s)?;
            let o = &ops(&read(&f)?, 3, 4, types, true)[i as usize];
            c.log(|| format!("{:?}", o));
            let mut g = f.clone();
            let n = step(&mut g, o, c, true)?;
            let mut seen = HashSet::new();
            seen.insert(key(&read(&f)?));
            if seen.insert(key(&n)) {
                c.observe(&key(&n));
                explore(&g, depth, (3, 4), types, &mut seen, c).map_err(|e| format!("{:?} then {}", o, e))?;
            }
            Ok(())
        });
    }
    // longer histories on a small board
    let small: &[&'static str] = &["value", "+", "if"];
    let first = ops(&read(&fun()).unwrap(), 2, 3, small, true);
    let depth = mc.pick(3usize, 4);
    mc.space("longer histories", first.len() as u64, |i, c| {
        let f = fun();
        let o = &ops(&read(&f)?, 2, 3, small, true)[i as usize];
        let mut g = f.clone();
        let n = step(&mut g, o, c, true)?;
        let mut seen = HashSet::new();
        if n != read(&f)? {
            seen.insert(key(&n));
            explore(&g, depth, (2, 3), small, &mut seen, c).map_err(|e| format!("{:?} then {}", o, e))?;
        }
        Ok(())
    });
}
