use crate::c01::grid;
use crate::layout::*;
use crate::mc::*;
use hexodsp::matrix::MatrixError;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;

fn cells_of(m: &Matrix) -> Vec<Cell> {
    let (w, h) = m.size();
    let mut v = vec![];
    for x in 0..w {
        for y in 0..h {
            v.push(m.get_copy(x, y).unwrap());
        }
    }
    v
}

/// the saved patch, in a canonical order (the parameter order of a saved patch is unspecified)
pub fn canon_repr(m: &Matrix) -> String {
    let mut r = m.to_repr();
    canon(&mut r)
}
pub fn canon(r: &mut MatrixRepr) -> String {
    let v: serde_json::Value = serde_json::from_str(&r.serialize()).unwrap();
    let mut o = serde_json::Map::new();
    for (k, v) in v.as_object().unwrap() {
        let mut v = v.clone();
        if k != "patterns" && k != "block_funs" {
            if let serde_json::Value::Array(a) = &mut v {
                a.sort_by_key(|x| x.to_string());
            }
        }
        if k == "block_funs" {
            if let serde_json::Value::Array(a) = &mut v {
                for f in a.iter_mut() {
                    if let Some(serde_json::Value::Array(ar)) = f.get_mut("areas") {
                        for area in ar.iter_mut() {
                            if let Some(serde_json::Value::Array(b)) = area.get_mut("blocks") {
                                b.sort_by_key(|x| x.to_string());
                            }
                        }
                    }
                }
            }
        }
        o.insert(k.clone(), v);
    }
    serde_json::Value::Object(o).to_string()
}

fn params_of(m: &Matrix, nr: usize) -> Vec<String> {
    let mut ns: Vec<N> = (0..nr).map(|k| N::R(k as u8)).collect();
    ns.extend([N::Inp, N::Out, N::Ext]);
    let mut v = vec![];
    for n in ns {
        for i in 0..n.nin() {
            v.push(format!("{:?} {:?} {:?}", n.pid(i), m.get_param(&n.pid(i)), m.get_param_modamt(&n.pid(i))));
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Change,
    ChangeErr,
    SaveCheckRestore,
    PlaceMultiple,
    ClosureFails,
}
const VIAS: [Via; 5] = [Via::Change, Via::ChangeErr, Via::SaveCheckRestore, Via::PlaceMultiple, Via::ClosureFails];

/// proposes `l` as the new layout; Ok(true) when accepted
fn propose(m: &mut Matrix, l: &Layout, via: Via) -> Result<bool, String> {
    Ok(match via {
        Via::Change => m.change_matrix(|m| l.place(m)).is_ok(),
        Via::ChangeErr => m
            .change_matrix_err(|m| {
                l.place(m);
                Ok(())
            })
            .is_ok(),
        Via::SaveCheckRestore => {
            m.save_matrix();
            l.place(m);
            if m.check().is_err() {
                m.restore_matrix();
                false
            } else {
                true
            }
        }
        Via::PlaceMultiple => m
            .change_matrix_err(|m| {
                // empty all cells, then place the cluster at once
                for x in 0..l.w {
                    for y in 0..l.h {
                        m.place(x, y, Cell::empty(NodeId::Nop));
                    }
                }
                let mut cells = vec![];
                for x in 0..l.w {
                    for y in 0..l.h {
                        if let Some(c) = l.c[x * l.h + y] {
                            let mut c = l.cell(&Some(c));
                            c = c.with_pos_of(Cell::empty_at(NodeId::Nop, x as u8, y as u8));
                            cells.push(c);
                        }
                    }
                }
                m.place_multiple(&cells)
            })
            .is_ok(),
        Via::ClosureFails => {
            let r = m.change_matrix_err(|m| {
                l.place(m);
                Err(MatrixError::PosOutOfRange)
            });
            if r.is_ok() {
                return Err("an edit whose closure failed was accepted".into());
            }
            false
        }
    })
}

fn base(k: usize, w: usize, h: usize) -> Layout {
    let mut l = Layout::new(w, h);
    match k {
        0 => {
            l.set(0, 0, lc(N::Inp, [-1; 3], [0, 1, 0]));
            l.set(0, 1, lc(N::R(0), [0, -1, -1], [0, 0, 0]));
            l.set(1, 0, lc(N::Out, [-1, 0, 1], [-1; 3]));
        }
        1 => {
            l.set(0, 0, lc(N::R(0), [-1; 3], [-1, -1, 0]));
            l.set(0, 1, lc(N::R(1), [4, -1, -1], [0, -1, -1]));
            l.set(1, 0, lc(N::R(2), [-1, -1, 1], [-1, -1, 0]));
            l.set(1, 1, lc(N::Out, [1, -1, -1], [-1; 3]));
        }
        _ => {}
    }
    l
}

pub fn run(mc: &mut Mc) {
    mc.rule = "A state is (running layout, proposed layout, way of proposing it); every state is executed on the real matrix and engine and judged by an independent duplicate/cycle checker.".into();
    let al = alphabet();

    // refused exactly when faulty, by every entry point; sync refuses exactly the cyclic ones
    let verdict = |l: &Layout, c: &mut Case| -> Result<(), String> {
        c.log(|| l.text());
        let valid = l.valid();
        for via in [Via::Change, Via::ChangeErr, Via::SaveCheckRestore, Via::PlaceMultiple] {
            let (nc, _ne) = hexodsp::new_node_engine();
            let mut m = Matrix::new(nc, l.w, l.h);
            c.step();
            c.checks += 1;
            let acc = propose(&mut m, l, via)?;
            if acc != valid {
                return Err(format!("{:?}: layout {} although it is {}", via, if acc { "accepted" } else { "refused" }, if valid { "faultless" } else { "faulty" }));
            }
            let want: Vec<Cell> = if valid {
                (0..l.w * l.h).map(|i| l.cell(&l.c[i]).with_pos_of(Cell::empty_at(NodeId::Nop, (i / l.h) as u8, (i % l.h) as u8))).collect()
            } else {
                (0..l.w * l.h).map(|i| Cell::empty_at(NodeId::Nop, (i / l.h) as u8, (i % l.h) as u8)).collect()
            };
            if via == Via::PlaceMultiple {
                // also without the transaction around it: the verdict is the same
                let mut cells = vec![];
                for i in 0..l.w * l.h {
                    if l.c[i].is_some() {
                        cells.push(l.cell(&l.c[i]).with_pos_of(Cell::empty_at(NodeId::Nop, (i / l.h) as u8, (i % l.h) as u8)));
                    }
                }
                let (nc, _ne) = hexodsp::new_node_engine();
                let mut m = Matrix::new(nc, l.w, l.h);
                if m.place_multiple(&cells).is_ok() != valid {
                    return Err(format!("place_multiple: layout {} although it is {}", if valid { "refused" } else { "accepted" }, if valid { "faultless" } else { "faulty" }));
                }
            }
            if cells_of(&m) != want {
                return Err(format!("{:?}: wrong cells after the {} edit", via, if acc { "accepted" } else { "refused" }));
            }
        }
        let (nc, mut ne) = hexodsp::new_node_engine();
        ne.no_logging();
        let mut m = Matrix::new(nc, l.w, l.h);
        l.place(&mut m);
        let cyc = l.order().is_none();
        c.checks += 2;
        c.step();
        match m.check() {
            Ok(()) if !valid => return Err("check() accepts a faulty layout".into()),
            Err(_) if valid => return Err("check() refuses a faultless layout".into()),
            Err(MatrixError::CycleDetected) if !cyc => return Err("check() reports a cycle where there is none".into()),
            Err(MatrixError::DuplicatedInput { output1, output2 }) => {
                let links = l.links();
                let ok = links.iter().any(|a| {
                    (a.2.id(), a.3) == output1 && links.iter().any(|b| (b.2.id(), b.3) == output2 && a.4 == b.4 && a.5 == b.5)
                });
                if !ok {
                    return Err(format!("reported doubly driven input does not exist: {:?} {:?}", output1, output2));
                }
            }
            Err(MatrixError::CycleDetected) | Ok(()) => {}
            Err(e) => return Err(format!("check() reports {:?}", e)),
        }
        if m.sync().is_err() != cyc {
            return Err(format!("sync() {} a {} layout", if cyc { "accepts" } else { "refuses" }, if cyc { "cyclic" } else { "cycle free" }));
        }
        c.observe(&(l.has_duplicate(), cyc, l.links().len()));
        c.observe(l);
        Ok(())
    };
    mc.space("verdict-2x2", pow(10, 4), |idx, c| verdict(&grid(2, 2, &al, idx), c));
    let n = mc.pick(5, 7);
    mc.space("verdict-2x3", pow(n as u64, 6), |idx, c| verdict(&grid(2, 3, &al[..n], idx), c));
    let n = mc.pick(4, 6);
    mc.space("verdict-3x2", pow(n as u64, 6), |idx, c| verdict(&grid(3, 2, &al[1..1 + n], idx), c));
    // cycles over several pairs drawn apart: pairs (a -> b) of four nodes, every assignment to three/four columns
    let k = mc.pick(3u32, 4u32);
    mc.space("pairs-apart", pow(16, k), |idx, c| {
        let mut d = Dec(idx);
        let mut l = Layout::new(2 * k as usize, 2);
        for j in 0..k as usize {
            let (a, b) = (d.take(4) as u8, d.take(4) as u8);
            l.set(2 * j, 0, lc(N::R(a), [-1; 3], [-1, -1, 0]));
            l.set(2 * j, 1, lc(N::R(b), [j as i8, -1, -1], [-1; 3]));
        }
        verdict(&l, c)
    });

    // a refused edit over a running layout has no effect; a later valid edit works
    let n = mc.pick(6usize, 9usize);
    let nvia = VIAS.len() as u64;
    mc.space("refused-edits", pow(n as u64, 4) * 2 * nvia, |idx, c| {
        let mut d = Dec(idx);
        let via = VIAS[d.take(VIAS.len())];
        let b = base(d.take(2), 2, 2);
        let l = grid(2, 2, &al[..n], d.0);
        let mut r = rig(2, 2, 3);
        b.place(&mut r.e.m);
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        r.compare(&b, &[4])?;
        let mut p0 = params_of(&r.e.m, 3);
        let c0 = cells_of(&r.e.m);
        let g0 = r.e.m.get_generation();
        c.log(|| format!("running {}; propose via {:?}: {}", b.text(), via, l.text()));
        c.step();
        let acc = propose(&mut r.e.m, &l, via)?;
        let want = l.valid() && via != Via::ClosureFails;
        if acc != want {
            return Err(format!("{:?}: accepted={} expected={}", via, acc, want));
        }
        c.checks += 1;
        if !acc {
            if cells_of(&r.e.m) != c0 {
                return Err("a refused edit changed cells".into());
            }
            if params_of(&r.e.m, 3) != p0 {
                return Err("a refused edit changed parameter values".into());
            }
            if r.e.m.get_generation() != g0 {
                return Err("a refused edit counts as a change".into());
            }
            c.checks += r.compare_links(&b)?;
            c.checks += r.compare(&b, &[3, 2]).map_err(|e| format!("after the refused edit: {}", e))?;
            r.e.m.sync().map_err(|e| format!("sync after the refused edit: {:?}", e))?;
            c.checks += r.compare(&b, &[3]).map_err(|e| format!("after refused edit and sync: {}", e))?;
        } else {
            r.e.m.sync().map_err(|e| format!("{:?}", e))?;
            c.checks += r.compare_links(&l)?;
            c.checks += r.compare(&l, &[3, 2]).map_err(|e| format!("after the accepted edit: {}", e))?;
            p0 = params_of(&r.e.m, 3);
        }
        // a further valid edit
        let mut f = Layout::new(2, 2);
        f.set(1, 0, lc(N::R(1), [-1; 3], [-1, -1, 0]));
        f.set(1, 1, lc(N::Out, [0, -1, -1], [-1; 3]));
        r.e.m.change_matrix(|m| f.place(m)).map_err(|e| format!("later valid edit refused: {:?}", e))?;
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        c.checks += r.compare_links(&f)?;
        c.checks += r.compare(&f, &[3]).map_err(|e| format!("after the later edit: {}", e))?;
        if params_of(&r.e.m, 3) != p0 {
            return Err("parameter values changed by layout edits".into());
        }
        c.observe(&(b, l, acc));
        Ok(())
    });
    // the saved patch is the same after a refused edit (all faulty layouts of a smaller alphabet)
    mc.space("refused-saved-patch", pow(4, 4) * 2, |idx, c| {
        let mut d = Dec(idx);
        let b = base(d.take(2), 2, 2);
        let l = grid(2, 2, &al[..4], d.0);
        if l.valid() {
            c.observe(&0u8);
            return Ok(());
        }
        let mut r = rig(2, 2, 3);
        b.place(&mut r.e.m);
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        let s0 = canon_repr(&r.e.m);
        c.log(|| format!("running {}; propose {}", b.text(), l.text()));
        for via in [Via::Change, Via::SaveCheckRestore, Via::PlaceMultiple] {
            c.step();
            c.checks += 1;
            if propose(&mut r.e.m, &l, via)? {
                return Err("faulty layout accepted".into());
            }
            if canon_repr(&r.e.m) != s0 {
                return Err(format!("{:?}: the refused edit changed the saved patch", via));
            }
        }
        c.observe(&l);
        Ok(())
    });
    // a cyclic layout placed without a transaction: sync refuses and the old sound goes on
    mc.space("refused-sync", pow(n as u64, 4) * 2, |idx, c| {
        let mut d = Dec(idx);
        let b = base(d.take(2), 2, 2);
        let l = grid(2, 2, &al[..n], d.0);
        if l.order().is_some() {
            c.observe(&0u8);
            return Ok(());
        }
        let mut r = rig(2, 2, 3);
        b.place(&mut r.e.m);
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        r.compare(&b, &[4])?;
        l.place(&mut r.e.m);
        c.step();
        c.log(|| format!("running {}; place and sync: {}", b.text(), l.text()));
        if r.e.m.sync().is_ok() {
            return Err("sync() accepts a cyclic layout".into());
        }
        c.checks += r.compare(&b, &[3, 2]).map_err(|e| format!("after the refused sync: {}", e))?;
        b.place(&mut r.e.m);
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        c.checks += r.compare(&b, &[3]).map_err(|e| format!("after going back: {}", e))?;
        c.observe(&l);
        Ok(())
    });
    // place_multiple: occupied cells and positions outside
    mc.space("place-multiple-faults", 5 * 5 * 5 * 5 * 3, |idx, c| {
        let mut d = Dec(idx);
        let p: Vec<(usize, usize)> = (0..2).map(|_| (d.take(5), d.take(5))).collect();
        let b = base(d.take(3), 3, 3);
        let mut r = rig(3, 3, 3);
        b.place(&mut r.e.m);
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        let c0 = cells_of(&r.e.m);
        let cells: Vec<Cell> = p.iter().enumerate().map(|(i, p)| Cell::empty_at(NodeId::Rust1x1(7 + i as u8), p.0 as u8, p.1 as u8)).collect();
        let ok = p.iter().all(|p| p.0 < 3 && p.1 < 3 && b.at(p.0 as i64, p.1 as i64).is_none()) && p[0] != p[1];
        let res = r.e.m.change_matrix_err(|m| m.place_multiple(&cells));
        c.step();
        c.checks += 1;
        c.log(|| format!("on {} place at {:?} -> {:?}", b.text(), p, res.is_ok()));
        if res.is_ok() != ok {
            return Err(format!("placing at {:?} gives {:?}", p, res));
        }
        let mut want = c0.clone();
        if ok {
            for cl in cells.iter() {
                want[cl.pos().0 * 3 + cl.pos().1] = *cl;
            }
        }
        if cells_of(&r.e.m) != want {
            return Err("wrong cells after placing several cells".into());
        }
        c.observe(&(p, ok));
        Ok(())
    });
    mc.assume("a refused sync() leaves the (untransacted) cells in the matrix; only the sound is unaffected, as documented");
}
