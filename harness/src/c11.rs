use crate::c08::*;
use crate::eng::*;
use crate::fsx::*;
use crate::mc::*;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;

fn patch(k: usize) -> MatrixRepr {
    let mut e = engine(3, 3);
    match k {
        0 => {}
        1 => {
            e.m.place(0, 0, Cell::empty(NodeId::Sin(0)).out(None, None, Some(0)));
            e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        }
        _ => {
            e.m.place(0, 0, Cell::empty(NodeId::TSeq(3)));
            e.m.place(0, 1, Cell::empty(NodeId::PVerb(2)));
            e.m.set_prop("long", SAtom::str(&"text ".repeat(3000)));
        }
    }
    e.m.sync().unwrap();
    e.m.to_repr()
}

/// what lies in the directory before the save
#[derive(Clone, Copy, Debug, PartialEq)]
enum Before {
    /// no file, or the patch with this number
    Old(Option<usize>),
    /// plus files left by an earlier save that crashed: everything that such a save creates besides the target, with garbage in it
    Left(Option<usize>),
}

struct Dir(String);
impl Dir {
    fn new(tag: &str) -> Dir {
        let p = std::env::temp_dir().join(format!("hx-c11-{}-{}", std::process::id(), tag));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Dir(p.to_str().unwrap().to_string())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn prepare(d: &Dir, name: &str, b: Before, text: &[String], extra: &[String]) -> (String, Option<Vec<u8>>) {
    for e in std::fs::read_dir(&d.0).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            let _ = std::fs::remove_dir(&p);
        } else {
            std::fs::remove_file(&p).unwrap();
        }
    }
    let target = format!("{}/{}", d.0, name);
    let (old, left) = match b {
        Before::Old(o) => (o, false),
        Before::Left(o) => (o, true),
    };
    if let Some(o) = old {
        std::fs::write(&target, &text[o]).unwrap();
    }
    if left {
        for x in extra {
            std::fs::write(format!("{}/{}", d.0, x), "garbage ".repeat(9000)).unwrap();
        }
    }
    (target, old.map(|o| text[o].clone().into_bytes()))
}

pub fn run(mc: &mut Mc) {
    mc.level = "fault_enumeration";
    mc.rule = "An execution is one save of one patch over one previous state of the directory with at most two failing calls; for each of them every crash point and every disk state a crash can leave there is derived from the recorded calls. Evaluations are judged disk states and results; distinct observations are distinct (calls, outcome) records.".into();
    let mut reprs: Vec<MatrixRepr> = (0..3).map(patch).collect();
    let text: Vec<String> = reprs.iter_mut().map(|r| String::from_utf8(r.write_to_mem()).unwrap()).collect();
    let names = ["patch.hxy", "ä b", "x.y~"];
    // which files does a save create besides the target?
    let extra: Vec<Vec<String>> = names
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let d = Dir::new(&format!("probe{}", i));
            let (t, _) = prepare(&d, n, Before::Old(Some(0)), &text, &[]);
            let mut r = reprs[1].clone();
            let (_, rec) = record(&d.0, &[], || r.write_to_file(&t));
            rec.ops
                .iter()
                .filter_map(|o| match o {
                    Op::Create { path, .. } => Some(path[d.0.len() + 1..].to_string()),
                    _ => None,
                })
                .filter(|p| p != n)
                .collect()
        })
        .collect();
    let befores: Vec<Before> = {
        let mut v = vec![];
        for o in [None, Some(0), Some(1), Some(2)] {
            v.push(Before::Old(o));
            v.push(Before::Left(o));
        }
        v
    };
    // number of calls a save makes
    let ncalls = {
        let d = Dir::new("count");
        let mut m = 0;
        for b in befores.iter() {
            for k in 0..3 {
                let (t, _) = prepare(&d, names[0], *b, &text, &extra[0]);
                let mut r = reprs[k].clone();
                let (_, rec) = record(&d.0, &[], || r.write_to_file(&t));
                m = m.max(rec.calls.len());
            }
        }
        m
    };
    assert!(ncalls > 0, "the save makes no intercepted call");
    let kinds = [
        Fault::Err(libc::EIO),
        Fault::Err(libc::ENOSPC),
        Fault::Err(libc::EACCES),
        Fault::Intr,
        Fault::Short(1),
        Fault::Short(100),
        Fault::Short(4096),
    ];
    // no fault, one fault, two faults
    let slots = ncalls + 3;
    let mut plans: Vec<Vec<(usize, Fault)>> = vec![vec![]];
    for i in 0..slots {
        for f in kinds {
            plans.push(vec![(i, f)]);
        }
    }
    for i in 0..slots {
        for j in i + 1..slots {
            for (fi, f) in kinds.iter().enumerate() {
                for (gi, g) in kinds.iter().enumerate() {
                    // the quick tier combines one fault of each sort
                    if !mc.thorough() && (![0, 3, 4].contains(&fi) || ![0, 3, 4].contains(&gi)) {
                        continue;
                    }
                    plans.push(vec![(i, *f), (j, *g)]);
                }
            }
        }
    }
    let n = (plans.len() * befores.len() * 3 * names.len()) as u64;
    mc.space("crashes-and-errors", n, |idx, c| {
        let mut dd = Dec(idx);
        let k = dd.take(3);
        let b = befores[dd.take(befores.len())];
        let ni = dd.take(names.len());
        let plan = &plans[dd.0 as usize];
        let api = plan.len() > 1 || (idx / 3) % 2 == 0;
        let d = Dir::new(&format!("{}", idx));
        let (target, old) = prepare(&d, names[ni], b, &text, &extra[ni]);
        c.log(|| format!("save patch {} as {:?} over {:?}, faults {:?}", k, names[ni], b, plan));
        let new = text[k].clone().into_bytes();
        let mut r = reprs[k].clone();
        let (res, rec) = if api {
            record(&d.0, plan, || r.write_to_file(&target))
        } else {
            let mut e = engine(3, 3);
            e.m.from_repr(&r).map_err(|e| format!("{:?}", e))?;
            let want = e.m.to_repr().serialize();
            if want.trim() != text[k].trim() {
                // would be reported by the save/load property
                return Ok(());
            }
            record(&d.0, plan, || save_patch_to_file(&mut e.m, &target))
        };
        c.log(|| format!("result {:?}, calls {:?}", res, rec.calls.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
        c.observe(&(format!("{:?}", rec.calls), res.is_ok(), k, format!("{:?}", b)));
        let have = std::fs::read(&target).ok();
        c.step();
        c.checks += 1;
        let describe = |v: &Option<Vec<u8>>| match v {
            None => "no file".to_string(),
            Some(v) if v.is_empty() => "an empty file".into(),
            Some(v) => format!("{} bytes", v.len()),
        };
        if res.is_ok() && have.as_ref() != Some(&new) {
            return Err(format!("the save reported success, but the file holds {} instead of the new patch of {} bytes", describe(&have), new.len()));
        }
        if plan.is_empty() {
            if let Err(e) = &res {
                return Err(format!("a save without any fault failed: {}", e));
            }
        }
        if have != old && have.as_ref() != Some(&new) {
            return Err(format!("after the save returned {:?}, the file holds {}: neither the old patch ({}) nor the new one ({} bytes)", res.is_ok(), describe(&have), describe(&old), new.len()));
        }
        // the recorded calls are what happened: their replay gives the same file
        let all = crash_states(&rec, rec.ops.len(), &target);
        c.checks += 1;
        if all.last().map(|x| &x.1) != Some(&have) {
            return Err(format!("harness: replayed calls give {}, the disk has {}", describe(&all.last().unwrap().1), describe(&have)));
        }
        for kk in 0..=rec.ops.len() {
            for (how, st) in crash_states(&rec, kk, &target) {
                c.step();
                c.checks += 1;
                if st != old && st.as_ref() != Some(&new) {
                    return Err(format!(
                        "a crash after operation {} of {} ({}) leaves {}: neither the old patch ({}) nor the new one ({} bytes)",
                        kk, rec.ops.len(), how, describe(&st), describe(&old), new.len()
                    ));
                }
            }
        }
        // a later save without faults works
        if !res.is_ok() || plan.is_empty() {
            let mut r = reprs[(k + 1) % 3].clone();
            let (res, _) = record(&d.0, &[], || r.write_to_file(&target));
            c.checks += 1;
            if res.is_err() || std::fs::read(&target).ok() != Some(text[(k + 1) % 3].clone().into_bytes()) {
                return Err(format!("the next save does not work: {:?}", res));
            }
        }
        Ok(())
    });
    // places that cannot be written
    mc.space("impossible-places", 4 * 3, |idx, c| {
        let mut dd = Dec(idx);
        let how = dd.take(4);
        let k = dd.take(3);
        let d = Dir::new(&format!("imp{}", idx));
        let (t, old) = prepare(&d, "p", Before::Old(Some(1)), &text, &[]);
        let target = match how {
            0 => format!("{}/missing/p", d.0),
            1 => d.0.clone(),
            2 => format!("{}/p/q", d.0),
            _ => {
                std::fs::create_dir(format!("{}/p~", d.0)).unwrap();
                t.clone()
            }
        };
        c.log(|| format!("save patch {} as {}", k, target));
        let mut r = reprs[k].clone();
        c.step();
        let (res, _) = record(&d.0, &[], || r.write_to_file(&target));
        c.checks += 2;
        if how < 3 && res.is_ok() {
            return Err(format!("saving as {} reported success", target));
        }
        let have = std::fs::read(&t).ok();
        let fine = if res.is_ok() { have.as_deref() == Some(text[k].as_bytes()) } else { have == old };
        if !fine {
            return Err("the existing patch was changed".into());
        }
        // the sibling file made by a failed save is inside the directory's parent: remove it
        let _ = std::fs::remove_file(format!("{}~", d.0));
        Ok(())
    });
    // loading with failing, interrupted and short reads
    let mut rp: Vec<Vec<(usize, Fault)>> = vec![vec![]];
    for i in 0..9 {
        for f in kinds {
            rp.push(vec![(i, f)]);
            for j in i + 1..9 {
                for g in kinds {
                    rp.push(vec![(i, f), (j, g)]);
                }
            }
        }
    }
    mc.space("load-errors", rp.len() as u64 * 3, |idx, c| {
        let mut dd = Dec(idx);
        let k = dd.take(3);
        let plan = &rp[dd.0 as usize];
        let d = Dir::new(&format!("rd{}", idx));
        let (t, _) = prepare(&d, "p", Before::Old(Some(k)), &text, &[]);
        c.log(|| format!("load patch {} with {:?}", k, plan));
        c.step();
        let (res, rec) = record(&d.0, plan, || MatrixRepr::read_from_file(&t));
        c.observe(&(format!("{:?}", rec.calls), k, res.is_ok()));
        c.checks += 1;
        match res {
            Ok(mut r) => {
                if r.serialize().trim() != text[k].trim() {
                    return Err("a load reported success, but the patch is not the one in the file".into());
                }
            }
            Err(e) => {
                let hard = plan.iter().any(|(i, f)| matches!(f, Fault::Err(_)) && *i < rec.calls.len());
                if !hard {
                    return Err(format!("loading failed without an I/O error: {:?}", e));
                }
            }
        }
        Ok(())
    });
    mc.assume("the disk keeps directory operations in order and may lose or tear unsynced data (ordered journal); a renamed file keeps its synced data");
    mc.assume("the save happens on the calling thread through the C library's file calls");
}
