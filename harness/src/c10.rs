use crate::c08::*;
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use serde_json::{json, Value};

/// A small patch that has everything the format knows; long lists are cut short.
fn sample_patch() -> Value {
    let mut e = engine(3, 3);
    e.m.place(0, 0, Cell::empty(NodeId::Sin(0)).out(None, None, Some(0)));
    e.m.place(0, 1, Cell::empty(NodeId::Amp(1)).input(Some(0), None, None).out(None, None, Some(0)));
    e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    e.m.place(1, 0, Cell::empty(NodeId::TSeq(0)));
    e.m.place(1, 1, Cell::empty(NodeId::Code(0)).out(None, None, Some(1)));
    e.m.place(1, 2, Cell::empty(NodeId::Out(0)).input(Some(1), None, None));
    e.m.place(2, 0, Cell::empty(NodeId::Sampl(0)));
    e.m.sync().unwrap();
    e.m.set_param_modamt(pid(NodeId::Amp(1), "inp"), Some(0.5)).unwrap();
    e.m.set_param(pid(NodeId::Sampl(0), "sample"), SAtom::audio_unloaded("a.wav"));
    {
        let p = e.m.get_pattern_data(0).unwrap();
        let mut p = p.lock().unwrap();
        p.set_rows(3);
        p.set_col_gate_type(1);
        p.set_cell_value(0, 0, 100);
        p.set_cell_value(1, 1, 0xf10);
    }
    program(&mut e.m.get_block_function(0).unwrap().lock().unwrap(), 3);
    e.m.set_prop("i", SAtom::setting(5));
    e.m.set_prop("m", SAtom::micro(&[0.5; 8]));
    e.m.set_prop("p", SAtom::param(0.5));
    e.m.set_prop("s", SAtom::str("x"));
    let d = save_patch_to_mem(&mut e.m);
    let mut v: Value = serde_json::from_slice(&d).unwrap();
    v["patterns"].as_array_mut().unwrap().truncate(2);
    v["patterns"][0]["data"].as_array_mut().unwrap().truncate(3);
    v["block_funs"].as_array_mut().unwrap().truncate(2);
    // keep the parameters of two nodes
    let keep = |l: &Value| l[0] == "amp" || (l[0] == "sin" && l[1] == 0) || l[0] == "sampl";
    let ps: Vec<Value> = v["params"].as_array().unwrap().iter().filter(|p| keep(p)).cloned().collect();
    v["params"] = Value::Array(ps);
    v
}

fn touch(e: &mut Eng) {
    let mut buf = [0u8; 64];
    let mut cells = vec![];
    e.m.for_each(|x, y, c| cells.push((x, y, *c)));
    for (x, y, c) in cells {
        c.label(&mut buf);
        for d in 0..6 {
            let d = CellDir::from(d);
            e.m.edge_label(&c, d, &mut buf);
            e.m.get_adjacent(x, y, d);
            e.m.get_adjacent_output(x, y, d);
        }
        e.m.get_connections(x, y);
    }
    for i in 0..4 {
        if e.m.has_tracker(i) {
            let p = e.m.get_pattern_data(i).unwrap();
            {
                let mut p = p.lock().unwrap();
                let (r, c) = p.get_cursor();
                p.get_cell(r, c);
                for r in 0..p.rows() {
                    for c in 0..p.cols() {
                        p.get_cell(r, c);
                        p.get_cell_value(r, c);
                    }
                }
            }
            for _ in 0..7 {
                e.m.check_pattern_data(i);
            }
        }
        if e.m.has_code_engine(i) {
            let f = e.m.get_block_function(i).unwrap();
            {
                let mut f = f.lock().unwrap();
                fun_text(&f);
                f.recalculate_area_sizes();
            }
            let _ = e.m.check_block_function(i);
        }
    }
    for _ in 0..3 {
        e.audio(&[0.3; 64]);
        e.m.update_filters();
        e.m.update_output_feedback();
    }
}

fn load(e: &mut Eng, data: &[u8]) -> bool {
    match MatrixRepr::read_from_mem(data) {
        Ok(r) => {
            let _ = e.m.from_repr(&r);
            true
        }
        Err(_) => false,
    }
}

/// every path to a value
fn paths(v: &Value, pre: Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(pre.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let mut p = pre.clone();
                p.push(i.to_string());
                paths(x, p, out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter() {
                let mut p = pre.clone();
                p.push(k.clone());
                paths(x, p, out);
            }
        }
        _ => {}
    }
}

fn ptr(p: &[String]) -> String {
    p.iter().map(|s| format!("/{}", s.replace('~', "~0").replace('/', "~1"))).collect()
}

fn mutate(v: &Value, p: &[String], k: usize, wrong: &[Value]) -> Option<Value> {
    let mut v = v.clone();
    if k < wrong.len() {
        *v.pointer_mut(&ptr(p))? = wrong[k].clone();
        return Some(v);
    }
    let (last, parent) = p.split_last()?;
    let par = v.pointer_mut(&ptr(parent))?;
    match par {
        Value::Array(a) => {
            let i: usize = last.parse().ok()?;
            match k - wrong.len() {
                0 => {
                    if i < a.len() {
                        a.remove(i);
                    }
                }
                1 => {
                    let x = a.get(i)?.clone();
                    a.insert(i, x);
                }
                _ => {
                    let x = a.get(i)?.clone();
                    for _ in 0..300 {
                        a.push(x.clone());
                    }
                }
            }
        }
        Value::Object(o) => match k - wrong.len() {
            0 => {
                o.remove(last);
            }
            1 => {
                let x = o.remove(last)?;
                o.insert("other".into(), x);
            }
            _ => return None,
        },
        _ => return None,
    }
    Some(v)
}

pub fn run(mc: &mut Mc) {
    mc.level = "fault_enumeration";
    mc.rule = "An execution is one damaged patch: it is read, loaded into an engine if it could be read, everything in it is looked at, compiled, played and saved again, and the undamaged patch is loaded afterwards and compared with a fresh engine. Distinct observations are distinct damaged texts that could still be read.".into();
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let base = sample_patch();
    let good = base.to_string().into_bytes();
    let want = {
        let mut e = engine(3, 3);
        assert!(load(&mut e, &good));
        see(&mut e.m, &["i", "m", "p", "s"])
    };
    // after whatever happened, the undamaged patch loads and is as in a fresh engine
    let after = |e: &mut Eng, c: &mut Case| -> Result<(), String> {
        if !load(e, &good) {
            return Err("the undamaged patch does not load any more".into());
        }
        let s = see(&mut e.m, &["i", "m", "p", "s"]);
        same("undamaged patch loaded after a damaged one", &want, &s, c)?;
        let (l, _) = e.settle(3);
        c.checks += 1;
        if l.iter().all(|x| *x == 0.0) {
            return Err("no sound from the undamaged patch loaded after a damaged one".into());
        }
        Ok(())
    };
    let try_one = |e: &mut Eng, data: &[u8], c: &mut Case| {
        c.step();
        c.checks += 1;
        if load(e, data) {
            c.observe(&data);
            touch(e);
            let again = save_patch_to_mem(&mut e.m);
            load(e, &again);
            true
        } else {
            false
        }
    };
    mc.space("truncations", good.len() as u64 + 1, |idx, c| {
        c.log(|| format!("the first {} bytes", idx));
        let mut e = engine(3, 3);
        try_one(&mut e, &good[..idx as usize], c);
        try_one(&mut e, &good[good.len() - idx as usize..], c);
        after(&mut e, c)
    });
    let alpha: &[u8] = b"\"}],:0-.eN\xff";
    mc.space("bytes", good.len() as u64, |idx, c| {
        let i = idx as usize;
        c.log(|| format!("byte {} ({:?}) replaced, deleted, doubled, preceded by others", i, good[i] as char));
        let mut e = engine(3, 3);
        let mut any = false;
        for a in alpha {
            let mut d = good.clone();
            d[i] = *a;
            any |= try_one(&mut e, &d, c);
            let mut d = good.clone();
            d.insert(i, *a);
            any |= try_one(&mut e, &d, c);
        }
        for b in [0, 2, 4, 6] {
            let mut d = good.clone();
            d[i] ^= 1 << b;
            any |= try_one(&mut e, &d, c);
        }
        let mut d = good.clone();
        d.remove(i);
        any |= try_one(&mut e, &d, c);
        if any {
            after(&mut e, c)?;
        }
        Ok(())
    });
    let mut ps = vec![];
    paths(&base, vec![], &mut ps);
    let big = Value::Array(vec![json!(1); 300]);
    let mut deep = json!(0);
    for _ in 0..100 {
        deep = json!([deep]);
    }
    let wrong: Vec<Value> = vec![
        json!(null),
        json!(true),
        json!(0),
        json!(1),
        json!(2),
        json!(-1),
        json!(-2),
        json!(4),
        json!(31),
        json!(255),
        json!(256),
        json!(70000),
        json!(5_000_000_000i64),
        json!(i64::MAX),
        json!(i64::MIN),
        json!(u64::MAX),
        json!(0.5),
        json!(-0.5),
        json!(1e300),
        json!(-1e300),
        json!(1e-300),
        json!(3.4e38),
        json!(""),
        json!("x"),
        json!("nop"),
        json!("out"),
        json!("ä/\u{0}"),
        json!("if"),
        json!("get"),
        json!("set"),
        json!([]),
        json!([null, null]),
        json!(["i", 7]),
        json!(["as", "b.wav"]),
        json!(["p", 1e300]),
        json!({}),
        json!({"a": 1}),
        big,
        deep,
    ];
    let nk = wrong.len() + 3;
    mc.space("structure", (ps.len() * nk) as u64, |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(nk);
        let p = &ps[d.0 as usize];
        let v = match mutate(&base, p, k, &wrong) {
            Some(v) => v,
            None => return Ok(()),
        };
        let t = v.to_string();
        c.log(|| format!("{} {}", ptr(p), if k < wrong.len() { wrong[k].to_string().chars().take(40).collect() } else { ["removed", "doubled", "many"][k - wrong.len()].to_string() }));
        let mut e = engine(3, 3);
        try_one(&mut e, t.as_bytes(), c);
        after(&mut e, c)
    });
    // all pairs of numbers replaced
    let nums: Vec<Vec<String>> = ps
        .iter()
        .filter(|p| {
            let v = base.pointer(&ptr(p)).unwrap();
            (v.is_number() || v.is_null()) && p.get(0).map(|s| s != "params").unwrap_or(true)
        })
        .cloned()
        .collect();
    let wn: Vec<Value> = if mc.thorough() {
        vec![json!(-1), json!(1), json!(300), json!(i64::MAX), json!(i64::MIN), json!(null), json!("zz")]
    } else {
        vec![json!(1), json!(i64::MAX)]
    };
    // quick: only within the same list or object
    let all = mc.thorough();
    let n = nums.len() as u64;
    let np = n * n * (wn.len() * wn.len()) as u64;
    mc.space("number-pairs", np, |idx, c| {
        let mut d = Dec(idx);
        let (k1, k2) = (d.take(wn.len()), d.take(wn.len()));
        let (i, j) = (d.take(nums.len()), d.take(nums.len()));
        if i >= j || (!all && nums[i][..nums[i].len() - 1] != nums[j][..nums[j].len() - 1]) {
            return Ok(());
        }
        let v = mutate(&base, &nums[i], k1, &wn).unwrap();
        let v = match mutate(&v, &nums[j], k2, &wn) {
            Some(v) => v,
            None => return Ok(()),
        };
        c.log(|| format!("{} {} {} {}", ptr(&nums[i]), wn[k1], ptr(&nums[j]), wn[k2]));
        let mut e = engine(3, 3);
        try_one(&mut e, v.to_string().as_bytes(), c);
        Ok(())
    });
    mc.assume("one damage (or one pair of damaged numbers) per patch; memory is limited to 20 GB of address space");
}
