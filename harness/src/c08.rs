use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::wblockdsp::BlockFun;
use hexodsp::*;
use std::collections::BTreeMap;

/// Everything a user can see of a patch, read through the getters.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub cells: Vec<String>,
    pub params: BTreeMap<ParamId, f32>,
    pub atoms: BTreeMap<ParamId, SAtom>,
    pub amts: BTreeMap<ParamId, Option<f32>>,
    pub pats: BTreeMap<usize, String>,
    pub funs: BTreeMap<usize, String>,
    pub props: BTreeMap<String, SAtom>,
    /// nodes that exist in the engine
    pub nodes: Vec<NodeId>,
}

pub const PATS: [usize; 7] = [0, 1, 2, 64, 127, 128, 255];
pub const FUNS: [usize; 6] = [0, 1, 2, 31, 32, 255];

pub fn pat_text(m: &mut Matrix, i: usize) -> Option<String> {
    if !m.has_tracker(i) {
        return None;
    }
    let pd = m.get_pattern_data(i)?;
    let mut p = pd.lock().unwrap();
    let mut s = format!("rows {} step {}", p.rows(), p.get_edit_step());
    let mut any = false;
    for c in 0..p.cols() {
        let t = if p.is_col_note(c) { "n" } else if p.is_col_step(c) { "s" } else if p.is_col_gate(c) { "g" } else { "v" };
        any |= t != "v";
        s += &format!("\n{}:", t);
        for r in 0..256 {
            if let Some(v) = p.get_cell(r, c) {
                s += &format!(" {}={}", r, v);
                any = true;
            }
            if p.get_cell(r, c).is_some() {
                s += &format!("({})", p.get_cell_value(r, c));
            }
        }
    }
    if !any && p.rows() == 256 && p.get_edit_step() == 4 {
        // never edited: as good as not there
        return None;
    }
    s += &format!("\ncursor {:?}", p.get_cursor());
    Some(s)
}

fn label(f: &dyn Fn(&mut [u8]) -> usize) -> String {
    let mut b = [0u8; 64];
    let n = f(&mut b);
    String::from_utf8_lossy(&b[..n.min(64)]).to_string()
}

pub fn fun_text(f: &BlockFun) -> String {
    let mut s = String::new();
    // areas are found by following the blocks; area 0 always exists
    let mut todo = vec![0usize];
    let mut seen = vec![];
    while let Some(a) = todo.pop() {
        if seen.contains(&a) || seen.len() > 40 {
            continue;
        }
        seen.push(a);
        s += &format!("area {} size {:?}\n", a, f.area_size(a));
        for y in 0..24i64 {
            for x in 0..24i64 {
                if f.origin_at(a, x, y) != Some((x, y)) {
                    continue;
                }
                if let Some(b) = f.block_at(a, x, y) {
                    s += &format!(" {},{} '{}' rows {} color {:?} contains {:?} {:?}", x, y, label(&|u| b.label(u)), b.rows(), b.custom_color(), b.contains(0), b.contains(1));
                    for r in 0..b.rows() {
                        s += &format!(" [{} '{}' {} '{}']", b.has_input(r), label(&|u| b.input_label(r, u)), b.has_output(r), label(&|u| b.output_label(r, u)));
                    }
                    s += "\n";
                    for k in 0..2 {
                        if let Some(c) = b.contains(k) {
                            todo.push(c);
                        }
                    }
                }
            }
        }
    }
    s
}

pub fn see(m: &mut Matrix, props: &[&str]) -> Seen {
    let mut s = Seen::default();
    let mut cells = vec![];
    m.for_each(|x, y, c| {
        if c.node_id() != NodeId::Nop {
            let mut t = format!("{},{} {:?} pos {:?}", x, y, c.node_id(), c.pos());
            for d in 0..6 {
                t += &format!(" {:?}", c.local_port_idx(CellDir::from(d)));
            }
            cells.push(t);
        }
    });
    s.cells = cells;
    let mut seen = vec![];
    m.for_each_atom(|_, p, a, amt| seen.push((p, a.clone(), amt)));
    for (p, a, amt) in seen {
        if !s.nodes.contains(&p.node_id()) {
            s.nodes.push(p.node_id());
        }
        // the values as get_param tells them
        let v = m.get_param(&p).unwrap_or(a);
        if p.is_atom() {
            s.atoms.insert(p, v);
        } else {
            s.params.insert(p, v.f());
            s.amts.insert(p, amt);
            let g = m.get_param_modamt(&p);
            if g != amt {
                s.amts.insert(p, Some(f32::MAX));
            }
        }
    }
    for i in PATS {
        if let Some(t) = pat_text(m, i) {
            s.pats.insert(i, t);
        }
    }
    for i in FUNS {
        if m.has_code_engine(i) {
            let f = m.get_block_function(i).unwrap();
            let f = f.lock().unwrap();
            let t = fun_text(&f);
            if t != "area 0 size (16, 16)\n" {
                s.funs.insert(i, t);
            }
        }
    }
    for k in props {
        if let Some(v) = m.get_prop(k) {
            s.props.insert(k.to_string(), v.clone());
        }
    }
    s
}

fn near(a: f32, b: f32, rel: f32) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= rel * a.abs().max(b.abs()).max(0.02)
}

fn near_val(a: f32, b: f32) -> bool {
    (a - b).abs() <= 2e-5 * a.abs().max(b.abs())
}

fn unload(a: &SAtom) -> SAtom {
    match a {
        SAtom::AudioSample((s, _)) => SAtom::audio_unloaded(s),
        x => x.clone(),
    }
}

/// does `b` (loaded) show what `a` (saved) showed?
pub fn same(what: &str, a: &Seen, b: &Seen, c: &mut Case) -> Result<(), String> {
    c.checks += 1;
    if a.cells != b.cells {
        return Err(format!("{}: cells {:?}, expected {:?}", what, b.cells, a.cells));
    }
    for (p, v) in a.params.iter() {
        c.checks += 1;
        let w = match b.params.get(p) {
            Some(w) => *w,
            None if b.nodes.contains(&p.node_id()) => f32::NAN,
            None => continue,
        };
        let pid = *p;
        if !near(*v, w, 2e-4) && !near_val(pid.denorm(*v), pid.denorm(w)) {
            return Err(format!("{}: parameter {:?} {} is {:?}, expected {:?}", what, p.node_id(), p.name(), w, v));
        }
        let (x, y) = (a.amts.get(p).copied().flatten(), b.amts.get(p).copied().flatten());
        if x != y {
            return Err(format!("{}: amount of {:?} {} is {:?}, expected {:?}", what, p.node_id(), p.name(), y, x));
        }
    }
    for (p, v) in a.atoms.iter() {
        c.checks += 1;
        let w = b.atoms.get(p).cloned();
        if w.is_none() && !b.nodes.contains(&p.node_id()) {
            continue;
        }
        if w != Some(unload(v)) && w != Some(v.clone()) {
            return Err(format!("{}: setting {:?} {} is {:?}, expected {:?}", what, p.node_id(), p.name(), w, v));
        }
    }
    for (i, t) in a.pats.iter() {
        c.checks += 1;
        if b.pats.get(i) != Some(t) {
            return Err(format!("{}: pattern {} is {:?}, expected {:?}", what, i, b.pats.get(i), t));
        }
    }
    for (i, t) in a.funs.iter() {
        c.checks += 1;
        if b.funs.get(i) != Some(t) {
            return Err(format!("{}: block program {} is {:?}, expected {:?}", what, i, b.funs.get(i), t));
        }
    }
    if a.props.len() != b.props.len() {
        return Err(format!("{}: properties {:?}, expected {:?}", what, b.props, a.props));
    }
    for (k, v) in a.props.iter() {
        c.checks += 1;
        if b.props.get(k) != Some(&unload(v)) && b.props.get(k) != Some(v) {
            return Err(format!("{}: property {:?} is {:?}, expected {:?}", what, k, b.props.get(k), v));
        }
    }
    Ok(())
}

/// the saved data, up to rounding of parameter values
pub fn same_data(what: &str, a: &str, b: &str, c: &mut Case) -> Result<(), String> {
    fn walk(path: String, a: &serde_json::Value, b: &serde_json::Value) -> Option<String> {
        use serde_json::Value::*;
        match (a, b) {
            (Number(x), Number(y)) if x.is_f64() && y.is_f64() => {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                if (x - y).abs() <= 4e-4 * x.abs().max(y.abs()).max(0.02) {
                    None
                } else {
                    Some(format!("{}: {} became {}", path, x, y))
                }
            }
            (Array(x), Array(y)) if x.len() == y.len() && path.ends_with(".blocks") => {
                // a set of blocks: the order means nothing
                let key = |v: &serde_json::Value| v.to_string();
                let (mut x, mut y) = (x.clone(), y.clone());
                x.sort_by_key(key);
                y.sort_by_key(key);
                (0..x.len()).find_map(|i| walk(format!("{}[{}]", path, i), &x[i], &y[i]))
            }
            (Array(x), Array(y)) if x.len() == y.len() => {
                (0..x.len()).find_map(|i| walk(format!("{}[{}]", path, i), &x[i], &y[i]))
            }
            (Object(x), Object(y)) if x.len() == y.len() => {
                x.iter().find_map(|(k, v)| walk(format!("{}.{}", path, k), v, y.get(k).unwrap_or(&Null)))
            }
            _ if a == b => None,
            _ => Some(format!("{}: {} became {}", path, a, b).chars().take(300).collect()),
        }
    }
    c.checks += 1;
    let x: serde_json::Value = serde_json::from_str(a).map_err(|e| format!("{}: {}", what, e))?;
    let y: serde_json::Value = serde_json::from_str(b).map_err(|e| format!("{}: {}", what, e))?;
    match walk(String::new(), &x, &y) {
        None => Ok(()),
        Some(t) => Err(format!("{}: saved again, {}", what, t)),
    }
}

/// Saves, loads into a fresh engine, compares, saves again.
fn roundtrip(m: &mut Matrix, w: usize, h: usize, props: &[&str], c: &mut Case) -> Result<Eng, String> {
    c.step();
    let a = see(m, props);
    let data = save_patch_to_mem(m);
    let mut e = engine(w, h);
    c.step();
    load_patch_from_mem(&mut e.m, &data).map_err(|e| format!("loading the saved patch failed: {:?}", e))?;
    let b = see(&mut e.m, props);
    same("loaded patch", &a, &b, c)?;
    let again = save_patch_to_mem(&mut e.m);
    c.step();
    same_data("loaded patch", std::str::from_utf8(&data).unwrap(), std::str::from_utf8(&again).unwrap(), c)?;
    c.observe(&hash_of(&data));
    // the saved original is untouched
    let a2 = see(m, props);
    same("patch after saving it", &a, &a2, c)?;
    Ok(e)
}

fn pvals(p: &ParamId) -> Vec<f32> {
    let ((min, max), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
    let mut v: Vec<f32> = [0.0, 1.0, 0.5, 0.25, 0.9, 0.003, 0.6180339].iter().map(|t| min + (max - min) * t).collect();
    v.push(p.norm_def());
    v.push(p.round(v[6], false));
    v.push(p.round(v[4], true));
    v
}

const AMTS: [Option<f32>; 3] = [None, Some(0.0), Some(-0.3333333)];

fn avals(p: &ParamId) -> Vec<SAtom> {
    match p.as_atom_def() {
        SAtom::Setting(d) => {
            let (lo, hi) = p.setting_min_max().unwrap_or((0, 1));
            let mut v: Vec<i64> = (lo..=hi.min(lo + 40)).collect();
            v.extend([hi, d, 0x0, 0xfff, 0x5a5, 1 << 40]);
            v.into_iter().map(SAtom::setting).collect()
        }
        SAtom::AudioSample(_) => ["", "a.wav", "dir with space/ä ö.wav", "quote\"back\\slash\n"]
            .iter()
            .map(|s| SAtom::audio_unloaded(s))
            .chain([short_sample(10)])
            .collect(),
        SAtom::MicroSample(_) => vec![SAtom::micro(&[0.0; 8]), SAtom::micro(&[0.1, -0.2, 1.0, -1.0, 0.3333, 1e-9, 7.0, 0.5])],
        SAtom::Str(_) => vec![SAtom::str(""), SAtom::str("x\"y\\ü")],
        SAtom::Param(_) => vec![SAtom::param(0.5), SAtom::param(-0.25)],
    }
}

fn pvalues(m: &mut Matrix, n: NodeId, base: usize) {
    for i in 0..nin(n) {
        m.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(n, i, base)));
    }
}

/// a small block program, k selects one of several
pub fn program(f: &mut BlockFun, k: usize) {
    let mut put = |a: usize, x: i64, y: i64, t: &str, u: Option<&str>| {
        let _ = f.instanciate_at(a, x, y, t, u.map(|s| s.to_string()));
    };
    match k {
        0 => {}
        1 => {
            put(0, 0, 0, "value", Some("0.25"));
            put(0, 1, 0, "set", Some("&sig1"));
        }
        2 => {
            put(0, 0, 1, "get", Some("in1"));
            put(0, 0, 2, "value", Some("-0.5"));
            put(0, 1, 1, "*", None);
            put(0, 2, 1, "->2", None);
            put(0, 3, 1, "set", Some("&sig1"));
            put(0, 3, 2, "set", Some("&sig2"));
        }
        3 => {
            put(0, 2, 2, "get", Some("in1"));
            put(0, 3, 2, "if", None);
            put(1, 0, 0, "value", Some("0.1"));
            put(1, 1, 0, "set", Some("&sig1"));
            put(2, 0, 0, "value", Some("0.7"));
            put(2, 1, 0, "set", Some("&sig1"));
        }
        _ => {
            put(0, 0, 0, "π", None);
            put(0, 4, 7, "sin", None);
            put(0, 9, 9, "value", Some("text ü \"q\""));
        }
    }
    f.recalculate_area_sizes();
}

fn pattern(p: &mut hexodsp::dsp::tracker::PatternData, k: &mut Dec) {
    let rows = [256, 0, 1, 2, 64, 255][k.take(6)];
    let kind = k.take(4);
    let col = [0, 3, 5][k.take(3)];
    let row = [0, 1, 63, 255][k.take(4)];
    let val = [None, Some(0u16), Some(0xfff), Some(69)][k.take(4)];
    let step = [4, 16][k.take(2)];
    p.set_rows(rows);
    match kind {
        0 => p.set_col_value_type(col),
        1 => p.set_col_note_type(col),
        2 => p.set_col_step_type(col),
        _ => p.set_col_gate_type(col),
    }
    if let Some(v) = val {
        p.set_cell_value(row, col, v);
        p.set_cell_value((row + 7) % 256, (col + 1) % 6, v / 2);
    }
    p.set_edit_step(step);
    p.set_cursor(row, col);
}

fn sound(e: &mut Eng, blocks: usize) -> (Vec<f32>, Vec<f32>) {
    let mut o = (vec![], vec![]);
    for b in 0..blocks {
        e.x.process_graph_updates();
        let l: Vec<f32> = (0..128).map(|i| Sig::Smooth(2).at(b * 128 + i)).collect();
        let r: Vec<f32> = (0..128).map(|i| Sig::Gate(1).at(b * 128 + i)).collect();
        let (x, y) = block2(&mut e.x, &l, &r);
        o.0.extend(x);
        o.1.extend(y);
    }
    o
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution builds one patch, saves it, loads it into a fresh engine, compares everything visible, and saves it again; distinct observations are distinct saved files.".into();
    let nodes = all_nodes();
    // every parameter of every node, several values and amounts
    let mut ps: Vec<(ParamId, usize)> = vec![];
    for n in nodes.iter() {
        for inst in [0usize, 3, 255] {
            if inst > 0 && !mc.thorough() && !matches!(n, NodeId::Sin(_) | NodeId::Amp(_)) {
                continue;
            }
            let n = n.to_instance(inst);
            for i in 0..nin(n) {
                let p = n.inp_param_by_idx(i).unwrap();
                for k in 0..pvals(&p).len() {
                    ps.push((p, k));
                }
            }
        }
    }
    mc.space("parameters", ps.len() as u64 * AMTS.len() as u64, |idx, c| {
        let mut d = Dec(idx);
        let amt = AMTS[d.take(AMTS.len())];
        let (p, k) = ps[d.0 as usize];
        let v = pvals(&p)[k];
        c.log(|| format!("{:?} {} = {} amount {:?}", p.node_id(), p.name(), v, amt));
        let mut e = engine(3, 3);
        e.m.place(1, 1, Cell::empty(p.node_id()));
        e.m.sync().unwrap();
        e.m.set_param(p, SAtom::param(v));
        if amt.is_some() {
            e.m.set_param_modamt(p, amt).map_err(|e| format!("{:?}", e))?;
        }
        roundtrip(&mut e.m, 3, 3, &[], c)?;
        Ok(())
    });
    let mut ats: Vec<(ParamId, SAtom)> = vec![];
    for n in nodes.iter() {
        for inst in [0usize, 2] {
            let n = n.to_instance(inst);
            for a in 0..nat(n) {
                let p = n.atom_param_by_idx(a).unwrap();
                for v in avals(&p) {
                    ats.push((p, v));
                }
            }
        }
    }
    mc.space("settings", ats.len() as u64, |idx, c| {
        let (p, v) = &ats[idx as usize];
        c.log(|| format!("{:?} {} = {:?}", p.node_id(), p.name(), v));
        let mut e = engine(3, 3);
        e.m.place(1, 1, Cell::empty(p.node_id()));
        e.m.sync().unwrap();
        e.m.set_param(*p, v.clone());
        roundtrip(&mut e.m, 3, 3, &[], c)?;
        Ok(())
    });
    // parameters set before the node is placed, and of nodes that are not placed any more
    mc.space("unplaced", nodes.len() as u64 * 3, |idx, c| {
        let mut d = Dec(idx);
        let mode = d.take(3);
        let n = nodes[d.0 as usize].to_instance(1);
        c.log(|| format!("{:?} mode {}", n, mode));
        let mut e = engine(3, 3);
        if mode == 0 {
            pvalues(&mut e.m, n, 1);
        }
        e.m.place(0, 2, Cell::empty(n));
        e.m.sync().unwrap();
        if mode > 0 {
            pvalues(&mut e.m, n, 2);
        }
        if mode == 2 {
            e.m.place(0, 2, Cell::empty(NodeId::Nop));
            e.m.sync().unwrap();
        }
        let mut f = roundtrip(&mut e.m, 3, 3, &[], c)?;
        // place it in the loaded matrix and look again
        for m in [&mut e.m, &mut f.m] {
            m.place(2, 2, Cell::empty(n));
            m.sync().unwrap();
        }
        let (a, b) = (see(&mut e.m, &[]), see(&mut f.m, &[]));
        same("node placed after loading", &a, &b, c)
    });
    // cells: every node type, every port on every edge, every position
    let mut cs: Vec<(NodeId, usize, Option<u8>)> = vec![];
    for n in nodes.iter() {
        for dir in 0..6 {
            let cnt = if CellDir::from(dir).is_output() { nout(*n) } else { nin(*n) };
            for k in 0..cnt {
                cs.push((*n, dir as usize, Some(k as u8)));
            }
        }
        cs.push((*n, 0, None));
    }
    mc.space("cells", cs.len() as u64, |idx, c| {
        let (n, dir, port) = cs[idx as usize];
        let pos = (idx as usize % 5, (idx as usize / 5) % 4);
        c.log(|| format!("{:?} at {:?} dir {} port {:?}", n, pos, dir, port));
        let mut e = engine(5, 4);
        let mut cell = Cell::empty(n.to_instance((idx % 3) as usize));
        if let Some(p) = port {
            cell.set_io_dir(CellDir::from(dir as u8), p as usize);
        }
        e.m.place(pos.0, pos.1, cell);
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        let s = see(&mut e.m, &[]);
        c.checks += 1;
        if s.cells.len() != 1 {
            return Err(format!("cells {:?}", s.cells));
        }
        roundtrip(&mut e.m, 5, 4, &[], c)?;
        Ok(())
    });
    // layouts over a small alphabet in all cells of a 2x2 block
    let alpha = [
        Cell::empty(NodeId::Nop),
        Cell::empty(NodeId::Sin(0)).out(Some(0), None, Some(0)),
        Cell::empty(NodeId::Sin(1)).out(None, Some(0), None),
        Cell::empty(NodeId::Amp(0)).input(Some(0), None, None).out(None, Some(0), None),
        Cell::empty(NodeId::Mix3(2)).input(Some(2), Some(1), Some(0)),
        Cell::empty(NodeId::Out(0)).input(None, Some(0), Some(1)),
        Cell::empty(NodeId::TSeq(1)).input(None, Some(1), None).out(Some(11), Some(0), Some(5)),
    ];
    mc.space("layouts", pow(alpha.len() as u64, 4), |idx, c| {
        let mut d = Dec(idx);
        let mut e = engine(3, 3);
        let mut t = vec![];
        for (x, y) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
            let k = d.take(alpha.len());
            t.push(k);
            e.m.place(x, y, alpha[k]);
        }
        c.log(|| format!("cells {:?}", t));
        if e.m.check().is_err() || e.m.sync().is_err() {
            return Ok(());
        }
        roundtrip(&mut e.m, 3, 3, &[], c)?;
        Ok(())
    });
    let np = 6 * 4 * 3 * 4 * 4 * 2u64;
    mc.space("patterns", np, |idx, c| {
        let mut d = Dec(idx);
        let mut e = engine(3, 3);
        let id = PATS[(idx % 7) as usize];
        e.m.place(0, 0, Cell::empty(NodeId::TSeq(id as u8)));
        e.m.place(1, 0, Cell::empty(NodeId::TSeq(2)));
        e.m.sync().unwrap();
        {
            let p = e.m.get_pattern_data(id).unwrap();
            pattern(&mut p.lock().unwrap(), &mut d);
        }
        c.log(|| format!("TSeq {} {:?}", id, pat_text(&mut e.m, id)));
        roundtrip(&mut e.m, 3, 3, &[], c)?;
        Ok(())
    });
    mc.space("block-programs", (FUNS.len() * 5 * 5) as u64, |idx, c| {
        let mut d = Dec(idx);
        let id = FUNS[d.take(FUNS.len())];
        let (k1, k2) = (d.take(5), d.take(5));
        c.log(|| format!("Code {} program {}, Code 1 program {}", id, k1, k2));
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::Code(id as u8)));
        e.m.place(1, 0, Cell::empty(NodeId::Code(1)));
        e.m.sync().unwrap();
        program(&mut e.m.get_block_function(id).unwrap().lock().unwrap(), k1);
        if id != 1 {
            program(&mut e.m.get_block_function(1).unwrap().lock().unwrap(), k2);
        }
        roundtrip(&mut e.m, 3, 3, &[], c)?;
        Ok(())
    });
    let keys = ["a", "", "ä\"\\", "zz top", "a.b.c"];
    let vals = [
        SAtom::setting(0),
        SAtom::setting(i64::MIN),
        SAtom::setting(i64::MAX),
        SAtom::param(0.1),
        SAtom::param(-1e20),
        SAtom::param(1e-30),
        SAtom::str(""),
        SAtom::str("text \"q\" \u{1F600}\n"),
        SAtom::micro(&[0.1, 0.2, 0.3, 0.4, -0.5, 0.6, 0.7, 0.8]),
        SAtom::audio_unloaded("x/y.wav"),
    ];
    mc.space("properties", (keys.len() * vals.len() * keys.len() * vals.len()) as u64, |idx, c| {
        let mut d = Dec(idx);
        let (k1, v1, k2, v2) = (keys[d.take(keys.len())], &vals[d.take(vals.len())], keys[d.take(keys.len())], &vals[d.take(vals.len())]);
        c.log(|| format!("{:?}={:?} {:?}={:?}", k1, v1, k2, v2));
        let mut e = engine(1, 1);
        e.m.set_prop(k1, v1.clone());
        e.m.set_prop(k2, v2.clone());
        roundtrip(&mut e.m, 1, 1, &keys, c)?;
        Ok(())
    });
    // patches with everything, and their sound; saved to memory and to a file
    let mut sc: Vec<(NodeId, Vec<(ParamId, SAtom)>, usize)> = vec![];
    for n in nodes.iter() {
        for (vi, s) in setting_variants(*n).into_iter().enumerate() {
            for base in 0..3 {
                if base > 0 && vi > 4 && !mc.thorough() {
                    continue;
                }
                sc.push((*n, s.clone(), base));
            }
        }
    }
    let dir = std::env::temp_dir().join(format!("hx-c08-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let dirc = dir.clone();
    mc.space("sound", sc.len() as u64, |idx, c| {
        let (n, set, base) = &sc[idx as usize];
        let n = *n;
        if matches!(n, NodeId::Inp(_)) || (matches!(n, NodeId::FVaFilt(_)) && *base > 0) {
            return Ok(());
        }
        c.log(|| format!("{:?} settings {} base {}", n, set.len(), base));
        let build = |c: &mut Case| -> Result<Eng, String> {
            c.step();
            let mut e = engine(4, 4);
if *base > 0 {
                pvalues(&mut e.m, n, *base);
            }
            for (p, a) in set.iter() {
                if !matches!(a, SAtom::AudioSample(_)) {
                    e.m.set_param(*p, a.clone());
                }
            }
            // Inp -> T -> Out, plus a modulated input and a Code and a TSeq next to it
            e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, Some(0), Some(0)));
            let mut t = Cell::empty(n).input(if nin(n) > 0 { Some(0) } else { None }, None, None);
            if nout(n) > 0 && !matches!(n, NodeId::Out(_)) {
                t.set_io_dir(CellDir::B, 0);
            }
            if !matches!(n, NodeId::Out(_)) {
                e.m.place(0, 1, t);
                e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
            } else {
                e.m.place(0, 1, t);
            }
            if nin(n) > 1 {
                e.m.place(2, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(1)));
                e.m.place(2, 1, Cell::empty(n).input(Some(1), None, None));
            }
            e.m.place(3, 2, Cell::empty(NodeId::Code(0)).out(None, None, Some(0)));
            e.m.place(3, 3, Cell::empty(NodeId::Out(0)).input(Some(1), None, None));
            e.m.place(2, 3, Cell::empty(NodeId::TSeq(0)));
            e.m.sync().map_err(|e| format!("{:?}", e))?;
            if *base == 2 {
                for i in 0..nin(n).min(2) {
                    e.m.set_param_modamt(n.inp_param_by_idx(i).unwrap(), Some(0.4)).map_err(|e| format!("{:?}", e))?;
                }
            }
            program(&mut e.m.get_block_function(0).unwrap().lock().unwrap(), 1);
            e.m.check_block_function(0).map_err(|e| format!("{:?}", e))?;
            crate::c07::fill_pattern(&mut e.m.get_pattern_data(0).unwrap().lock().unwrap());
            e.m.set_prop("p", SAtom::str("v"));
            Ok(e)
        };
        let finish = |e: &mut Eng| {
            for _ in 0..10 {
                e.m.check_pattern_data(0);
            }
            let _ = e.m.check_block_function(0);
            // let the smoothed parameters arrive
        };
        let mut a = build(c)?;
        let mut b = roundtrip(&mut a.m, 4, 4, &["p"], c)?;
        let path = dirc.join(format!("{}.hxy", idx));
        let path = path.to_str().unwrap();
        save_patch_to_file(&mut a.m, path).map_err(|e| format!("saving: {}", e))?;
        let mut f = engine(4, 4);
        load_patch_from_file(&mut f.m, path).map_err(|e| format!("loading: {:?}", e))?;
        let _ = std::fs::remove_file(path);
        let sa = see(&mut a.m, &["p"]);
        same("patch loaded from file", &sa, &see(&mut f.m, &["p"]), c)?;
        // the original: parameters were set before any audio ran, so nothing is smoothed in either engine
        let mut o = engine(4, 4);
        std::mem::swap(&mut o, &mut a);
        finish(&mut o);
        finish(&mut b);
        finish(&mut f);
        let want = sound(&mut o, 12);
        for (nm, e) in [("memory", &mut b), ("file", &mut f)] {
            let got = sound(e, 12);
            for (ch, (g, w)) in [(&got.0, &want.0), (&got.1, &want.1)].iter().enumerate() {
                let mut bad = 0;
                for i in 0..w.len() {
                    c.checks += 1;
                    if !(g[i] == w[i] || (g[i] - w[i]).abs() <= 0.01 + 0.01 * w[i].abs() || (g[i].is_nan() && w[i].is_nan())) {
                        bad += 1;
                    }
                }
                if bad > w.len() / 50 {
                    return Err(format!("{:?}: patch loaded from {}: channel {} differs in {} of {} frames", n, nm, ch, bad, w.len()));
                }
            }
        }
        c.observe(&(bits(&want.0), bits(&want.1)));
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    // a patch in the data format survives the format itself
    mc.space("format", 1, |_, c| {
        let mut e = engine(3, 3);
        let d = save_patch_to_mem(&mut e.m);
        let mut r = MatrixRepr::read_from_mem(&d).map_err(|e| format!("{:?}", e))?;
        let t = r.serialize();
        c.checks += 1;
        if t.trim() != std::str::from_utf8(&d).unwrap().trim() {
            return Err("empty patch is not stable".into());
        }
        c.step();
        Ok(())
    });
    mc.assume("parameter values are finite and inside the range of the parameter; they are compared up to the rounding of the knob scale (2e-4)");
    mc.assume("sample data itself is not part of a patch, only the file name");
}
