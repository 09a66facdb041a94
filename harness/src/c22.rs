use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::*;
use hexodsp::*;

const POS: usize = 33;

fn pos(min: f32, max: f32, k: usize, n: usize) -> f32 {
    if k + 1 == n {
        max
    } else {
        min + (max - min) * (k as f32 / (n - 1) as f32)
    }
}

/// The released scales: one line per parameter or setting.
pub fn table() -> String {
    let mut s = String::new();
    for n in all_nodes() {
        for i in 0..nin(n) {
            let p = n.inp_param_by_idx(i).unwrap();
            let ((min, max), _) = p.param_min_max().unwrap();
            s += &format!("P\t{}\t{}\t{}\t{:?}\t{:?}\t{:?}", n.name(), i, p.name(), min, max, p.norm_def());
            for k in 0..POS {
                let x = pos(min, max, k, POS);
                let mut b = vec![];
                let _ = p.format(&mut b, x);
                s += &format!("\t{:?},{:?},{:?},{}", p.denorm(x), p.round(x, true), p.round(x, false), String::from_utf8_lossy(&b));
            }
            s += "\n";
        }
        for i in 0..nat(n) {
            let p = n.atom_param_by_idx(i).unwrap();
            if let SAtom::Setting(d) = p.as_atom_def() {
                let (min, max) = p.setting_min_max().unwrap();
                s += &format!("S\t{}\t{}\t{}\t{}\t{}\t{}\n", n.name(), p.inp(), p.name(), min, max, d);
            }
        }
    }
    s
}

fn close(a: f32, b: f32, scale: f32) -> bool {
    (a - b).abs() <= 1e-4 * a.abs().max(b.abs()) + 1e-5 * scale
}

/// text with its numbers, so that 12.50ms and 12.51ms compare with a tolerance
fn parts(s: &str) -> (Vec<f64>, String) {
    let (mut nums, mut rest, mut cur) = (vec![], String::new(), String::new());
    for ch in s.chars().chain(std::iter::once('|')) {
        if ch.is_ascii_digit() || ch == '.' || ((ch == '-' || ch == '+') && cur.is_empty()) {
            cur.push(ch);
        } else {
            match cur.parse::<f64>() {
                Ok(v) => {
                    nums.push(v);
                    rest.push('#');
                }
                _ => rest += &cur,
            }
            cur.clear();
            if ch != ' ' && ch != '|' {
                rest.push(ch);
            }
        }
    }
    (nums, rest)
}
fn same_text(a: &str, b: &str) -> bool {
    let ((na, ra), (nb, rb)) = (parts(a), parts(b));
    ra == rb && na.len() == nb.len() && na.iter().zip(nb.iter()).all(|(x, y)| (x - y).abs() <= 1e-3 * x.abs().max(y.abs()) + 1.01 * lsb(a))
}
fn lsb(s: &str) -> f64 {
    let d = s.split('.').nth(1).map(|t| t.chars().take_while(|c| c.is_ascii_digit()).count()).unwrap_or(0);
    0.1f64.powi(d as i32)
}

struct Doc {
    n: NodeId,
    para: Vec<(usize, &'static str, f32, f32, f32)>,
    atom: Vec<(usize, usize, &'static str, SAtom, i64, i64)>,
    out: Vec<(usize, &'static str)>,
}
macro_rules! gen_doc {
    ($s1: ident => $v1: ident,
        $($str: ident => $variant: ident
            UIType:: $gui_type: ident
            UICategory:: $ui_cat: ident
            $(($in_idx: literal $para: ident
               $n_fun: ident $d_fun: ident $r_fun: ident $f_fun: ident
               $steps: ident $min: expr, $max: expr, $def: expr))*
            $({$in_at_idx: literal $at_idx: literal $atom: ident
               $at_fun: ident ($at_init: expr) $at_ui: ident $fa_fun: ident
               $amin: literal $amax: literal})*
            $([$out_idx: literal $out: ident])*
            ,)+
    ) => {
        fn docs() -> Vec<Doc> {
            vec![$(Doc {
                n: NodeId::$variant(0),
                para: vec![$(($in_idx, stringify!($para), $min as f32, $max as f32, $def as f32),)*],
                atom: vec![$(($in_at_idx, $at_idx, stringify!($atom), SAtom::$at_fun($at_init), $amin, $amax),)*],
                out: vec![$(($out_idx, stringify!($out)),)*],
            },)+]
        }
    };
}
hexodsp::node_list! {gen_doc}

fn golden(mc: &mut Mc) {
    // what a stored knob position meant when the table was recorded
    let lines: Vec<&'static str> = include_str!("../data/scale.tsv").lines().collect();
    mc.space("released scales", lines.len() as u64, |i, c| {
        let f: Vec<&str> = lines[i as usize].split('\t').collect();
        let n = NodeId::from_str(&f[1].to_lowercase());
        let n = if n == NodeId::Nop { all_nodes().into_iter().find(|n| n.name() == f[1]).ok_or(format!("node {} is gone", f[1]))? } else { n };
        let p = n.inp_param(f[3]).ok_or(format!("{} has lost {}", f[1], f[3]))?;
        let num = |s: &str| s.parse::<f32>().unwrap();
        if p.inp() as usize != f[2].parse::<usize>().unwrap() {
            return Err(format!("{} {} has index {}, was {}", f[1], f[3], p.inp(), f[2]));
        }
        if f[0] == "S" {
            let want = (f[4].parse::<i64>().unwrap(), f[5].parse::<i64>().unwrap());
            c.step();
            c.checks += 2;
            if p.setting_min_max() != Some(want) {
                return Err(format!("{} {} has limits {:?}, were {:?}", f[1], f[3], p.setting_min_max(), want));
            }
            if p.as_atom_def().i() != f[6].parse::<i64>().unwrap() {
                return Err(format!("{} {} has default {:?}, was {}", f[1], f[3], p.as_atom_def(), f[6]));
            }
            return Ok(());
        }
        let ((min, max), _) = p.param_min_max().ok_or("no range")?;
        if !close(min, num(f[4]), 0.1) || !close(max, num(f[5]), 0.1) || !close(p.norm_def(), num(f[6]), 0.1) {
            return Err(format!("{} {} has range {} .. {} default {}, was {:?}", f[1], f[3], min, max, p.norm_def(), &f[4..7]));
        }
        let span = (p.denorm(num(f[5])) - p.denorm(num(f[4]))).abs();
        for k in 0..POS {
            c.step();
            c.checks += 4;
            let x = pos(num(f[4]), num(f[5]), k, POS);
            let g: Vec<&str> = f[7 + k].splitn(4, ',').collect();
            let (d, rc, rf) = (p.denorm(x), p.round(x, true), p.round(x, false));
            if !close(d, num(g[0]), span * 0.1) {
                return Err(format!("{} {}: position {} means {}, was {}", f[1], f[3], x, d, g[0]));
            }
            // a position half way between two steps may go either way
            if !near_tie(&p, x, true, num(g[1])) || !near_tie(&p, x, false, num(g[2])) {
                return Err(format!("{} {}: position {} snaps to {} / {}, was {} / {}", f[1], f[3], x, rc, rf, g[1], g[2]));
            }
            let mut b = vec![];
            p.format(&mut b, x).ok_or("no text")?.map_err(|e| e.to_string())?;
            let t = String::from_utf8_lossy(&b);
            if !same_text(&t, g[3]) {
                return Err(format!("{} {}: position {} is shown as {:?}, was {:?}", f[1], f[3], x, t, g[3]));
            }
        }
        c.observe(&f[7]);
        Ok(())
    });
}
fn near_tie(p: &ParamId, x: f32, coarse: bool, want: f32) -> bool {
    [0.0f32, 1e-5, -1e-5].iter().any(|e| close(p.round(x + e, coarse), want, 1.0))
}

fn naming(mc: &mut Mc) {
    let ds = docs();
    mc.space("names, indices, defaults", ds.len() as u64, |i, c| {
        let d = &ds[i as usize];
        let n = d.n.to_instance(i as usize % 3);
        c.log(|| format!("{}", n));
        if NodeId::from_str(n.name()) != d.n || n.instance() != i as usize % 3 || !n.eq_variant(&d.n) {
            return Err(format!("{} is read back from its name as {}", n, NodeId::from_str(n.name())));
        }
        let info = NodeInfo::from_node_id(n);
        if (info.in_count(), info.at_count(), info.out_count()) != (d.para.len(), d.atom.len(), d.out.len()) || info.to_id() != n {
            return Err(format!("{}: counts {} {} {}", n, info.in_count(), info.at_count(), info.out_count()));
        }
        let mut e = crate::eng::engine(3, 3);
        e.m.place(1, 1, Cell::empty(n));
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        for (k, &(idx, name, min, max, def)) in d.para.iter().enumerate() {
            c.step();
            c.checks += 8;
            let p = n.inp_param(name).ok_or(format!("{} knows no {}", n, name))?;
            let ok = idx == k
                && p.inp() as usize == idx
                && p.name() == name
                && p.node_id() == n
                && !p.is_atom()
                && n.inp(name) == Some(idx as u8)
                && n.inp_name_by_idx(idx as u8) == Some(name)
                && n.param_by_idx(idx) == Some(p)
                && n.inp_param_by_idx(idx) == Some(p)
                && info.in_name(idx) == Some(name);
            if !ok {
                return Err(format!("{} {}: names and indices disagree", n, name));
            }
            if p.param_min_max().map(|x| x.0) != Some((min, max)) {
                return Err(format!("{} {}: range {:?}", n, name, p.param_min_max()));
            }
            for q in 0..9 {
                let x = pos(min, max, q, 9);
                if info.denorm(idx, x).to_bits() != p.denorm(x).to_bits() || info.norm(idx, p.denorm(x)).to_bits() != p.norm(p.denorm(x)).to_bits() {
                    return Err(format!("{} {}: the node information converts {} differently", n, name, x));
                }
            }
            // the default means what the node list says (PVerb's 0 Hz cutoffs lie below the scale)
            let v = p.denorm(p.norm_def());
            let span = (p.denorm(max) - p.denorm(min)).abs();
            if !close(v, def, span * 0.1) && !(def == 0.0 && v < 1.0 && n.name() == "pverb") {
                return Err(format!("{} {}: default {} is {}", n, name, def, v));
            }
            if n.name() != "pverb" && !(p.norm_def() >= min - 1e-6 && p.norm_def() <= max + 1e-6) {
                return Err(format!("{} {}: default position {} outside of {} .. {}", n, name, p.norm_def(), min, max));
            }
            match (p.as_atom_def(), e.m.get_param(&p)) {
                (SAtom::Param(a), Some(SAtom::Param(b))) if a == p.norm_def() && a == b => {}
                o => return Err(format!("{} {}: default {:?} but norm_def {}", n, name, o, p.norm_def())),
            }
        }
        for (pos, &(idx, at, name, ref def, amin, amax)) in d.atom.iter().enumerate() {
            c.step();
            c.checks += 6;
            let p = n.inp_param(name).ok_or(format!("{} knows no {}", n, name))?;
            let ok = p.inp() as usize == idx
                && idx == d.para.len() + pos
                && p.name() == name
                && p.node_id() == n
                && p.is_atom()
                && n.inp(name).is_none()
                && n.inp_name_by_idx(idx as u8) == Some(name)
                && n.param_by_idx(idx) == Some(p)
                && n.inp_param_by_idx(idx).is_none()
                && n.atom_param_by_idx(at) == Some(p)
                && info.at_name(pos) == Some(name)
                && info.in_help(idx).is_some();
            if !ok {
                return Err(format!("{} {}: names and indices disagree", n, name));
            }
            if p.setting_min_max() != Some((amin, amax)) {
                return Err(format!("{} {}: limits {:?}", n, name, p.setting_min_max()));
            }
            if &p.as_atom_def() != def || e.m.get_param(&p).as_ref() != Some(def) {
                return Err(format!("{} {}: default {:?} / {:?}, should be {:?}", n, name, p.as_atom_def(), e.m.get_param(&p), def));
            }
            if let SAtom::Setting(v) = def {
                if amin < amax && !(*v >= amin && *v <= amax) {
                    return Err(format!("{} {}: default {} outside of {} .. {}", n, name, v, amin, amax));
                }
                for v in amin..=amax.min(amin + 200) {
                    let mut b = vec![];
                    match p.format(&mut b, v as f32) {
                        Some(Ok(())) if !b.is_empty() => {}
                        o => return Err(format!("{} {}: setting {} formats as {:?}", n, name, v, o)),
                    }
                }
            }
        }
        let cnt = d.para.len() + d.atom.len();
        if n.param_by_idx(cnt).is_some() || n.inp_param_by_idx(d.para.len()).is_some() || n.atom_param_by_idx(d.atom.len()).is_some() {
            return Err(format!("{} answers for parameters it does not have", n));
        }
        for &(idx, name) in &d.out {
            c.step();
            c.checks += 3;
            if n.out(name) != Some(idx as u8) || n.out_name_by_idx(idx as u8) != Some(name) || info.out_name(idx) != Some(name) {
                return Err(format!("{} output {}: names and indices disagree", n, name));
            }
        }
        c.observe(&n.name());
        Ok(())
    });
}

pub fn run(mc: &mut Mc) {
    golden(mc);
    naming(mc);
    mc.rule = "every knob position of the grid, for every parameter of every node, on the real conversion functions".into();
    let ps: Vec<ParamId> = all_nodes().iter().flat_map(|n| (0..nin(*n)).map(|i| n.inp_param_by_idx(i).unwrap()).collect::<Vec<_>>()).collect();
    let grid = mc.pick(4097usize, 262145);
    mc.space("scales", ps.len() as u64, |i, c| {
        let p = ps[i as usize];
        let ((min, max), (st_c, st_f)) = p.param_min_max().ok_or("no range")?;
        c.log(|| format!("{} {}: {} .. {}", p.node_id(), p.name(), min, max));
        if !(min < max) || !(st_c > 0.0 && st_f >= st_c) {
            return Err(format!("range {} {} steps {} {}", min, max, st_c, st_f));
        }
        let (dmin, dmax) = (p.denorm(min), p.denorm(max));
        let span = (dmax - dmin).abs();
        if !(span > 0.0) || !span.is_finite() {
            return Err(format!("the values at the ends of the range are {} and {}", dmin, dmax));
        }
        let (vlo, vhi) = (dmin.min(dmax), dmin.max(dmax));
        let up = dmax > dmin;
        let mut last: Option<f32> = None;
        let mut lround: [Option<f32>; 2] = [None; 2];
        for k in 0..grid {
            c.step();
            c.checks += 6;
            let x = pos(min, max, k, grid);
            let d = p.denorm(x);
            let at = || format!("{} {} at position {}", p.node_id(), p.name(), x);
            if !d.is_finite() {
                return Err(format!("{}: value {}", at(), d));
            }
            if d < vlo - 1e-5 * span || d > vhi + 1e-5 * span {
                return Err(format!("{}: value {} outside of {} .. {}", at(), d, vlo, vhi));
            }
            if let Some(l) = last {
                let tol = 1e-6 * l.abs().max(d.abs());
                if (up && d < l - tol) || (!up && d > l + tol) {
                    return Err(format!("{}: value {} after {}: not monotone", at(), d, l));
                }
            }
            last = Some(d);
            let y = p.norm(d);
            let back = p.denorm(y);
            // either the position comes back, or (where the scale is flat) one with the same value
            if !y.is_finite() || !((y - x).abs() <= 2e-3 * (max - min) || close(back, d, span * 0.01)) || !close(back, d, span) {
                return Err(format!("{}: value {} is position {}, that is value {}", at(), d, y, back));
            }
            for (q, coarse) in [(0, true), (1, false)] {
                let r = p.round(x, coarse);
                let rd = p.denorm(r);
                if !r.is_finite() || !rd.is_finite() {
                    return Err(format!("{}: snaps to {}", at(), r));
                }
                let rr = p.denorm(p.round(r, coarse));
                if !close(rr, rd, span) {
                    return Err(format!("{}: snaps (coarse {}) to {} = {}, and that again to {}", at(), coarse, r, rd, rr));
                }
                if let Some(l) = lround[q] {
                    if r < l - 1e-4 * (max - min) {
                        return Err(format!("{}: snaps (coarse {}) to {}, a lower position snaps to {}", at(), coarse, r, l));
                    }
                }
                lround[q] = Some(r);
                if (r - x).abs() > 0.26 * (max - min) {
                    return Err(format!("{}: snaps (coarse {}) to {}", at(), coarse, r));
                }
                if r < min - 0.06 * (max - min) || r > max + 0.06 * (max - min) {
                    return Err(format!("{}: snaps (coarse {}) out of range, to {}", at(), coarse, r));
                }
            }
            let mut buf = vec![];
            match p.format(&mut buf, x) {
                Some(Ok(())) if !buf.is_empty() => {}
                o => return Err(format!("{}: formats as {:?} {:?}", at(), o, buf)),
            }
        }
        c.observe(&(dmin.to_bits(), dmax.to_bits()));
        Ok(())
    });
}
