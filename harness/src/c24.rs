use crate::eng::*;
use crate::mc::*;
use hexodsp::wblockdsp::*;
use hexodsp::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use synfx_dsp_jit::{build, ASTFun, DSPNodeContext, DSPNodeTypeLibrary, JIT};

/// a block type with its drawing: (name, label, rows of inputs by name, rows of outputs by name, shifts)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tile {
    typ: &'static str,
    lbl: &'static str,
    rows: i64,
    /// input k (in the order of the definition) sits in this row
    ins: &'static [i64],
    outs: &'static [i64],
    /// shift_port calls that draw it like that: (row, is output)
    shifts: &'static [(usize, bool)],
}
const fn t(typ: &'static str, lbl: &'static str, rows: i64, ins: &'static [i64], outs: &'static [i64], shifts: &'static [(usize, bool)]) -> Tile {
    Tile { typ, lbl, rows, ins, outs, shifts }
}
const NONE: Tile = t("", "", 1, &[], &[], &[]);
const IN1: Tile = t("get", "in1", 1, &[], &[0], &[]);
const HALF: Tile = t("value", "0.25", 1, &[], &[0], &[]);
const GETX: Tile = t("get", "*x", 1, &[], &[0], &[]);
const GETA: Tile = t("get", "loc", 1, &[], &[0], &[]);
const SIG: Tile = t("get", "&sig1", 1, &[], &[0], &[]);
const FWD: Tile = t("->", "", 1, &[0], &[0], &[]);
const SIN: Tile = t("sin", "", 1, &[0], &[0], &[]);
const SETX: Tile = t("set", "*x", 1, &[0], &[], &[]);
const SETA: Tile = t("set", "loc", 1, &[0], &[], &[]);
const SET1: Tile = t("set", "&sig1", 1, &[0], &[], &[]);
const SET2: Tile = t("set", "&sig2", 1, &[0], &[], &[]);
const ADD: Tile = t("+", "", 2, &[0, 1], &[0], &[]);
const ADDO: Tile = t("+", "", 2, &[0, 1], &[1], &[(0, true)]);
const MUL: Tile = t("*", "", 2, &[0, 1], &[0], &[]);
const SUB: Tile = t("-", "", 2, &[0, 1], &[0], &[]);
const SUBX: Tile = t("-", "", 2, &[1, 0], &[0], &[(0, false)]);
const DIVX: Tile = t("/", "", 2, &[1, 0], &[1], &[(0, false), (0, true)]);
const TWO: Tile = t("->2", "", 2, &[0], &[0, 1], &[]);
const TWOI: Tile = t("->2", "", 2, &[1], &[0, 1], &[(0, false)]);
const THREE: Tile = t("->3", "", 3, &[1], &[0, 1, 2], &[(0, false)]);
const DR: Tile = t("/%", "", 2, &[0, 1], &[0, 1], &[]);
const DRX: Tile = t("/%", "", 2, &[1, 0], &[1, 0], &[(0, false), (0, true)]);
const ACC: Tile = t("accum", "", 2, &[0, 1], &[0], &[]);
const ACCX: Tile = t("accum", "", 2, &[1, 0], &[1], &[(0, false), (0, true)]);

type Prog = Vec<(i64, i64, Tile)>;

/// every way to fill a column of `rows` rows
fn columns(rows: i64, tiles: &[Tile]) -> Vec<Vec<(i64, Tile)>> {
    fn go(y: i64, rows: i64, tiles: &[Tile], cur: &mut Vec<(i64, Tile)>, out: &mut Vec<Vec<(i64, Tile)>>) {
        if y == rows {
            out.push(cur.clone());
            return;
        }
        for t in tiles {
            if y + t.rows <= rows {
                if !t.typ.is_empty() {
                    cur.push((y, *t));
                }
                go(y + t.rows, rows, tiles, cur, out);
                if !t.typ.is_empty() {
                    cur.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(0, rows, tiles, &mut vec![], &mut out);
    out
}

/// what the drawing means
struct Eval<'a> {
    p: &'a Prog,
    pers: BTreeMap<&'static str, f64>,
    acc: HashMap<usize, f64>,
}
struct Frame {
    in1: f64,
    loc: BTreeMap<&'static str, f64>,
    memo: HashMap<usize, Vec<f64>>,
}
impl<'a> Eval<'a> {
    fn at(&self, x: i64, y: i64) -> Option<usize> {
        self.p.iter().position(|(bx, by, t)| *bx == x && *by <= y && y < *by + t.rows)
    }
    /// the signal that arrives at row y from the left of column x
    fn input(&mut self, x: i64, y: i64, f: &mut Frame) -> f64 {
        match self.at(x - 1, y) {
            Some(b) => {
                let row = y - self.p[b].1;
                match self.p[b].2.outs.iter().position(|r| *r == row) {
                    Some(o) => self.block(b, f)[o],
                    None => 0.0,
                }
            }
            None => 0.0,
        }
    }
    fn block(&mut self, b: usize, f: &mut Frame) -> Vec<f64> {
        if let Some(v) = f.memo.get(&b) {
            return v.clone();
        }
        let (x, y, t) = self.p[b];
        let a: Vec<f64> = t.ins.iter().map(|r| self.input(x, y + r, f)).collect();
        let v = match t.typ {
            "get" => match t.lbl {
                "in1" => vec![f.in1],
                "*x" => vec![*self.pers.get("*x").unwrap_or(&0.0)],
                n => vec![*f.loc.get(n).unwrap_or(&0.0)],
            },
            "value" => vec![t.lbl.parse().unwrap()],
            "->" => vec![a[0]],
            "->2" => vec![a[0]; 2],
            "->3" => vec![a[0]; 3],
            "sin" => vec![a[0].sin()],
            "+" => vec![a[0] + a[1]],
            "*" => vec![a[0] * a[1]],
            "-" => vec![a[0] - a[1]],
            "/" => vec![a[0] / a[1]],
            "/%" => vec![a[0] / a[1], a[0] % a[1]],
            "accum" => {
                let s = self.acc.entry(b).or_insert(0.0);
                *s = if a[1] > 0.5 { 0.0 } else { *s + a[0] };
                vec![*s]
            }
            _ => unreachable!(),
        };
        f.memo.insert(b, v.clone());
        v
    }
    fn frame(&mut self, in1: f64) -> (f64, f64, f64) {
        let mut f = Frame { in1, loc: BTreeMap::new(), memo: HashMap::new() };
        // the ends: blocks without outputs, and outputs nothing is connected to; from top to bottom
        let mut ends: Vec<(i64, i64, usize, Option<usize>)> = vec![];
        for (b, (x, y, t)) in self.p.iter().enumerate() {
            if t.outs.is_empty() {
                ends.push((*y, *x, b, None));
            }
            for (o, r) in t.outs.iter().enumerate() {
                let used = self.at(x + 1, y + r).map(|n| self.p[n].2.ins.contains(&(y + r - self.p[n].1))).unwrap_or(false);
                if !used {
                    ends.push((y + r, *x, b, Some(o)));
                }
            }
        }
        ends.sort();
        let mut res = 0.0;
        for (_, _, b, o) in ends {
            match o {
                Some(o) => res = self.block(b, &mut f)[o],
                None => {
                    let (x, y, t) = self.p[b];
                    let v = self.input(x, y, &mut f);
                    if t.lbl == "*x" {
                        self.pers.insert("*x", v);
                    } else {
                        f.loc.insert(t.lbl, v);
                    }
                }
            }
        }
        (*f.loc.get("&sig1").unwrap_or(&0.0), *f.loc.get("&sig2").unwrap_or(&0.0), res)
    }
}

thread_local! {
    static LIB: (Rc<RefCell<DSPNodeTypeLibrary>>, Rc<RefCell<BlockLanguage>>) = {
        let l = synfx_dsp_jit::get_standard_library();
        let g = setup_hxdsp_block_language(l.clone());
        (l, g)
    };
}
fn lib() -> Rc<RefCell<DSPNodeTypeLibrary>> {
    LIB.with(|l| l.0.clone())
}
fn draw(f: &mut BlockFun, p: &Prog) -> Result<(), String> {
    for (x, y, t) in p {
        f.instanciate_at(0, *x, *y, t.typ, if t.lbl.is_empty() { None } else { Some(t.lbl.into()) }).map_err(|e| format!("{:?}", e))?;
        for (r, o) in t.shifts {
            f.shift_port(0, *x, *y, *r, *o);
        }
    }
    Ok(())
}
type Out3 = (f64, f64, f64);
fn run_ast(ast: Box<synfx_dsp_jit::ASTNode>, ins: &[f64]) -> Result<Vec<Out3>, String> {
    let ctx = DSPNodeContext::new_ref();
    let jit = JIT::new(lib(), ctx.clone());
    let r = jit.compile(ASTFun::new(ast)).map_err(|e| format!("{:?}", e)).map(|mut fun| {
        fun.init(44100.0, None);
        let o = ins.iter().map(|i| fun.exec_2in_2out(*i, 0.0)).collect();
        ctx.borrow_mut().cleanup_dsp_fun_after_user(fun);
        o
    });
    ctx.borrow_mut().free();
    r
}
fn run_blocks(p: &Prog, ins: &[f64]) -> Result<Vec<Out3>, String> {
    let mut f = BlockFun::new(LIB.with(|l| l.1.clone()));
    draw(&mut f, p)?;
    let mut comp = Block2JITCompiler::new(f.block_language());
    let ast = comp.compile(&f).map_err(|e| format!("{:?}", e))?;
    run_ast(ast, ins)
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}
fn name(p: &Prog) -> String {
    p.iter().map(|(x, y, t)| format!("{}{}{}@{},{}", t.typ, if t.lbl.is_empty() { "".into() } else { format!("[{}]", t.lbl) }, if t.shifts.is_empty() { "" } else { "~" }, x, y)).collect::<Vec<_>>().join(" ")
}
fn judge(p: &Prog, c: &mut Case) -> Result<(), String> {
    let ins = [0.75, -1.5, 2.25, 0.5];
    c.log(|| name(p));
    let got = guarded(|| run_blocks(p, &ins)).map_err(|e| format!("{}: {}", name(p), e))?.map_err(|e| format!("{}: not compiled: {}", name(p), e))?;
    let mut e = Eval { p, pers: BTreeMap::new(), acc: HashMap::new() };
    for (k, i) in ins.iter().enumerate() {
        let w = e.frame(*i);
        c.step();
        c.checks += 3;
        if !same(got[k].0, w.0) || !same(got[k].1, w.1) || !same(got[k].2, w.2) {
            return Err(format!("{}: frame {} computes {:?}, the drawing says {:?}", name(p), k, got[k], w));
        }
    }
    c.observe(&got.iter().map(|g| (g.0.to_bits(), g.1.to_bits(), g.2.to_bits())).collect::<Vec<_>>());
    Ok(())
}

fn place(cols: &[(i64, &Vec<(i64, Tile)>)]) -> Prog {
    cols.iter().flat_map(|(x, c)| c.iter().map(move |(y, t)| (*x, *y, *t))).collect()
}

pub fn run(mc: &mut Mc) {
    mc.rule = "every filling of the columns with the tiles (drawn in every port order they can have), compiled by the real compiler and JIT and run for four frames, against an evaluator of the drawing".into();

    // sources, two columns of operations
    let src = columns(3, &[NONE, IN1, HALF, GETX]);
    let c1 = columns(3, &[NONE, FWD, SETX, ADD, SUB, SUBX, TWO, TWOI, DR, ADDO]);
    let c2 = columns(3, &[NONE, SET1, ADD, SUBX, DR, TWO]);
    let srcq: Vec<_> = src.iter().filter(|s| mc.thorough() || s.len() == 3 || s.len() == 1).cloned().collect();
    let n = (srcq.len() * c1.len() * c2.len()) as u64;
    let order = mc.thorough();
    mc.space("three columns", n, |i, c| {
        let mut d = Dec(i);
        let (a, b, e) = (&srcq[d.take(srcq.len())], &c1[d.take(c1.len())], &c2[d.take(c2.len())]);
        let p = place(&[(1, a), (2, b), (3, e)]);
        judge(&p, c)?;
        if order {
            // the same drawing, made in the other order
            let r: Prog = p.iter().rev().copied().collect();
            judge(&r, c)?;
        }
        Ok(())
    });

    // one source, shared by splitters, recombined in two more columns
    let c1 = columns(3, &[NONE, TWO, THREE, DR, DRX, FWD]);
    let c2 = columns(3, &[NONE, FWD, SIN, ADD, SUBX, TWO, TWOI, SETA]);
    let c3 = columns(3, &[NONE, SET2, SUBX, DIVX, ACCX]);
    let c3: Vec<_> = c3.into_iter().filter(|k| !k.is_empty()).collect();
    let s: Vec<Vec<(i64, Tile)>> = vec![vec![(0, IN1)], vec![(1, IN1)], vec![(0, IN1), (1, HALF)], vec![(0, HALF), (1, IN1), (2, GETX)]];
    let s: Vec<_> = s.into_iter().skip(mc.pick(2, 0)).collect();
    let n = (s.len() * c1.len() * c2.len() * c3.len()) as u64;
    mc.space("split and recombined", n, |i, c| {
        let mut d = Dec(i);
        let (a, b, e, f) = (&s[d.take(s.len())], &c1[d.take(c1.len())], &c2[d.take(c2.len())], &c3[d.take(c3.len())]);
        judge(&place(&[(0, a), (1, b), (2, e), (3, f)]), c)
    });

    // variables: the order of the ends from top to bottom decides
    let rowt: Vec<Vec<(i64, Tile)>> = {
        let srcs = [IN1, HALF, GETX, GETA, SIG];
        let ends = [NONE, FWD, SETX, SETA, SET1];
        srcs.iter().flat_map(|s| ends.iter().map(move |e| if e.typ.is_empty() { vec![(0, *s)] } else { vec![(0, *s), (1, *e)] })).collect()
    };
    let rows = mc.pick(3u32, 4);
    mc.space("variables", pow(rowt.len() as u64, rows), |i, c| {
        let mut d = Dec(i);
        let mut p: Prog = vec![];
        for y in 0..rows as i64 {
            for (x, t) in &rowt[d.take(rowt.len())] {
                // every second row further right
                p.push((x + 2 * (y % 2), y, *t));
            }
        }
        judge(&p, c)
    });

    // stateful blocks keep a state of their own
    let c0 = columns(4, &[IN1, HALF]);
    let c1 = columns(4, &[NONE, FWD, ACC, ACCX, MUL]);
    let c1: Vec<_> = c1.into_iter().filter(|k| k.iter().any(|t| t.1.typ == "accum")).collect();
    let c2 = columns(4, &[NONE, ADD, SUBX, ACC, SET1]);
    mc.space("states", (c0.len() * c1.len() * c2.len()) as u64, |i, c| {
        let mut d = Dec(i);
        let (a, b, e) = (&c0[d.take(c0.len())], &c1[d.take(c1.len())], &c2[d.take(c2.len())]);
        judge(&place(&[(0, a), (1, b), (2, e)]), c)
    });

    library(mc);
    histories(mc);
    names(mc);
}

/// every block of the language in every drawing, against the function called directly
fn library(mc: &mut Mc) {
    let list: Vec<String> = {
        let mut l: Vec<String> = LIB.with(|l| l.1.borrow().get_type_list().into_iter().map(|t| t.1).collect());
        l.sort();
        l
    };
    mc.space("every block of the language", list.len() as u64 * 9 * 3, |i, c| {
        let mut d = Dec(i);
        let n = &list[d.take(list.len())];
        let (si, so) = (d.take(9), d.take(3));
        c.log(|| format!("{} inputs shifted {} outputs {}", n, si, so));
        let lang = LIB.with(|l| l.1.clone());
        let ins: Vec<String> = lang.borrow().get_type_inputs(n).unwrap_or(&[]).iter().flatten().cloned().collect();
        let outs: Vec<String> = lang.borrow().get_type_outputs(n).unwrap_or(&[]).iter().flatten().cloned().collect();
        let mut f = BlockFun::new(lang.clone());
        let lbl = match n.as_str() {
            "value" => Some("0.375".to_string()),
            "set" => Some("&sig1".to_string()),
            "get" => Some("in1".to_string()),
            _ => None,
        };
        f.instanciate_at(0, 1, 0, n, lbl).map_err(|e| format!("{:?}", e))?;
        let rows = f.block_at(0, 1, 0).ok_or("not placed")?.rows();
        // draw it differently
        for k in 0..si {
            f.shift_port(0, 1, 0, (k / rows.max(1)) % rows, false);
        }
        for k in 0..so {
            f.shift_port(0, 1, 0, k % rows, true);
        }
        // which input sits where, as the user sees it
        let mut at: Vec<(usize, String)> = vec![];
        let mut oat: Vec<(usize, String)> = vec![];
        {
            let b = f.block_ref(0, 1, 0).ok_or("gone")?;
            b.for_input_ports(|r, l| at.push((r, l.to_string())));
            b.for_output_ports(|r, l| oat.push((r, l.to_string())));
        }
        if at.len() != ins.len() || oat.len() != outs.len() {
            return Err(format!("{}: {} inputs and {} outputs are drawn", n, at.len(), oat.len()));
        }
        // every input of the definition gets its own value
        let mut val: HashMap<usize, f64> = HashMap::new();
        for (j, (r, l)) in at.iter().enumerate() {
            let k = if l.is_empty() { j } else { ins.iter().position(|x| x == l).unwrap() };
            val.insert(k, 0.3 + 0.45 * k as f64);
            f.instanciate_at(0, 0, *r as i64, "value", Some(format!("{}", val[&k]))).map_err(|e| format!("{:?}", e))?;
        }
        // the first output goes to sig1, the second to sig2
        for (j, (r, l)) in oat.iter().enumerate() {
            let k = if l.is_empty() { j } else { outs.iter().position(|x| x == l).unwrap() };
            f.instanciate_at(0, 2, *r as i64, "set", Some(["&sig1", "&sig2", "third"][k.min(2)].into())).map_err(|e| format!("{:?}", e))?;
        }
        c.step();
        c.checks += 3;
        let frames = [0.0, 0.5, -0.25, 1.0];
        let mut comp = Block2JITCompiler::new(f.block_language());
        let got = guarded(|| comp.compile(&f).map_err(|e| format!("{:?}", e)).and_then(|a| run_ast(a, &frames)))?;
        let arg = |k: usize| build::literal(val[&k]);
        use std::f64::consts::*;
        let one = |a: Box<synfx_dsp_jit::ASTNode>| build::stmts(&[build::assign("&sig1", a), build::literal(0.0)]);
        let want = match n.as_str() {
            "if" => {
                // not supported by the compiler
                return Ok(());
            }
            "zero" => one(build::literal(0.0)),
            "π" => one(build::literal(PI)),
            "2π" => one(build::literal(TAU)),
            "value" => one(build::literal(0.375)),
            "get" => one(build::var("in1")),
            "->" | "set" => one(arg(0)),
            "->2" | "->3" => build::stmts(&[build::assign("&sig1", arg(0)), build::assign("&sig2", arg(0)), build::literal(0.0)]),
            "+" => one(build::op_add(arg(0), arg(1))),
            "-" => one(build::op_sub(arg(0), arg(1))),
            "*" => one(build::op_mul(arg(0), arg(1))),
            "/" => one(build::op_div(arg(0), arg(1))),
            _ => {
                let args: Vec<_> = (0..ins.len()).map(|k| arg(k)).collect();
                let call = build::call(n, 1, &args);
                if outs.len() > 1 {
                    build::stmts(&[build::assign("&sig1", call), build::assign("&sig2", build::var("%1")), build::literal(0.0)])
                } else {
                    one(call)
                }
            }
        };
        let want = run_ast(want, &frames).map_err(|e| format!("direct call of {}: {}", n, e))?;
        match got {
            Ok(g) => {
                if g.iter().zip(want.iter()).any(|(g, w)| !same(g.0, w.0) || !same(g.1, w.1)) {
                    return Err(format!("{} with inputs at {:?}, outputs at {:?} computes {:?}, should be {:?}", n, at, oat, g, want));
                }
            }
            Err(e) => return Err(format!("{} does not compile: {}", n, e)),
        }
        c.observe(&(n, want[0].0.to_bits()));
        Ok(())
    });
}

/// programs drawn, checked and played in the real Code node
fn histories(mc: &mut Mc) {
    // (drawing, Some(f(in1, alpha)) or cannot be compiled)
    fn good(k: usize, x: f32, a: f32) -> f32 {
        match k {
            0 => 0.0,
            1 => x,
            2 => x * a,
            _ => 0.25 - x,
        }
    }
    fn drawing(f: &mut BlockFun, k: usize) {
        // an empty program first
        for x in 0..4 {
            for y in 0..4 {
                let _ = f.remove_at(0, x, y);
            }
        }
        let mut put = |x: i64, y: i64, t: &str, l: Option<&str>| f.instanciate_at(0, x, y, t, l.map(|s| s.to_string())).unwrap();
        match k {
            0 => {}
            1 => put(0, 0, "get", Some("in1")),
            2 => {
                put(0, 0, "get", Some("in1"));
                put(0, 1, "get", Some("alpha"));
                put(1, 0, "*", None);
            }
            3 => {
                put(0, 0, "value", Some("0.25"));
                put(0, 1, "get", Some("in1"));
                put(1, 0, "-", None);
            }
            4 => put(0, 0, "if", None),
            _ => put(0, 0, "value", Some("0.x")),
        }
    }
    const P: u64 = 6;
    // draw k, check, audio (two instances)
    let depth = mc.pick(4u32, 5);
    let ops = 2 * P + 2 + 1;
    mc.space("histories of programs", pow(ops, depth), |i, c| {
        let mut d = Dec(i);
        let seq: Vec<u64> = (0..depth).map(|_| d.take(ops as usize) as u64).collect();
        let mut e = engine(3, 4);
        // Code 0 plays on the left, Code 1 on the right
        e.m.place(1, 2, Cell::empty(NodeId::Out(0)).input(Some(0), Some(1), None));
        e.m.place(1, 1, Cell::empty(NodeId::Code(0)).out(None, None, Some(0)));
        let p = CellDir::TL.offs_pos((1, 2)).ok_or("no place")?;
        e.m.place(p.0, p.1, Cell::empty(NodeId::Code(1)).out(None, Some(0), None));
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        let (mut drawn, mut playing) = ([0usize; 2], [0usize; 2]);
        let mut dirty = [false; 2];
        let x = [0.5f32, 0.375];
        let a = [0.75f32, 0.25];
        for n in 0..2 {
            let id = NodeId::Code(n as u8);
            e.m.set_param(pid(id, "in1"), SAtom::param(x[n]));
            e.m.set_param(pid(id, "alpha"), SAtom::param(a[n]));
        }
        e.settle(8);
        for s in seq.iter().chain([ops - 3, ops - 2, ops - 1].iter()) {
            c.step();
            let s = *s;
            if s < 2 * P {
                let (n, k) = ((s / P) as usize, (s % P) as usize);
                c.log(|| format!("program {} into Code {}", k, n));
                let f = e.m.get_block_function(n).ok_or("no block function")?;
                drawing(&mut f.lock().unwrap(), k);
                drawn[n] = k;
                dirty[n] = true;
            } else if s < 2 * P + 2 {
                let n = (s - 2 * P) as usize;
                let r = guarded(|| e.m.check_block_function(n))?;
                c.log(|| format!("check Code {}: {:?}", n, r.is_ok()));
                c.checks += 1;
                if dirty[n] {
                    if r.is_ok() != (drawn[n] < 4) {
                        return Err(format!("checking program {} answers {:?}", drawn[n], r));
                    }
                    if drawn[n] < 4 {
                        playing[n] = drawn[n];
                    }
                    dirty[n] = false;
                }
            } else {
                let (l, r) = guarded(|| e.audio(&[0.0; 16]))?;
                c.log(|| format!("audio {} {}", l[15], r[15]));
                c.checks += 2;
                for (n, o) in [&l, &r].iter().enumerate() {
                    let w = good(playing[n], x[n], a[n]);
                    if o.iter().any(|g| (g - w).abs() > 1e-5) {
                        return Err(format!("Code {} plays {:?}, its program {} says {}", n, o, playing[n], w));
                    }
                }
            }
        }
        c.observe(&(playing, drawn));
        Ok(())
    });
}


/// everything a program can read, at every output of the real Code node
fn names(mc: &mut Mc) {
    let mut list: Vec<String> = LIB.with(|l| l.1.borrow().list_identifiers());
    for x in ["in1", "in2", "alpha", "beta", "delta", "gamma", "$srate", "$israte"] {
        if !list.iter().any(|l| l == x) {
            list.push(x.to_string());
        }
    }
    mc.space("offered variables", list.len() as u64 * 3 * 2 * 2, |i, c| {
        let mut d = Dec(i);
        let id = &list[d.take(list.len())];
        let o = d.take(3);
        let rate = [44100.0f32, 22050.0][d.take(2)];
        let inst = d.take(2) * 3;
        let mut e = engine(3, 4);
        e.x.set_sample_rate(rate);
        let code = NodeId::Code(inst as u8);
        e.m.place(1, 1, Cell::empty(code).out(None, None, Some(o as u8)));
        e.m.place(1, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        let vals = [0.5f32, -0.25, 0.375, 0.125, -0.75, 0.9];
        for (k, v) in vals.iter().enumerate() {
            e.m.set_param(code.inp_param_by_idx(k).ok_or("no input")?, SAtom::param(*v));
        }
        {
            let f = e.m.get_block_function(inst).ok_or("no program")?;
            let mut f = f.lock().map_err(|_| "poisoned")?;
            let mut put = |x: i64, y: i64, t: &str, l: Option<String>| f.instanciate_at(0, x, y, t, l).map_err(|e| format!("{:?}", e));
            // a value scaled to the range of sound
            let k = match id.as_str() {
                "$srate" => "0.00001",
                "$israte" => "10000.0",
                _ => "1.0",
            };
            put(0, 0, "get", Some(id.clone()))?;
            put(0, 1, "value", Some(k.into()))?;
            put(1, 0, "*", None)?;
            match o {
                1 => put(2, 0, "set", Some("&sig1".into()))?,
                2 => put(2, 0, "set", Some("&sig2".into()))?,
                _ => put(2, 0, "->", None)?,
            }
        }
        e.m.check_block_function(inst).map_err(|e| format!("{}: {:?}", id, e))?;
        for _ in 0..12 {
            e.audio(&[0.0; 128]);
        }
        let (l, _) = e.audio(&[0.0; 32]);
        c.step();
        let want = match id.as_str() {
            "in1" => vals[0],
            "in2" => vals[1],
            "alpha" => vals[2],
            "beta" => vals[3],
            "delta" => vals[4],
            "gamma" => vals[5],
            "$srate" => rate * 0.00001,
            "$israte" => 10000.0 / rate,
            // outputs, and names this check does not know
            _ => return Ok(()),
        };
        c.checks += 1;
        if l.iter().any(|x| (x - want).abs() > 1e-4) {
            return Err(format!("Code {}: {} at output {} is {:?}, should be {}", inst, id, o, l, want));
        }
        c.observe(&(id, o));
        Ok(())
    });
}
