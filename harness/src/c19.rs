use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::build::*;
use hexodsp::nodes::*;
use hexodsp::synth_constructor::SynthError;
use hexodsp::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// What the builder offers for one node type.
pub struct Api {
    pub n: NodeId,
    pub set: Vec<(&'static str, fn(f32) -> ConstructorNode)>,
    pub set_mod: Vec<(&'static str, fn(f32, f32) -> ConstructorNode)>,
    pub input: Vec<(&'static str, fn(&dyn ConstructorNodeOutputPort) -> ConstructorNode)>,
    pub atom: Vec<(&'static str, fn(i64) -> ConstructorNode)>,
    pub out: Vec<(&'static str, fn() -> (ConstructorNode, String))>,
}

macro_rules! gen_api {
    ($s1: ident => $v1: ident,
        $($str: ident => $variant: ident
            UIType:: $gui_type: ident
            UICategory:: $ui_cat: ident
            $(($in_idx: literal $para: ident
               $n_fun: ident $d_fun: ident $r_fun: ident $f_fun: ident
               $steps: ident $min: expr, $max: expr, $def: expr))*
            $({$in_at_idx: literal $at_idx: literal $atom: ident
               $at_fun: ident ($at_init: expr) $at_ui: ident $fa_fun: ident
               $amin: literal $amax: literal})*
            $([$out_idx: literal $out: ident])*
            ,)+
    ) => {
        pub fn api() -> Vec<Api> {
            vec![$(Api {
                n: NodeId::$variant(0),
                set: vec![$((stringify!($para), |v| hexodsp::build::$str(0).set().$para(v).build()),)*],
                set_mod: vec![$((stringify!($para), |v, a| hexodsp::build::$str(0).set_mod().$para(v, a).build()),)*],
                input: vec![$((stringify!($para), |o| hexodsp::build::$str(0).input().$para(o).build()),)*],
                atom: vec![$((stringify!($atom), |v| hexodsp::build::$str(0).set().$atom(v).build()),)*],
                out: vec![$((stringify!($out), || hexodsp::build::$str(0).output().$out().port()),)*],
            },)+]
        }
    };
}
hexodsp::node_list! {gen_api}

struct Root(ConstructorNode);
impl ConstructorNodeBuilder for Root {
    fn id(&self) -> NodeId {
        self.0.node_id
    }
    fn build(&self) -> ConstructorNode {
        self.0.clone()
    }
}
struct Port(ConstructorNode, String);
impl ConstructorNodeBuilder for Port {
    fn id(&self) -> NodeId {
        self.0.node_id
    }
    fn build(&self) -> ConstructorNode {
        self.0.clone()
    }
}
impl ConstructorNodeOutputPort for Port {
    fn port(&self) -> (ConstructorNode, String) {
        (self.0.clone(), self.1.clone())
    }
}

fn render(x: &mut NodeExecutor, blocks: usize) -> Vec<f32> {
    let mut v = vec![];
    let mut f = 0;
    for _ in 0..blocks {
        let l: Vec<f32> = (0..128).map(|i| Sig::Smooth(20).at(f + i)).collect();
        let r: Vec<f32> = (0..128).map(|i| Sig::Smooth(23).at(f + i)).collect();
        x.process_graph_updates();
        let (a, b) = block2(x, &l, &r);
        v.extend(a);
        v.extend(b);
        f += 128;
    }
    v
}

#[derive(Clone, Debug)]
enum What {
    Set(usize, f32),
    Mod(usize, f32, f32),
    Atom(usize, i64),
    Drive(usize),
}

/// the same patch, once through the builder, once by hand with the node configurator
fn api_case(a: &Api, what: &[What], out_idx: Option<usize>, c: &mut Case) -> Result<(), String> {
    let n = a.n;
    // by hand
    let (mut nc, mut x) = new_node_engine();
    x.no_logging();
    let mut edges = vec![];
    let srcs: Vec<usize> = what.iter().filter_map(|w| match w { What::Drive(i) | What::Mod(i, _, _) => Some(*i), _ => None }).collect();
    for i in srcs.iter() {
        let s = NodeId::Rust1x1(40 + *i as u8);
        nc.get_node_global().lock().unwrap().send_dynamic_node1x1(40 + *i, source(Sig::Gate(*i as u32)));
        nc.create_node(s);
        edges.push((n, *i as u8, s, 0u8));
    }
    nc.create_node(n);
    let is_out = matches!(n, NodeId::Out(_));
    if !is_out {
        nc.create_node(NodeId::Out(0));
    }
    for w in what {
        match w {
            What::Set(i, v) => {
                let p = n.inp_param_by_idx(*i).unwrap();
                nc.set_param(p, SAtom::param(p.norm(*v)));
            }
            What::Mod(i, v, m) => {
                let p = n.inp_param_by_idx(*i).unwrap();
                nc.set_param(p, SAtom::param(p.norm(*v)));
                nc.set_param_modamt(p, Some(*m));
            }
            What::Atom(i, v) => nc.set_param(n.inp_param(a.atom[*i].0).unwrap(), SAtom::setting(*v)),
            What::Drive(_) => {}
        }
    }
    if let Some(o) = out_idx {
        edges.push((NodeId::Out(0), 0, n, o as u8));
    }
    let mut p = nc.rebuild_node_ports();
    for i in srcs.iter() {
        nc.add_prog_node(&mut p, &NodeId::Rust1x1(40 + *i as u8));
    }
    nc.add_prog_node(&mut p, &n);
    if !is_out {
        nc.add_prog_node(&mut p, &NodeId::Out(0));
    }
    for (t, ti, s, so) in edges {
        nc.set_prog_node_exec_connection(&mut p, (t, ti), (s, so));
    }
    nc.upload_prog(p, true);
    let want = render(&mut x, 5);
    // with the builder
    let mut sc = SynthConstructor::new();
    let mut x2 = sc.executor().unwrap();
    x2.no_logging();
    let node = ConstructorNode { node_id: n, ops: Rc::new(RefCell::new(vec![])) };
    let mut add = |m: ConstructorNode| -> Result<(), String> {
        if m.node_id != n {
            return Err(format!("the builder made a {} instead of a {}", m.node_id, n));
        }
        node.ops.borrow_mut().extend(m.ops.borrow().iter().cloned());
        Ok(())
    };
    for w in what {
        match w {
            What::Set(i, v) => add((a.set[*i].1)(*v))?,
            What::Mod(i, v, m) => {
                add((a.set_mod[*i].1)(*v, *m))?;
            }
            What::Atom(i, v) => add((a.atom[*i].1)(*v))?,
            What::Drive(_) => {}
        }
        if let What::Drive(i) | What::Mod(i, _, _) = w {
            sc.set_dynamic_node1x1(40 + *i, source(Sig::Gate(*i as u32)));
            add((a.input[*i].1)(&rust1x1(40 + *i as u8).output().sig()))?;
        }
    }
    match out_idx {
        Some(o) => {
            let (m, port) = (a.out[o].1)();
            add(m)?;
            let root = out(0).input().ch1(&Port(node, port));
            sc.upload(&root).map_err(|e| format!("refused: {:?}", e))?;
        }
        None => sc.upload(&Root(node)).map_err(|e| format!("refused: {:?}", e))?,
    }
    let have = render(&mut x2, 5);
    c.step();
    c.checks += 1;
    c.observe(&bits(&have));
    if bits(&have) != bits(&want) {
        let i = (0..have.len()).find(|i| have[*i].to_bits() != want[*i].to_bits()).unwrap();
        return Err(format!("sample {} is {} instead of {}", i, have[i], want[i]));
    }
    Ok(())
}

/// a frequency of the ladder filter that is safe (see DESIGN.md)
fn tame(n: NodeId, i: usize) -> bool {
    matches!(n, NodeId::FVaFilt(_)) && i > 1
}

// ---------------------------------------------------------------- graphs

const INS: [&str; 5] = ["inp", "alpha", "beta", "delta", "gamma"];

/// The node map a client has written down so far: node 0..k are Rust1x1, node 9 is Out.
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    nodes: BTreeMap<usize, ()>,
    /// (node, input) -> source
    edges: BTreeMap<(usize, usize), usize>,
    /// (node, input) -> value, amount
    params: BTreeMap<(usize, usize), (f32, Option<f32>)>,
}
const OUT: usize = 9;

/// One builder object: ops on nodes, and the root.
#[derive(Clone, Debug, Default)]
struct Graph {
    root: usize,
    edges: Vec<(usize, usize, usize)>,
    params: Vec<(usize, usize, f32, Option<f32>)>,
}

impl Graph {
    fn reach(&self) -> Vec<usize> {
        let mut r = vec![self.root];
        let mut i = 0;
        while i < r.len() {
            for (t, _, s) in self.edges.iter() {
                if *t == r[i] && !r.contains(s) {
                    r.push(*s);
                }
            }
            i += 1;
        }
        r
    }
    fn apply(&self, m: &Model) -> Model {
        let mut m = m.clone();
        let r = self.reach();
        for n in r.iter() {
            m.nodes.insert(*n, ());
        }
        for (t, i, s) in self.edges.iter() {
            if r.contains(t) {
                m.edges.insert((*t, *i), *s);
            }
        }
        for (n, i, v, a) in self.params.iter() {
            if r.contains(n) {
                m.params.insert((*n, *i), (*v, *a));
            }
        }
        m
    }
    fn build(&self) -> Box<dyn ConstructorNodeBuilder> {
        let ns: Vec<hexodsp::build::Rust1x1> = (0..4).map(|i| rust1x1(i)).collect();
        let o = out(0);
        for (t, i, s) in self.edges.iter() {
            let src = ns[*s].output().sig();
            if *t == OUT {
                let inp = o.clone().input();
                let _ = if *i == 0 { inp.ch1(&src) } else { inp.ch2(&src) };
            } else {
                let inp = ns[*t].clone().input();
                let _ = match i {
                    0 => inp.inp(&src),
                    1 => inp.alpha(&src),
                    2 => inp.beta(&src),
                    3 => inp.delta(&src),
                    _ => inp.gamma(&src),
                };
            }
        }
        for (n, i, v, a) in self.params.iter() {
            if *n == OUT {
                let _ = if *i == 0 { o.clone().set().ch1(*v) } else { o.clone().set().ch2(*v) };
                continue;
            }
            let b = ns[*n].clone();
            let _ = match (i, a) {
                (0, None) => b.set().inp(*v),
                (1, None) => b.set().alpha(*v),
                (_, None) => b.set().beta(*v),
                (0, Some(a)) => b.set_mod().inp(*v, *a),
                (1, Some(a)) => b.set_mod().alpha(*v, *a),
                (_, Some(a)) => b.set_mod().beta(*v, *a),
            };
        }
        if self.root == OUT {
            Box::new(o)
        } else {
            Box::new(ns[self.root].clone())
        }
    }
}

impl Model {
    fn cyclic(&self) -> bool {
        let succ = |n: usize| self.edges.iter().filter(move |e| e.0 .0 == n).map(|e| *e.1).collect::<Vec<_>>();
        for n in self.nodes.keys() {
            let mut seen = vec![];
            let mut todo = succ(*n);
            while let Some(k) = todo.pop() {
                if k == *n {
                    return true;
                }
                if !seen.contains(&k) {
                    seen.push(k);
                    todo.extend(succ(k));
                }
            }
        }
        false
    }
    fn input(&self, n: usize, i: usize) -> f32 {
        let (v, a) = self.params.get(&(n, i)).copied().unwrap_or((0.0, None));
        match (self.edges.get(&(n, i)), a) {
            (None, _) => v,
            (Some(s), None) => self.value(*s),
            (Some(s), Some(a)) => v + a * self.value(*s),
        }
    }
    /// what a node puts out, once the parameters have settled
    fn value(&self, n: usize) -> f32 {
        let w = [0.5, 0.25, 0.125, -0.5, -0.25];
        0.1 * (n as f32 + 1.0) + (0..5).map(|i| w[i] * self.input(n, i)).sum::<f32>()
    }
}

fn install(sc: &SynthConstructor) {
    for k in 0..4usize {
        sc.set_dynamic_node1x1(
            k,
            Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                let w = [0.5, 0.25, 0.125, -0.5, -0.25];
                for (f, o) in out.iter_mut().enumerate() {
                    *o = 0.1 * (k as f32 + 1.0)
                        + w[0] * inp[f]
                        + w[1] * ctx.alpha_slice()[f]
                        + w[2] * ctx.beta_slice()[f]
                        + w[3] * ctx.delta_slice()[f]
                        + w[4] * ctx.gamma_slice()[f];
                }
            }),
        );
    }
}

struct World {
    sc: SynthConstructor,
    x: NodeExecutor,
    m: Model,
    /// the Out node has been uploaded; None: perhaps
    heard: Option<bool>,
}
impl World {
    fn new() -> Self {
        let mut sc = SynthConstructor::new();
        let mut x = sc.executor().unwrap();
        x.no_logging();
        install(&sc);
        World { sc, x, m: Model::default(), heard: Some(false) }
    }
    fn upload(&mut self, g: &Graph, update: bool, c: &mut Case) -> Result<(), String> {
        c.step();
        c.checks += 1;
        c.log(|| format!("{} {:?}", if update { "update_params" } else { "upload" }, g));
        let want = g.apply(&self.m);
        // an update without new links only sets parameters, it does not build the graph
        let new_links = g.edges.iter().any(|(t, i, s)| g.reach().contains(t) && self.m.edges.get(&(*t, *i)) != Some(s));
        let b = g.build();
        let r = if update { self.sc.update_params(&*b).map(|_| ()) } else { self.sc.upload(&*b) };
        let builds = !update || new_links;
        match r {
            Ok(()) if builds && want.cyclic() => Err("a graph with a cycle was accepted".into()),
            Err(e) if !(builds && want.cyclic()) => Err(format!("a graph without a cycle was refused: {:?}", e)),
            Err(SynthError::CycleDetected) => Ok(()),
            Err(e) => Err(format!("a cycle was reported as {:?}", e)),
            Ok(()) => {
                self.m = want;
                if self.m.nodes.contains_key(&OUT) {
                    if builds {
                        self.heard = Some(true);
                    } else if self.heard == Some(false) {
                        self.heard = None;
                    }
                }
                Ok(())
            }
        }
    }
    fn clear(&mut self) {
        self.sc.clear();
        self.m = Model::default();
        self.heard = Some(false);
    }
    fn check(&mut self, c: &mut Case) -> Result<(), String> {
        let mut o = (vec![], vec![]);
        for _ in 0..5 {
            self.x.process_graph_updates();
            o = block(&mut self.x, &[0.0; 128]);
        }
        let on = match self.heard {
            Some(h) => h,
            None => return Ok(()),
        };
        let want: Vec<f32> = (0..2).map(|i| if on { self.m.input(OUT, i) } else { 0.0 }).collect();
        c.checks += 2;
        c.observe(&format!("{:?}", want));
        for (i, v) in [o.0[127], o.1[127]].iter().enumerate() {
            if (v - want[i]).abs() > 1e-4 {
                return Err(format!("channel {} is {} instead of {}", i, v, want[i]));
            }
        }
        Ok(())
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "what the builder uploads sounds like the graph written down (value by value, against a reference evaluator), and every builder function sets what its name says (sample by sample, against the same patch made with the node configurator)".into();
    mc.assume("graphs of up to 4 user supplied nodes and Out; links and parameters written in earlier uploads stay until overwritten or cleared");
    let apis = api();
    // every function of the builder
    let mut cases: Vec<(usize, Vec<What>, Option<usize>)> = vec![];
    for (ai, a) in apis.iter().enumerate() {
        let n = a.n;
        let outs: Vec<Option<usize>> = if a.out.is_empty() { vec![None] } else { (0..a.out.len()).map(Some).collect() };
        let heard: Vec<Option<usize>> = outs.clone();
        let driven: Vec<What> = (0..a.input.len()).filter(|i| !tame(n, *i)).map(What::Drive).collect();
        for o in outs.iter() {
            cases.push((ai, vec![], *o));
            cases.push((ai, driven.clone(), *o));
        }
        let without = |i: usize| -> Vec<What> { driven.iter().filter(|w| !matches!(w, What::Drive(j) if *j == i)).cloned().collect() };
        for o in heard.iter() {
            for i in (0..a.set.len()).filter(|i| !tame(n, *i)) {
                let p = n.inp_param_by_idx(i).unwrap();
                let ((lo, hi), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
                for t in [0.25, 0.7] {
                    let v = p.denorm(lo + (hi - lo) * t);
                    cases.push((ai, vec![What::Set(i, v)], *o));
                    let mut w = without(i);
                    w.push(What::Set(i, v));
                    cases.push((ai, w, *o));
                }
                let mut w = without(i);
                w.push(What::Mod(i, p.denorm(lo + (hi - lo) * 0.4), 0.2));
                cases.push((ai, w, *o));
                cases.push((ai, vec![What::Drive(i)], *o));
            }
            for i in 0..a.atom.len() {
                let p = n.inp_param(a.atom[i].0).unwrap();
                if let SAtom::Setting(_) = p.as_atom_def() {
                    let (lo, hi) = p.setting_min_max().unwrap_or((0, 1));
                    for v in lo..=hi.max(lo + 1).min(lo + 12) {
                        let mut w = driven.clone();
                        w.push(What::Atom(i, v));
                        cases.push((ai, w, *o));
                        cases.push((ai, vec![What::Atom(i, v)], *o));
                    }
                }
            }
        }
    }
    mc.space("builder-functions", cases.len() as u64, |i, c| {
        let apis = api();
        let (ai, w, o) = &cases[i as usize];
        c.log(|| format!("{} {:?} output {:?}", apis[*ai].n, w, o));
        // names and order are those of the node
        let a = &apis[*ai];
        for (k, s) in a.set.iter().enumerate() {
            if a.n.inp(s.0) != Some(k as u8) {
                return Err(format!("{} is not input {}", s.0, k));
            }
        }
        api_case(a, w, *o, c)
    });
    // all small graphs on top of a previous one
    let nal = 3;
    let bases = [
        Graph::default(),
        Graph { root: OUT, edges: vec![(OUT, 0, 0), (0, 0, 1)], params: vec![(1, 0, 0.3, None)] },
        Graph { root: OUT, edges: vec![(OUT, 0, 2), (2, 1, 1), (1, 0, 0)], params: vec![(2, 1, 0.1, Some(0.5))] },
    ];
    let n = 3 * 2 * 4 * pow(4, 3) * pow(4, nal);
    mc.space("graphs", n, |i, c| {
        let mut d = Dec(i);
        let base = d.take(3);
        let update = d.flag();
        let mut g = Graph { root: OUT, ..Default::default() };
        let mut e = |d: &mut Dec, t: usize, inp: usize, g: &mut Graph| {
            let s = d.take(4);
            if s > 0 {
                g.edges.push((t, inp, s - 1));
            }
        };
        e(&mut d, OUT, 0, &mut g);
        for t in 0..3 {
            e(&mut d, t, 0, &mut g);
        }
        for t in 0..nal as usize {
            e(&mut d, t, 1, &mut g);
        }
        g.edges.push((OUT, 1, 1));
        g.params = vec![(0, 2, 0.2, None), (1, 0, 0.4, None)];
        let mut w = World::new();
        if base > 0 {
            w.upload(&bases[base], false, c)?;
            w.check(c)?;
        }
        w.upload(&g, update, c)?;
        w.check(c)?;
        // and one more
        w.upload(&bases[2], false, c)?;
        w.check(c)
    });
    // histories
    let ops: Vec<(Graph, bool)> = vec![
        (bases[1].clone(), false),
        (bases[2].clone(), false),
        // a cycle by itself
        (Graph { root: OUT, edges: vec![(OUT, 0, 0), (0, 0, 1), (1, 0, 0)], params: vec![(0, 1, 0.9, None)] }, false),
        // a self loop
        (Graph { root: OUT, edges: vec![(OUT, 1, 3), (3, 0, 3)], params: vec![] }, false),
        // parameters only
        (Graph { root: 1, edges: vec![], params: vec![(1, 0, -0.6, None), (1, 1, 0.5, None)] }, true),
        (Graph { root: 2, edges: vec![], params: vec![(2, 1, 0.2, None)] }, true),
        (Graph { root: 2, edges: vec![], params: vec![(2, 1, -0.3, Some(-0.75))] }, true),
        // the amount alone changes
        (Graph { root: 2, edges: vec![], params: vec![(2, 1, 0.2, Some(0.5))] }, true),
        (Graph { root: 2, edges: vec![], params: vec![(2, 1, 0.2, Some(-0.25))] }, true),
        (Graph { root: 0, edges: vec![], params: vec![(0, 0, 0.25, Some(0.5))] }, true),
        // the same value twice in one go: the last counts
        (Graph { root: 0, edges: vec![(0, 1, 3)], params: vec![(0, 0, 0.1, None), (0, 0, 0.7, None), (3, 2, 0.5, None)] }, true),
        // a link replaced
        (Graph { root: OUT, edges: vec![(OUT, 0, 3), (OUT, 1, 3)], params: vec![(3, 0, 0.6, None)] }, true),
        (Graph { root: OUT, edges: vec![], params: vec![(OUT, 0, 0.15, None), (OUT, 1, -0.15, None)] }, true),
        // a cycle through an update
        (Graph { root: 0, edges: vec![(0, 0, 2)], params: vec![] }, true),
    ];
    let na = ops.len() as u64 + 2;
    let depth = mc.pick(4, 5);
    mc.space("histories", seqs_upto(na, depth), |i, c| {
        let mut w = World::new();
        for s in seq_at(na, i) {
            if s < ops.len() {
                w.upload(&ops[s].0, ops[s].1, c)?;
            } else if s == ops.len() {
                c.log(|| "clear".into());
                c.step();
                w.clear();
                // the nodes will be made anew
                w.sc.upload(&rust1x1(3)).map_err(|e| format!("{:?}", e))?;
                for k in 0..3 {
                    w.sc.upload(&rust1x1(k)).map_err(|e| format!("{:?}", e))?;
                }
                install(&w.sc);
                w.m.nodes = (0..4).map(|k| (k, ())).collect();
            } else {
                c.log(|| "audio".into());
                c.step();
                w.check(c)?;
            }
        }
        w.check(c)
    });
}
