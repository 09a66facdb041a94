//! Drivers for the real engine: frontend (matrix / configurator) plus executor,
//! stepped by hand, one block at a time.
use hexodsp::nodes::*;
use hexodsp::*;
use std::sync::{Arc, Mutex};

pub struct Eng {
    pub m: Matrix,
    pub x: NodeExecutor,
}

pub fn engine(w: usize, h: usize) -> Eng {
    let (nc, mut ne) = new_node_engine();
    ne.no_logging();
    Eng { m: Matrix::new(nc, w, h), x: ne }
}

pub fn block(x: &mut NodeExecutor, inp: &[f32]) -> (Vec<f32>, Vec<f32>) {
    block2(x, inp, inp)
}

pub fn block2(x: &mut NodeExecutor, in_l: &[f32], in_r: &[f32]) -> (Vec<f32>, Vec<f32>) {
    let n = in_l.len();
    let mut l = vec![0.0; n];
    let mut r = vec![0.0; n];
    let mut ctx = Context { nframes: n, output: &mut [&mut l[..], &mut r[..]], input: &[in_l, in_r] };
    x.process(&mut ctx);
    (l, r)
}

impl Eng {
    /// One audio callback: take over pending updates, then render `inp.len()` frames.
    pub fn audio(&mut self, inp: &[f32]) -> (Vec<f32>, Vec<f32>) {
        self.x.process_graph_updates();
        block(&mut self.x, inp)
    }
    pub fn settle(&mut self, blocks: usize) -> (Vec<f32>, Vec<f32>) {
        let mut o = (vec![], vec![]);
        for _ in 0..blocks {
            o = self.audio(&[0.0; 128]);
        }
        o
    }
}

/// A probe DSP node: records what the engine feeds to the five inputs of a
/// `Rust1x1` node and writes a scripted output.
#[derive(Default, Clone)]
pub struct ProbeLog {
    pub inp: Vec<f32>,
    pub alpha: Vec<f32>,
    pub beta: Vec<f32>,
    pub gamma: Vec<f32>,
    pub delta: Vec<f32>,
    pub calls: Vec<usize>,
}

pub type Log = Arc<Mutex<ProbeLog>>;

pub fn probe(log: &Log) -> Box<dyn DynamicNode1x1> {
    let log = log.clone();
    Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
        let mut l = log.lock().unwrap();
        l.inp.extend_from_slice(inp);
        l.alpha.extend_from_slice(ctx.alpha_slice());
        l.beta.extend_from_slice(ctx.beta_slice());
        l.gamma.extend_from_slice(ctx.gamma_slice());
        l.delta.extend_from_slice(ctx.delta_slice());
        l.calls.push(inp.len());
        out.copy_from_slice(inp);
    })
}

pub fn pid(n: NodeId, p: &str) -> ParamId {
    n.inp_param(p).unwrap_or_else(|| panic!("no param {} on {}", p, n))
}

/// Runs `f` and, right before its ring buffer operations with the numbers in `at`, `other`;
/// returns how many operations there were. The ring buffers are the single producer single consumer
/// queues between the two sides: `other` running in between two operations sees, and does, just what
/// it could see and do on a thread of its own.
pub fn at_points<R>(at: &[usize], other: &mut dyn FnMut(usize), f: impl FnOnce() -> R) -> (R, usize) {
    use std::cell::Cell as StdCell;
    use std::rc::Rc;
    let n = Rc::new(StdCell::new(0usize));
    struct Undo;
    impl Drop for Undo {
        fn drop(&mut self) {
            ringbuf::hook::set(None);
        }
    }
    let undo = Undo;
    let (n2, at2) = (n.clone(), at.to_vec());
    // the hook does not outlive this call, see Undo
    let ap: *mut (dyn FnMut(usize) + 'static) = unsafe { std::mem::transmute(other as *mut (dyn FnMut(usize) + '_)) };
    ringbuf::hook::set(Some(Box::new(move || {
        let k = n2.get();
        n2.set(k + 1);
        if at2.contains(&k) {
            unsafe { (*ap)(k) };
        }
    })));
    let r = f();
    drop(undo);
    (r, n.get())
}
