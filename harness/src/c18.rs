use crate::alloc;
use crate::c07::prepare;
use crate::c08::program;
use crate::c09::{fill, patch, polled, rich};
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::nodes::*;
use hexodsp::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Weak};

/// Buffers of a host, made before the callbacks run.
struct Host {
    il: Vec<f32>,
    ir: Vec<f32>,
    l: Vec<f32>,
    r: Vec<f32>,
}
impl Host {
    fn new() -> Self {
        let il = (0..128).map(|f| Sig::Smooth(20).at(f)).collect();
        let ir = (0..128).map(|f| Sig::Smooth(23).at(f)).collect();
        Host { il, ir, l: vec![0.0; 128], r: vec![0.0; 128] }
    }
    /// one callback: updates, MIDI, audio
    fn callback(&mut self, x: &mut NodeExecutor, n: usize, midi: &[HxTimedEvent]) {
        x.process_graph_updates();
        let mut i = 0;
        x.feed_midi_events_from(|| {
            i += 1;
            midi.get(i - 1).copied()
        });
        let mut ctx = Context { nframes: n, output: &mut [&mut self.l[..n], &mut self.r[..n]], input: &[&self.il[..n], &self.ir[..n]] };
        x.process(&mut ctx);
    }
    fn watched(&mut self, x: &mut NodeExecutor, n: usize, midi: &[HxTimedEvent], c: &mut Case) -> Result<(), String> {
        c.step();
        c.checks += 1;
        let (_, inc) = alloc::audio(|| self.callback(x, n, midi));
        match inc {
            None => Ok(()),
            Some(i) => Err(format!("inside an audio callback of {} frames: {}", n, i)),
        }
    }
}

fn midi() -> Vec<HxTimedEvent> {
    vec![HxTimedEvent::note_on(0, 0, 60, 1.0), HxTimedEvent::cc(0, 0, 0, 0.3), HxTimedEvent::note_off(0, 0, 60), HxTimedEvent::note_on(0, 3, 61, 0.7)]
}

struct Token {
    drops: Arc<AtomicUsize>,
    bad: Arc<AtomicBool>,
}
impl Drop for Token {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::SeqCst);
        if alloc::on_audio_thread() {
            self.bad.store(true, Ordering::SeqCst);
        }
    }
}

#[derive(Default)]
struct Books {
    samples: Vec<Weak<Vec<f32>>>,
    nodes: Vec<Arc<AtomicUsize>>,
    bad: Arc<AtomicBool>,
}
impl Books {
    fn sample(&mut self, n: usize) -> SAtom {
        let a = Arc::new((0..n).map(|i| i as f32 / n as f32).collect::<Vec<f32>>());
        self.samples.push(Arc::downgrade(&a));
        SAtom::audio("x", a)
    }
    fn node(&mut self) -> Box<dyn DynamicNode1x1> {
        let drops = Arc::new(AtomicUsize::new(0));
        self.nodes.push(drops.clone());
        let t = Token { drops, bad: self.bad.clone() };
        Box::new(move |inp: &[f32], out: &mut [f32], _: &DynNode1x1Context| {
            let _t = &t;
            out.copy_from_slice(inp);
        })
    }
}

fn until(f: impl Fn() -> bool) -> bool {
    for _ in 0..4000 {
        if f() {
            return true;
        }
        real_sleep_ms(1);
    }
    false
}

const NOPS: usize = 18;
const NAMES: [&str; NOPS] = [
    "nothing",
    "set parameters",
    "replace the sample",
    "set settings",
    "set amounts",
    "place nodes, sync",
    "remove nodes, sync",
    "clear",
    "load patch 1",
    "monitor a cell",
    "edit the patterns",
    "edit the block program",
    "install a DSP node",
    "inject MIDI",
    "swap the layout, sync",
    "a refused change",
    "load patch 0",
    "set texts and number lists",
];

fn op(e: &mut Eng, o: usize, patches: &[Vec<u8>], b: &mut Books, k: usize) -> Result<(), String> {
    let m = &mut e.m;
    match o {
        1 => {
            for (n, p, v) in [(NodeId::Sin(0), "freq", 0.2), (NodeId::Mix3(0), "vol2", 0.1), (NodeId::Delay(0), "fb", 0.5), (NodeId::Out(0), "vol", 0.4), (NodeId::Sampl(0), "freq", 0.3)] {
                m.set_param(pid(n, p), SAtom::param(v + 0.01 * k as f32));
            }
        }
        2 => {
            let s = b.sample(50 + k);
            m.set_param(pid(NodeId::Sampl(0), "sample"), s);
        }
        3 => {
            m.set_param(pid(NodeId::Out(0), "mono"), SAtom::setting((k & 1) as i64));
            m.set_param(pid(NodeId::MidiP(0), "chan"), SAtom::setting(k as i64));
            m.set_param(pid(NodeId::Sampl(0), "pmode"), SAtom::setting((k & 1) as i64));
            m.set_param(pid(NodeId::TSeq(0), "cmode"), SAtom::setting((k % 3) as i64));
        }
        4 => {
            for (n, p) in [(NodeId::Mix3(0), "ch3"), (NodeId::Mix3(1), "ch1"), (NodeId::Rust1x1(0), "inp")] {
                let _ = m.set_param_modamt(pid(n, p), if k % 2 == 0 { Some(0.3) } else { None });
            }
        }
        5 => {
            m.place(5, 2, Cell::empty(NodeId::Sampl(0)).out(None, None, Some(0)));
            m.place(5, 3, Cell::empty(NodeId::Rust1x1(0)).input(Some(0), None, None));
            m.place(5, 0, Cell::empty(NodeId::Scope(0)));
            m.sync().map_err(|e| format!("{:?}", e))?;
        }
        6 => {
            for y in 0..4 {
                m.place(5, y, Cell::empty(NodeId::Nop));
            }
            m.place(0, 0, Cell::empty(NodeId::Nop));
            m.sync().map_err(|e| format!("{:?}", e))?;
        }
        7 => m.clear(),
        8 | 16 => load_patch_from_mem(m, &patches[(o == 8) as usize]).map_err(|e| format!("{:?}", e))?,
        9 => {
            let cell = m.get_copy(k % 5, k % 4).unwrap();
            m.monitor_cell(cell);
        }
        10 => {
            for t in 0..2 {
                if m.has_tracker(t) {
                    fill(m, t, k);
                }
            }
            polled(m);
        }
        11 => {
            if m.has_code_engine(0) {
                program(&mut m.get_block_function(0).unwrap().lock().unwrap(), 1 + k % 3);
            }
            polled(m);
        }
        12 => m.set_dynamic_node1x1(0, b.node()),
        13 => {
            for i in 0..3 + k {
                m.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: 40 + i as u8, vel: 1.0 });
                m.inject_midi_event(HxMidiEvent::CC { channel: 0, cc: 3, value: 0.2 });
            }
        }
        14 => {
            m.save_matrix();
            m.place(4, 1, Cell::empty(NodeId::Nop));
            m.sync().map_err(|e| format!("{:?}", e))?;
            m.restore_matrix();
            m.sync().map_err(|e| format!("{:?}", e))?;
        }
        15 => {
            let r = m.change_matrix(|m| {
                m.place(5, 0, Cell::empty(NodeId::Amp(9)).out(None, None, Some(0)));
                m.place(5, 1, Cell::empty(NodeId::Amp(9)).input(Some(0), None, None));
            });
            if r.is_ok() {
                return Err("a cycle was accepted".into());
            }
        }
        17 => {
            // a client may set any kind of value, they all have to be disposed of
            let list = SAtom::micro(&[0.1, 0.2, 0.3 + k as f32]);
            for (n, p, a) in [
                (NodeId::Sampl(0), "sample", SAtom::str(&format!("a text on the heap {}", k))),
                (NodeId::Out(0), "mono", if k % 2 == 0 { SAtom::str("another text") } else { list.clone() }),
                (NodeId::MidiP(0), "gmode", if k % 2 == 1 { SAtom::str("a third text") } else { list }),
            ] {
                m.set_param(pid(n, p), a);
            }
        }
        _ => {}
    }
    Ok(())
}

/// the atom of patch 5,2 and 5,3
fn start(b: &mut Books) -> Eng {
    let mut e = engine(6, 4);
    e.m.set_dynamic_node1x1(0, b.node());
    rich(&mut e.m, 0);
    let mut b2 = Books::default();
    let _ = op(&mut e, 5, &[], &mut b2, 0);
    polled(&mut e.m);
    e
}

fn history(seq: &[usize], every: bool, patches: &[Vec<u8>], c: &mut Case) -> Result<(), String> {
    let mut b = Books::default();
    let mut e = start(&mut b);
    let mut h = Host::new();
    let ev = midi();
    let sizes = [128, 1, 17, 64];
    if every {
        h.watched(&mut e.x, 64, &ev, c)?;
    }
    for (k, o) in seq.iter().enumerate() {
        c.log(|| NAMES[*o].to_string());
        op(&mut e, *o, patches, &mut b, k)?;
        if every {
            for j in 0..2 {
                h.watched(&mut e.x, sizes[(k + j) % 4], &ev, c)?;
            }
        }
        e.m.handle_graph_events();
        e.m.update_filters();
        e.m.update_output_feedback();
    }
    for _ in 0..4 {
        h.watched(&mut e.x, 128, &ev, c)?;
    }
    // what was retired is freed, by another thread, while the engine runs on
    let last = b.samples.len();
    let s = b.sample(9);
    e.m.set_param(pid(NodeId::Sampl(0), "sample"), s);
    for _ in 0..2 {
        h.watched(&mut e.x, 128, &ev, c)?;
    }
    c.checks += 1;
    if !until(|| b.samples[..last].iter().all(|w| w.upgrade().is_none())) {
        return Err("a replaced sample is never freed".into());
    }
    if b.samples[last].upgrade().is_none() {
        return Err("the current sample was freed".into());
    }
    drop(e);
    c.checks += 1;
    if b.samples.iter().any(|w| w.upgrade().is_some()) {
        return Err("a sample is never freed, not even with the engine".into());
    }
    let d: Vec<usize> = b.nodes.iter().map(|d| d.load(Ordering::SeqCst)).collect();
    c.observe(&d);
    if d.iter().any(|n| *n != 1) {
        return Err(format!("the installed DSP nodes were dropped {:?} times", d));
    }
    if b.bad.load(Ordering::SeqCst) {
        return Err("a DSP node was dropped by the audio thread".into());
    }
    Ok(())
}

/// callbacks on a thread of their own, while this thread holds locks
fn locked<G>(x: &mut NodeExecutor, guards: G, c: &mut Case) -> Result<(), String> {
    let mut guards = Some(guards);
    let before = alloc::TOTAL.load(Ordering::SeqCst);
    let done = AtomicBool::new(false);
    let mut inc = None;
    std::thread::scope(|s| {
        let th = s.spawn(|| {
            let mut h = Host::new();
            let ev = midi();
            let mut r = None;
            for n in [128, 1, 64, 128, 17, 128] {
                let (_, i) = alloc::audio(|| h.callback(x, n, &ev));
                r = r.or(i);
            }
            done.store(true, Ordering::SeqCst);
            r
        });
        while !done.load(Ordering::SeqCst) {
            if alloc::TOTAL.load(Ordering::SeqCst) != before {
                guards.take();
            }
            std::thread::yield_now();
        }
        inc = th.join().unwrap_or(Some("a panic".to_string()));
    });
    c.steps += 6;
    c.checks += 1;
    match inc {
        None => Ok(()),
        Some(i) => Err(format!("while the frontend holds locks: {}", i)),
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "while the audio callback runs, the thread makes no heap call, no file or terminal call, no sleep and no blocking lock operation".into();
    mc.assume("callbacks after NodeExecutor::no_logging(), block sizes up to 128, user supplied nodes that do not allocate themselves");
    mc.assume("at most 512 retired objects per drop thread period (250 ms)");
    let thorough = mc.thorough();
    // every node, every setting
    let mut cases: Vec<(NodeId, Vec<(ParamId, SAtom)>, usize)> = vec![];
    for n in all_nodes() {
        for v in setting_variants(n) {
            for d in 0..3 {
                cases.push((n, v.clone(), d));
            }
        }
    }
    mc.space("nodes", cases.len() as u64, |i, c| {
        let (n, set, d) = &cases[i as usize];
        let (n, k) = (*n, nin(*n));
        let fv = matches!(n, NodeId::FVaFilt(_));
        let drive: Vec<Option<Sig>> = (0..k)
            .map(|i| match d {
                0 => None,
                _ if fv && i > 0 => None,
                1 => Some(Sig::Smooth(i as u32)),
                _ => Some(Sig::Gate(i as u32)),
            })
            .collect();
        c.log(|| format!("{} {:?} drive {}", n, set, d));
        let mut r = NRig::with(n, &drive, true);
        prepare(&mut r);
        for (p, a) in set.iter() {
            r.nc.set_param(*p, a.clone());
        }
        r.upload();
        let mut h = Host::new();
        let ev = midi();
        for (j, b) in [128, 1, 64, 128, 17, 128, 128].iter().enumerate() {
            h.watched(&mut r.x, *b, &ev, c)?;
            if j == 2 {
                for i in 0..if fv { 0 } else { k } {
                    r.nc.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(n, i, 1)));
                }
                for (p, a) in setting_variants(n).last().unwrap().iter() {
                    r.nc.set_param(*p, a.clone());
                }
            }
            if j == 4 {
                prepare(&mut r);
            }
        }
        r.nc.update_output_feedback();
        c.observe(&(0..nout(n)).map(|o| r.nc.out_fb_for(&n, o as u8).map(|v| v.to_bits())).collect::<Vec<_>>());
        // the same while the frontend holds the lock of the shared data
        let g = r.nc.get_node_global();
        r.upload();
        let guard = g.lock().unwrap();
        locked(&mut r.x, guard, c)
    });
    // histories of edits
    let patches = [patch(0), patch(1)];
    let depth = if thorough { 4 } else { 3 };
    let per = seqs_upto(NOPS as u64, depth);
    mc.space("edits", per * 2, |i, c| {
        let seq: Vec<usize> = seq_at(NOPS as u64, i / 2).iter().map(|x| *x as usize).collect();
        c.log(|| format!("callback after every step: {}", i % 2 == 0));
        history(&seq, i % 2 == 0, &patches, c)
    });
    // locks a client can hold
    mc.space("locks", (NOPS * 2) as u64, |i, c| {
        let mut b = Books::default();
        let mut e = start(&mut b);
        let mut h = Host::new();
        if i % 2 == 1 {
            h.watched(&mut e.x, 64, &[], c)?;
        }
        c.log(|| NAMES[i as usize / 2].to_string());
        op(&mut e, i as usize / 2, &patches, &mut b, 1)?;
        let mut pats = vec![];
        for t in 0..3 {
            if e.m.has_tracker(t) {
                pats.push(e.m.get_pattern_data(t).unwrap());
            }
        }
        let mut funs = vec![];
        if e.m.has_code_engine(0) {
            funs.push(e.m.get_block_function(0).unwrap());
        }
        let g1: Vec<_> = pats.iter().map(|p| p.lock().unwrap()).collect();
        let g2: Vec<_> = funs.iter().map(|p| p.lock().unwrap()).collect();
        c.observe(&(g1.len(), g2.len()));
        locked(&mut e.x, (g1, g2), c)
    });
}
