use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::*;
use hexodsp::*;

const W: usize = 24;
const H: usize = 8;
const A0: NodeId = NodeId::Amp(11);
const A1: NodeId = NodeId::Amp(12);
const A2: NodeId = NodeId::Amp(13);
const A3: NodeId = NodeId::Amp(14);

#[derive(Clone, Debug)]
struct Scen {
    n: NodeId,
    drive: Vec<Option<Sig>>,
    set: Vec<(ParamId, SAtom)>,
    amt: bool,
    ramp: bool,
}

/// a node under observation inside a matrix: sources above its inputs, sinks below its outputs
struct MRig {
    e: Eng,
    s: Scen,
    logs: Vec<Log>,
    out: (Vec<f32>, Vec<f32>),
    frame: usize,
    mirrored: bool,
}

fn src(i: usize) -> NodeId {
    NodeId::Rust1x1((SRC + i) as u8)
}
fn snk(i: usize) -> NodeId {
    NodeId::Rust1x1((SNK + i) as u8)
}
fn top(n: NodeId, i: u8) -> Cell {
    Cell::empty(n).input(Some(i), None, None)
}
fn bot(n: NodeId, o: u8) -> Cell {
    Cell::empty(n).out(None, None, Some(o))
}

impl MRig {
    fn new(s: &Scen) -> Self {
        let mut e = engine(W, H);
        let mut logs = vec![];
        for (i, d) in s.drive.iter().enumerate() {
            if let Some(d) = d {
                e.m.set_dynamic_node1x1(SRC + i, source(*d));
            }
        }
        for o in 0..nout(s.n) {
            let l = Log::default();
            e.m.set_dynamic_node1x1(SNK + o, probe(&l));
            logs.push(l);
        }
        let mut r = MRig { e, s: s.clone(), logs, out: (vec![], vec![]), frame: 0, mirrored: false };
        r.pattern();
        r.place_t();
        r.e.m.place(3, 6, Cell::empty(A0));
        r.e.m.place(8, 6, Cell::empty(A2));
        for (p, a) in s.set.iter() {
            r.e.m.set_param(*p, a.clone());
        }
        if s.amt {
            for (i, d) in s.drive.iter().enumerate() {
                if d.is_some() {
                    let _ = r.e.m.set_param_modamt(s.n.inp_param_by_idx(i).unwrap(), Some(0.5));
                }
            }
        }
        r.e.m.sync().unwrap();
        r
    }
    fn pattern(&mut self) {
        if let NodeId::TSeq(i) = self.s.n {
            if let Some(pd) = self.e.m.get_pattern_data(i as usize) {
                crate::c07::fill_pattern(&mut pd.lock().unwrap());
            }
            for _ in 0..20 {
                self.e.m.check_pattern_data(i as usize);
            }
        }
    }
    fn col(&self, k: usize) -> usize {
        if self.mirrored {
            W - 1 - k
        } else {
            k
        }
    }
    fn place_t(&mut self) {
        let n = self.s.n;
        for x in 0..W {
            for y in 0..6 {
                self.e.m.place(x, y, Cell::empty(NodeId::Nop));
            }
        }
        for i in 0..self.s.drive.len() {
            if self.s.drive[i].is_some() {
                let x = self.col(i);
                self.e.m.place(x, 0, bot(src(i), 0));
                self.e.m.place(x, 1, top(n, i as u8));
            }
        }
        for o in 0..self.logs.len() {
            let x = self.col(o);
            self.e.m.place(x, 3, bot(n, o as u8));
            self.e.m.place(x, 4, top(snk(o), 0));
        }
        if self.s.drive.iter().all(|d| d.is_none()) && self.logs.is_empty() {
            let x = self.col(0);
            self.e.m.place(x, 1, Cell::empty(n));
        }
    }
    fn block(&mut self, n: usize) {
        self.e.x.process_graph_updates();
        let l: Vec<f32> = (0..n).map(|i| Sig::Smooth(20).at(self.frame + i)).collect();
        let r: Vec<f32> = (0..n).map(|i| Sig::Smooth(23).at(self.frame + i)).collect();
        let (a, b) = block2(&mut self.e.x, &l, &r);
        self.out.0.extend(a);
        self.out.1.extend(b);
        self.frame += n;
    }
    fn streams(&self) -> Vec<Vec<f32>> {
        let mut v: Vec<Vec<f32>> = self.logs.iter().map(|l| l.lock().unwrap().inp.clone()).collect();
        v.push(self.out.0.clone());
        v.push(self.out.1.clone());
        v
    }
}

const EDITS: [&str; 15] = [
    "place an unrelated cell",
    "place another instance of the node",
    "remove an unrelated cell",
    "move an unrelated cell",
    "link two unrelated nodes",
    "move all cells of the node, same links",
    "change a parameter of an unrelated node",
    "toggle an amount of an unrelated node",
    "sync without any change",
    "monitor a cell of the node",
    "read the node's output with one more node",
    "edit that is refused (cycle)",
    "edit that is refused (doubly driven input)",
    "place an unlinked source in front of everything",
    "unlink and relink unrelated nodes around another order",
];

fn edit(r: &mut MRig, e: usize) -> Result<(), String> {
    let n = r.s.n;
    let ok = |x: Result<(), hexodsp::matrix::MatrixError>| x.map_err(|e| format!("edit refused: {:?}", e));
    let m = &mut r.e.m;
    match e {
        0 => {
            m.place(0, 6, Cell::empty(A1));
            ok(m.sync())
        }
        1 => {
            if !matches!(n, NodeId::Out(_)) {
                m.place(1, 6, Cell::empty(n.to_instance(7)));
            }
            ok(m.sync())
        }
        2 => {
            m.place(3, 6, Cell::empty(NodeId::Nop));
            ok(m.sync())
        }
        3 => {
            m.place(3, 6, Cell::empty(NodeId::Nop));
            m.place(5, 6, Cell::empty(A0));
            ok(m.sync())
        }
        4 => {
            m.place(10, 6, bot(A0, 0));
            m.place(10, 7, top(A2, 0));
            ok(m.sync())
        }
        5 => {
            r.mirrored = !r.mirrored;
            r.place_t();
            ok(r.e.m.sync())
        }
        6 => {
            m.set_param(pid(A0, "inp"), SAtom::param(0.7));
            m.set_param(pid(A2, "gain"), SAtom::param(0.2));
            Ok(())
        }
        7 => ok(m.set_param_modamt(pid(A2, "inp"), Some(0.3))),
        8 => ok(m.sync()),
        9 => {
            let mut c = None;
            for x in 0..W {
                if let Some(cell) = m.get_copy(x, 3) {
                    if cell.node_id() == n {
                        c = Some(cell);
                    }
                }
            }
            if let Some(c) = c {
                m.monitor_cell(c);
            }
            Ok(())
        }
        10 => {
            if !r.logs.is_empty() {
                m.place(14, 6, bot(n, 0));
                m.place(14, 7, top(A3, 0));
            }
            ok(m.sync())
        }
        11 => {
            let x = m.change_matrix(|m| {
                m.place(16, 6, bot(A0, 0));
                m.place(16, 7, top(A1, 0));
                m.place(17, 6, bot(A1, 0));
                m.place(17, 7, top(A0, 0));
            });
            if x.is_ok() {
                return Err("a cycle was accepted".into());
            }
            Ok(())
        }
        12 => {
            let x = m.change_matrix(|m| {
                m.place(16, 6, bot(A0, 0));
                m.place(16, 7, top(A2, 0));
                m.place(17, 6, bot(A1, 0));
                m.place(17, 7, top(A2, 0));
            });
            if x.is_ok() {
                return Err("a doubly driven input was accepted".into());
            }
            Ok(())
        }
        13 => {
            m.place(19, 6, Cell::empty(NodeId::Sin(9)));
            ok(m.sync())
        }
        _ => {
            // clear every unrelated cell, then place them in another arrangement
            for x in 0..W {
                m.place(x, 6, Cell::empty(NodeId::Nop));
                m.place(x, 7, Cell::empty(NodeId::Nop));
            }
            m.place(20, 6, bot(A2, 0));
            m.place(20, 7, top(A1, 0));
            ok(m.sync())
        }
    }
}

fn scenarios(n: NodeId, all: bool) -> Vec<Scen> {
    let k = nin(n);
    let mixed: Vec<Option<Sig>> = (0..k)
        .map(|i| {
            let nm = n.inp_param_by_idx(i).unwrap().name();
            Some(if nm == "trig" || nm == "gate" || nm.starts_with("t_") || nm == "clock" { Sig::Gate(i as u32) } else { Sig::Smooth(i as u32) })
        })
        .collect();
    let trig: Vec<Option<Sig>> = mixed.iter().enumerate().map(|(i, d)| match d { Some(Sig::Gate(i)) => Some(Sig::Gate(*i)), _ if i == 0 => Some(Sig::Smooth(0)), _ => None }).collect();
    let mut v = vec![];
    for (vi, set) in setting_variants(n).into_iter().enumerate() {
        if vi > 0 && !all {
            break;
        }
        let mut a = Scen { n, drive: trig.clone(), set: set.clone(), amt: false, ramp: true };
        let mut b = Scen { n, drive: mixed.clone(), set, amt: vi % 2 == 1, ramp: false };
        if let NodeId::FVaFilt(_) | NodeId::BiqFilt(_) = n {
            for s in [&mut a, &mut b] {
                for i in 1..k {
                    s.drive[i] = None;
                }
            }
        }
        v.push(a);
        if vi < 3 {
            let mut c = b.clone();
            c.amt = !c.amt;
            v.push(c);
        }
        v.push(b);
    }
    v
}

const BLOCKS: [usize; 12] = [64, 33, 128, 64, 1, 97, 128, 128, 64, 128, 64, 128];

fn exec(s: &Scen, edits: &[(usize, usize)], c: &mut Case) -> Result<Vec<Vec<f32>>, String> {
    exec_during(s, edits, None, c).map(|r| r.0)
}
/// `during`: (block, queue operation of the edit before that block, frames): a callback of that many frames
/// takes place right before that operation; without an edit it takes place before the block.
/// Returns the number of queue operations of that edit, too.
fn exec_during(s: &Scen, edits: &[(usize, usize)], during: Option<(usize, usize, usize)>, c: &mut Case) -> Result<(Vec<Vec<f32>>, usize), String> {
    let mut ops = 0;
    let mut r = MRig::new(s);
    let n = s.n;
    if matches!(n, NodeId::TSeq(_)) {
        for _ in 0..12 {
            r.block(1);
        }
    }
    let skip: &[usize] = if matches!(n, NodeId::FVaFilt(_)) { &[2, 3, 4] } else { &[] };
    let events: [(usize, HxTimedEvent); 5] = [
        (0, HxTimedEvent::note_on(5, 0, 60, 1.0)),
        (1, HxTimedEvent::cc(3, 0, 0, 0.3)),
        (2, HxTimedEvent::note_on(9, 0, 65, 0.5)),
        (5, HxTimedEvent::cc(40, 0, 0, 0.8)),
        (6, HxTimedEvent::note_off(20, 0, 65)),
    ];
    for (b, len) in BLOCKS.iter().enumerate() {
        if s.ramp && (b == 1 || b == 4) {
            for i in (0..nin(n)).filter(|i| !skip.contains(i)) {
                r.e.m.set_param(n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(n, i, b)));
            }
        }
        for (at, e) in edits.iter() {
            if *at == b {
                c.step();
                let rp = &mut r as *mut MRig;
                let (at, frames) = match during {
                    Some((w, k, n)) if w == b => (vec![k], n),
                    _ => (vec![], 0),
                };
                let (res, n) = at_points(&at, &mut |_| unsafe { (*rp).block(frames) }, || edit(&mut r, *e));
                res?;
                if !at.is_empty() {
                    ops = n;
                    if at[0] >= n {
                        r.block(frames);
                    }
                }
            }
        }
        if let Some((w, _, n)) = during {
            if w == b && edits.is_empty() {
                r.block(n);
            }
        }
        if matches!(n, NodeId::MidiP(_) | NodeId::MidiCC(_)) {
            let mut it = events.iter().filter(|(k, _)| *k == b).map(|(_, e)| *e);
            r.e.x.feed_midi_events_from(|| it.next());
        }
        r.block(*len);
        c.step();
    }
    Ok((r.streams(), ops))
}

fn compare(s: &Scen, edits: &[(usize, usize)], want: &[Vec<f32>], c: &mut Case) -> Result<(), String> {
    let got = exec(s, edits, c)?;
    for o in 0..want.len() {
        c.checks += want[o].len() as u64;
        crate::layout::diff(
            &format!(
                "{:?} {} with edits {:?}",
                s.n,
                if o + 2 >= want.len() { "audio output".into() } else { format!("output {}", o) },
                edits.iter().map(|(b, e)| format!("before block {}: {}", b, EDITS[*e])).collect::<Vec<_>>()
            ),
            &got[o],
            &want[o],
        )?;
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution renders one node type inside a matrix with and without a sequence of edits elsewhere; distinct observations are distinct reference streams.".into();
    let nodes = all_nodes();
    let mut scen = vec![];
    for n in nodes.iter() {
        scen.extend(scenarios(*n, true));
    }
    let pos: Vec<usize> = mc.pick(vec![2, 5], vec![0, 1, 2, 3, 4, 5, 7]);
    mc.space("single-edits", scen.len() as u64, |idx, c| {
        let s = &scen[idx as usize];
        c.log(|| format!("{:?}", s));
        let want = exec(s, &[], c)?;
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        for b in pos.iter() {
            for e in 0..EDITS.len() {
                compare(s, &[(*b, e)], &want, c)?;
            }
        }
        Ok(())
    });
    let mut scen = vec![];
    for n in nodes.iter() {
        scen.extend(scenarios(*n, mc.thorough()));
    }
    let mc_frames: Vec<usize> = mc.pick(vec![64], vec![1, 64, 128]);
    let pp: Vec<(usize, usize)> = mc.pick(vec![(2, 3)], vec![(1, 1), (2, 2), (2, 3), (1, 4), (4, 5)]);
    mc.space("edit-pairs", scen.len() as u64, |idx, c| {
        let s = &scen[idx as usize];
        c.log(|| format!("{:?}", s));
        let want = exec(s, &[], c)?;
        for (b1, b2) in pp.iter() {
            for e1 in 0..EDITS.len() {
                for e2 in 0..EDITS.len() {
                    compare(s, &[(*b1, e1), (*b2, e2)], &want, c)?;
                }
            }
        }
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        Ok(())
    });
    // the audio callback runs in the middle of the edit, at each of its queue operations
    mc.space("audio-during-an-edit", scen.len() as u64, |idx, c| {
        let s = &scen[idx as usize];
        c.log(|| format!("{:?}", s));
        for frames in mc_frames.iter() {
            let want = exec_during(s, &[], Some((3, 0, *frames)), c)?.0;
            c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
            for e in 0..EDITS.len() {
                let mut k = 0;
                loop {
                    c.log(|| format!("a callback of {} frames before queue operation {} of: {}", frames, k, EDITS[e]));
                    let (got, n) = exec_during(s, &[(3, e)], Some((3, k, *frames)), c)?;
                    for o in 0..want.len() {
                        c.checks += want[o].len() as u64;
                        crate::layout::diff(&format!("{:?} output {} with a callback of {} frames before operation {} of: {}", s.n, o, frames, k, EDITS[e]), &got[o], &want[o])?;
                    }
                    k += 1;
                    if k >= n {
                        break;
                    }
                }
            }
        }
        Ok(())
    });
    mc.assume("both runs get the same audio input, the same block sizes and, for the node under observation, the same parameter changes");
}
