//! C32: an observer is told about every change.
use crate::eng::*;
use crate::mc::*;
use hexodsp::matrix::MatrixObserver;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::nodes::{HxMidiEvent, HxTimedEvent};
use hexodsp::*;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Prop(String),
    Monitor(String),
    Param(String),
    Matrix,
    All,
    Midi(String),
}
#[derive(Default)]
struct Obs(Mutex<Vec<Ev>>);
impl Obs {
    fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
    fn put(&self, e: Ev) {
        self.0.lock().unwrap().push(e)
    }
}
fn cell_s(c: &Cell) -> String {
    format!("{:?}@{:?}", c.to_repr().serialize().to_string(), c.pos())
}
fn par_s(p: &ParamId) -> String {
    format!("{}.{}", p.node_id(), p.name())
}
impl MatrixObserver for Obs {
    fn update_prop(&self, key: &str) {
        self.put(Ev::Prop(key.to_string()))
    }
    fn update_monitor(&self, cell: &Cell) {
        self.put(Ev::Monitor(cell_s(cell)))
    }
    fn update_param(&self, p: &ParamId) {
        self.put(Ev::Param(par_s(p)))
    }
    fn update_matrix(&self) {
        self.put(Ev::Matrix)
    }
    fn update_all(&self) {
        self.put(Ev::All)
    }
    fn midi_event(&self, e: HxMidiEvent) {
        self.put(Ev::Midi(midi_s(&e)))
    }
}
fn midi_s(e: &HxMidiEvent) -> String {
    match e {
        HxMidiEvent::NoteOn { channel, note, vel } => format!("on {} {} {}", channel, note, vel),
        HxMidiEvent::NoteOff { channel, note } => format!("off {} {}", channel, note),
        HxMidiEvent::CC { channel, cc, value } => format!("cc {} {} {}", channel, cc, value),
    }
}

const W: usize = 3;
const H: usize = 2;
const KEYS: [&str; 3] = ["a", "b", "zoom"];
fn params() -> Vec<ParamId> {
    let mut v = vec![];
    for (n, ps) in [(NodeId::Sin(0), vec!["freq", "det"]), (NodeId::Amp(0), vec!["inp", "gain", "att", "neg_att"]), (NodeId::Out(0), vec!["ch1", "mono"]), (NodeId::Sin(1), vec!["freq"])] {
        for p in ps {
            v.push(pid(n, p));
        }
    }
    v
}

#[derive(Clone, PartialEq)]
struct Seen {
    cells: Vec<String>,
    params: Vec<(String, String)>,
    props: Vec<String>,
    monitored: String,
}
fn see_cells(m: &Matrix) -> Vec<String> {
    let mut v = vec![];
    m.for_each(|_, _, c| v.push(cell_s(c)));
    v
}
fn see_param(m: &Matrix, p: &ParamId) -> (String, String) {
    (format!("{:?}", m.get_param(p)), format!("{:?}", m.get_param_modamt(p)))
}
fn see_prop(m: &mut Matrix, k: &str) -> String {
    format!("{:?}", m.get_prop(k))
}
fn see(m: &mut Matrix, ps: &[ParamId]) -> Seen {
    Seen {
        cells: see_cells(m),
        params: ps.iter().map(|p| see_param(m, p)).collect(),
        props: KEYS.iter().map(|k| see_prop(m, k)).collect(),
        monitored: cell_s(m.monitored_cell()),
    }
}

fn sin0() -> Cell {
    Cell::empty(NodeId::Sin(0)).out(None, Some(0), None)
}
fn amp0() -> Cell {
    Cell::empty(NodeId::Amp(0)).input(None, NodeId::Amp(0).inp("gain"), None).out(None, None, Some(0))
}
fn repr(kind: usize) -> MatrixRepr {
    static R: OnceLock<[String; 2]> = OnceLock::new();
    let r = R.get_or_init(|| [0, 1].map(|k| make_repr(k).serialize().to_string()));
    MatrixRepr::deserialize(&r[kind]).unwrap()
}
fn make_repr(kind: usize) -> MatrixRepr {
    let mut e = engine(W, H);
    e.m.place(0, 0, Cell::empty(NodeId::Sin(1)).out(None, Some(0), None));
    e.m.place(1, 0, Cell::empty(NodeId::Out(0)).input(None, Some(0), None));
    e.m.sync().unwrap();
    e.m.set_param(pid(NodeId::Sin(1), "freq"), SAtom::param(0.3));
    e.m.set_prop("zoom", SAtom::setting(5));
    let mut r = e.m.to_repr();
    if kind == 1 {
        // the same node fed by itself around the corner
        r.cells[1] = Cell::empty_at(NodeId::Sin(1), 1, 0).input(None, Some(0), None).to_repr();
    }
    r
}

/// the client that knows the matrix from its notifications only
struct Rig {
    e: Eng,
    obs: Arc<Obs>,
    ps: Vec<ParamId>,
    mirror: Seen,
    /// placed cells that are not published yet
    pending: bool,
    gen: usize,
    /// position of the cell the user chose to monitor
    chosen: (usize, usize),
}
enum Want {
    Nothing,
    Exactly(Vec<Ev>),
    Synced,
    All,
}
const NOPS: usize = 25;
impl Rig {
    fn new(base: bool) -> Rig {
        let mut e = engine(W, H);
        if base {
            e.m.place(0, 0, sin0());
            e.m.place(1, 0, amp0());
            e.m.place(1, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
            e.m.sync().unwrap();
        }
        let obs = Arc::new(Obs::default());
        e.m.set_observer(obs.clone());
        let ps = params();
        let mirror = see(&mut e.m, &ps);
        let gen = e.m.get_generation();
        Rig { e, obs, ps, mirror, pending: false, gen, chosen: (0, 0) }
    }
    fn op(&mut self, o: usize, c: &mut Case) -> Result<(), String> {
        let freq = pid(NodeId::Sin(0), "freq");
        let gain = pid(NodeId::Amp(0), "gain");
        let att = pid(NodeId::Amp(0), "att");
        let mono = pid(NodeId::Out(0), "mono");
        let mut changes = true;
        let m = &mut self.e.m;
        let set = |m: &mut Matrix, p: ParamId, v: SAtom| {
            m.set_param(p, v);
            Want::Exactly(vec![Ev::Param(par_s(&p))])
        };
        let name;
        let want = match o {
            0 => {
                name = "place sin0";
                m.place(0, 0, sin0());
                self.pending = true;
                changes = false;
                Want::Nothing
            }
            1 => {
                name = "place amp0";
                m.place(1, 0, amp0());
                self.pending = true;
                changes = false;
                Want::Nothing
            }
            2 => {
                name = "place a second sin0 that closes a cycle";
                m.place(1, 0, Cell::empty(NodeId::Sin(0)).input(None, Some(0), None));
                m.place(0, 0, sin0());
                self.pending = true;
                changes = false;
                Want::Nothing
            }
            3 => {
                name = "empty the first cell";
                m.place(0, 0, Cell::empty(NodeId::Nop));
                self.pending = true;
                changes = false;
                Want::Nothing
            }
            4 => {
                name = "sync";
                if m.sync().is_ok() {
                    self.pending = false;
                    Want::Synced
                } else {
                    changes = false;
                    Want::Nothing
                }
            }
            5 => {
                name = "change_matrix: new sin1, then sync";
                let r = m.change_matrix(|m| m.place(2, 1, Cell::empty(NodeId::Sin(1))));
                if r.is_ok() {
                    self.pending = true;
                    if m.sync().is_ok() {
                        self.pending = false;
                        Want::Synced
                    } else {
                        return Err("an accepted change_matrix does not sync".into());
                    }
                } else {
                    changes = false;
                    Want::Nothing
                }
            }
            6 => {
                name = "change_matrix that is refused";
                let r = m.change_matrix(|m| {
                    m.place(0, 0, sin0());
                    m.place(1, 0, Cell::empty(NodeId::Sin(0)).input(None, Some(0), None));
                });
                if r.is_ok() {
                    return Err("a cycle was accepted".into());
                }
                changes = false;
                Want::Nothing
            }
            7 => {
                name = "freq = 0.1";
                set(m, freq, SAtom::param(0.1))
            }
            8 => {
                name = "freq = 0.2";
                set(m, freq, SAtom::param(0.2))
            }
            9 => {
                name = "att = 0.5";
                set(m, att, SAtom::param(0.5))
            }
            10 => {
                name = "mono = 1";
                set(m, mono, SAtom::setting(1))
            }
            11 | 12 | 13 | 14 => {
                let (p, a) = match o {
                    11 => (gain, Some(0.4)),
                    12 => (gain, Some(-0.7)),
                    13 => (gain, None),
                    _ => (freq, Some(0.25)),
                };
                name = "modulation amount";
                if self.pending {
                    return Ok(());
                }
                if let Err(e) = m.set_param_modamt(p, a) {
                    return Err(format!("modulation amount refused on a valid layout: {:?}", e));
                }
                Want::Exactly(vec![Ev::Param(par_s(&p))])
            }
            15 | 16 | 17 => {
                let (k, v) = [("a", SAtom::setting(1)), ("a", SAtom::param(0.5)), ("b", SAtom::str("x"))][o - 15].clone();
                name = "property";
                m.set_prop(k, v);
                Want::Exactly(vec![Ev::Prop(k.into())])
            }
            18 | 19 => {
                let cell = m.get_copy(o - 18, 0).unwrap();
                name = "monitor";
                m.monitor_cell(cell);
                self.chosen = (o - 18, 0);
                changes = false;
                Want::Exactly(vec![Ev::Monitor(cell_s(&cell))])
            }
            20 => {
                name = "clear";
                m.clear();
                self.chosen = (0, 0);
                self.pending = false;
                Want::All
            }
            21 | 22 => {
                name = if o == 21 { "load a patch" } else { "load an invalid patch" };
                let r = repr(o - 21);
                let res = m.from_repr(&r);
                self.chosen = (0, 0);
                if res.is_ok() != (o == 21) {
                    return Err(format!("loading patch {} gave {:?}", o - 21, res));
                }
                // an invalid layout cannot be taken for a published one
                self.pending = res.is_err();
                Want::All
            }
            23 => {
                name = "a new observer";
                let n = Arc::new(Obs::default());
                m.set_observer(n.clone());
                let old = std::mem::replace(&mut self.obs, n);
                // nothing may be sent to the old one from here on
                if Arc::strong_count(&old) != 1 {
                    return Err("the replaced observer is still held".into());
                }
                changes = false;
                Want::Nothing
            }
            _ => {
                name = "save, place, check and restore";
                m.save_matrix();
                m.place(2, 0, Cell::empty(NodeId::Noise(0)));
                let _ = m.check();
                m.restore_matrix();
                changes = false;
                Want::Nothing
            }
        };
        let got = self.obs.take();
        c.log(|| format!("{} ({}): {:?} generation {}", name, o, got, self.e.m.get_generation()));
        let ok = match &want {
            Want::Nothing => got.is_empty(),
            Want::Exactly(v) => got == *v,
            Want::Synced => got.iter().filter(|e| **e == Ev::Matrix).count() == 1 && got.iter().all(|e| *e == Ev::Matrix || matches!(e, Ev::Monitor(_))),
            Want::All => got.last() == Some(&Ev::All),
        };
        if !ok {
            return Err(format!("{}: the observer was told {:?}", name, got));
        }
        let g = self.e.m.get_generation();
        if g < self.gen {
            return Err(format!("{}: the generation went back from {} to {}", name, self.gen, g));
        }
        if changes && g == self.gen {
            return Err(format!("{}: the generation stayed {} although something changed", name, g));
        }
        if !changes && g != self.gen && o == 4 {
            return Err(format!("{}: refused, but the generation moved from {} to {}", name, self.gen, g));
        }
        self.gen = g;
        // the client re-reads what it was told about
        let m = &mut self.e.m;
        for ev in &got {
            match ev {
                Ev::Prop(k) => {
                    let i = KEYS.iter().position(|x| x == k).ok_or("unknown property")?;
                    self.mirror.props[i] = see_prop(m, k);
                }
                Ev::Monitor(s) => self.mirror.monitored = s.clone(),
                Ev::Param(s) => {
                    let i = self.ps.iter().position(|p| par_s(p) == *s).ok_or("unknown parameter")?;
                    self.mirror.params[i] = see_param(m, &self.ps[i]);
                }
                Ev::Matrix => {
                    self.mirror.cells = see_cells(m);
                    for (i, p) in self.ps.iter().enumerate() {
                        self.mirror.params[i] = see_param(m, p);
                    }
                }
                Ev::All => self.mirror = see(m, &self.ps),
                Ev::Midi(_) => return Err("an unexpected MIDI event".into()),
            }
        }
        let now = see(m, &self.ps);
        if m.monitored_cell().pos() != self.chosen {
            return Err(format!("{}: the cell at {:?} is monitored, but {:?} was chosen", name, m.monitored_cell().pos(), self.chosen));
        }
        c.checks += 1;
        c.observe(&(hash_of(&now.cells), hash_of(&now.params), hash_of(&now.props), hash_of(&now.monitored)));
        if now.monitored != self.mirror.monitored {
            return Err(format!("{}: the monitored cell is {}, the client believes {}", name, now.monitored, self.mirror.monitored));
        }
        if now.props != self.mirror.props {
            return Err(format!("{}: properties are {:?}, the client believes {:?}", name, now.props, self.mirror.props));
        }
        if !self.pending {
            if now.cells != self.mirror.cells {
                return Err(format!("{}: cells are {:?}, the client believes {:?}", name, now.cells, self.mirror.cells));
            }
            for i in 0..self.ps.len() {
                if now.params[i] != self.mirror.params[i] {
                    return Err(format!("{}: {} is {:?}, the client believes {:?}", name, par_s(&self.ps[i]), now.params[i], self.mirror.params[i]));
                }
            }
        }
        Ok(())
    }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "A client that re-reads only what the notifications name agrees with the matrix after every call; every call sends exactly the notifications of what it changed; the generation counter moves with every change and never for a refused one".into();
    mc.assume("placed cells count as a change once sync publishes them; modulation amounts are set while no unpublished cells are pending");
    let depth = mc.pick(3, 4);
    for base in [true, false] {
        mc.space(if base { "operations on a running patch" } else { "operations on an empty matrix" }, pow(NOPS as u64, depth), move |idx, c| {
            let mut d = Dec(idx);
            let mut r = Rig::new(base);
            for _ in 0..depth {
                let o = d.take(NOPS);
                c.step();
                r.op(o, c)?;
            }
            Ok(())
        });
    }
    // a modulation amount set while an unusable layout is pending: refused or not, the observer stays
    mc.space("operations after a modulation amount on an unusable layout", 4 * 2 * (NOPS * NOPS) as u64, move |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(4);
        let before = d.flag();
        let gain = pid(NodeId::Amp(0), "gain");
        let freq = pid(NodeId::Sin(0), "freq");
        let mut r = Rig::new(true);
        if before {
            r.op(11, c)?;
        }
        let held = [r.e.m.get_copy(0, 0).unwrap(), r.e.m.get_copy(1, 0).unwrap()];
        r.op(2, c)?;
        let (p, a) = [(gain, Some(0.4)), (gain, None), (freq, Some(0.25)), (freq, None)][k];
        let res = r.e.m.set_param_modamt(p, a);
        c.log(|| format!("amount {:?}: {:?}", a, res));
        for (x, cell) in held.iter().enumerate() {
            r.e.m.place(x, 0, *cell);
        }
        r.e.m.sync().map_err(|e| format!("{:?}", e))?;
        r.obs.take();
        r.pending = false;
        r.gen = r.e.m.get_generation();
        r.mirror = see(&mut r.e.m, &params());
        for _ in 0..2 {
            c.step();
            r.op(d.take(NOPS), c)?;
        }
        Ok(())
    });
    // MIDI events reach whoever observes when they are handed out, once and in order
    let depth = mc.pick(6, 8);
    mc.space("midi events", pow(6, depth), move |idx, c| {
        let mut d = Dec(idx);
        let mut e = engine(2, 2);
        let mut obs = Arc::new(Obs::default());
        e.m.set_observer(obs.clone());
        e.m.place(0, 0, Cell::empty(NodeId::MidiP(0)));
        e.m.sync().unwrap();
        e.settle(1);
        let mut injected: Vec<Ev> = vec![];
        let mut on_audio: Vec<Ev> = vec![];
        let mut n = 0u8;
        obs.take();
        let mut handed = |e: &mut Eng, obs: &Arc<Obs>, on_audio: &mut Vec<Ev>, c: &mut Case| -> Result<(), String> {
            e.m.handle_graph_events();
            let got = obs.take();
            c.checks += 1;
            let want = std::mem::take(on_audio);
            if got != want {
                return Err(format!("the observer was handed {:?} instead of {:?}", got, want));
            }
            Ok(())
        };
        for _ in 0..depth {
            let o = d.take(6);
            c.step();
            match o {
                0 | 1 | 2 => {
                    n += 1;
                    let ev = match o {
                        0 => HxMidiEvent::NoteOn { channel: n % 3, note: 30 + n, vel: 0.5 },
                        1 => HxMidiEvent::NoteOff { channel: n % 3, note: 30 + n },
                        _ => HxMidiEvent::CC { channel: 1, cc: n, value: 0.25 * n as f32 },
                    };
                    e.m.inject_midi_event(ev);
                    injected.push(Ev::Midi(midi_s(&ev)));
                }
                3 => {
                    // one callback: injected events, then one of the host
                    n += 1;
                    let host = HxMidiEvent::CC { channel: 2, cc: 100 + n, value: 0.5 };
                    e.x.process_graph_updates();
                    let mut it = std::iter::once(HxTimedEvent::new_timed(3, host));
                    e.x.feed_midi_events_from(|| it.next());
                    block(&mut e.x, &[0.0; 16]);
                    on_audio.append(&mut injected);
                    on_audio.push(Ev::Midi(midi_s(&host)));
                }
                4 => handed(&mut e, &obs, &mut on_audio, c)?,
                _ => {
                    let n = Arc::new(Obs::default());
                    e.m.set_observer(n.clone());
                    obs = n;
                }
            }
            c.observe(&(injected.len(), on_audio.len()));
        }
        e.x.process_graph_updates();
        e.x.feed_midi_events_from(|| None);
        block(&mut e.x, &[0.0; 16]);
        on_audio.append(&mut injected);
        handed(&mut e, &obs, &mut on_audio, c)
    });
}
