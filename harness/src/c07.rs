use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::*;
use hexodsp::nodes::*;
use hexodsp::*;
use hexodsp::dsp::tracker::UIPatternModel;

#[derive(Clone, Debug)]
struct Scen {
    n: NodeId,
    drive: Vec<Option<Sig>>,
    set: Vec<(ParamId, SAtom)>,
    base: usize,
    change_at: Option<usize>,
    setting_change: Option<(ParamId, SAtom)>,
    sr: f32,
    /// inputs that keep their value
    fixed: Vec<usize>,
}

pub fn fill_pattern(p: &mut hexodsp::dsp::tracker::PatternData) {
    p.set_rows(8);
    p.set_col_note_type(0);
    p.set_col_step_type(1);
    p.set_col_value_type(2);
    p.set_col_gate_type(3);
    for row in 0..8 {
        for col in 0..6 {
            if (row + col) % 2 == 0 {
                // gate cells that always fire: the others are decided by a clock seeded generator
                let or = if col == 3 { 0xf00 } else { 0 };
                p.set_cell_value(row, col, (((row * 331 + col * 97 + 40) % 4096) | or) as u16);
            }
        }
    }
}

pub fn prepare(r: &mut NRig) {
    if let NodeId::TSeq(i) = r.n {
        let g = r.nc.get_node_global();
        let mut g = g.lock().unwrap();
        let pd = g.get_pattern_data(i as usize);
        {
            let mut p = pd.lock().unwrap();
            fill_pattern(&mut p);
        }
        for _ in 0..20 {
            g.check_pattern_data(i as usize);
        }
    }
}

const TOTAL: usize = 640;

fn exec(s: &Scen, cut: &dyn Fn(usize) -> bool, c: &mut Case) -> Vec<Vec<f32>> {
    let mut r = NRig::new(s.n, &s.drive);
    r.x.set_sample_rate(s.sr);
    prepare(&mut r);
    for i in 0..nin(s.n) {
        if s.base > 0 && !s.fixed.contains(&i) {
            r.nc.set_param(s.n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(s.n, i, s.base)));
        }
    }
    for (p, a) in s.set.iter() {
        r.nc.set_param(*p, a.clone());
    }
    r.upload();
    let evs: Vec<HxTimedEvent> = vec![
        HxTimedEvent::note_on(0, 0, 60, 1.0),
        HxTimedEvent::cc(3, 0, 0, 0.3),
        HxTimedEvent::note_off(60, 0, 60),
        HxTimedEvent::note_on(61, 0, 67, 0.5),
        HxTimedEvent::cc(64, 0, 0, 0.9),
        HxTimedEvent::note_on(127, 0, 70, 0.7),
        HxTimedEvent::note_on(127, 0, 72, 0.9),
        HxTimedEvent::cc(128, 0, 1, 0.4),
        HxTimedEvent::note_off(200, 0, 72),
        HxTimedEvent::note_on(333, 0, 40, 0.2),
        HxTimedEvent::cc(333, 0, 0, 0.1),
        HxTimedEvent::note_off(400, 0, 40),
    ];
    let midi = matches!(s.n, NodeId::MidiP(_) | NodeId::MidiCC(_));
    let mut f = 0;
    let mut ei = 0;
    let mut win = EventWindowing::new();
    while f < TOTAL {
        if s.change_at == Some(f) {
            for i in (0..nin(s.n)).filter(|i| !s.fixed.contains(i)) {
                r.nc.set_param(s.n.inp_param_by_idx(i).unwrap(), SAtom::param(param_val(s.n, i, s.base + 1)));
            }
            if let Some((p, a)) = &s.setting_change {
                r.nc.set_param(*p, a.clone());
            }
        }
        // the tracker takes over one pattern column per block: let it have the whole pattern first
        let warm = matches!(s.n, NodeId::TSeq(_)) && f < 12;
        let mut n = 1;
        while !warm && n < 128 && f + n < TOTAL && !cut(f + n) && s.change_at != Some(f + n) {
            n += 1;
        }
        if midi {
            r.x.feed_midi_events_from(|| {
                if win.feed_me() {
                    if ei >= evs.len() {
                        return None;
                    }
                    win.feed(evs[ei]);
                    ei += 1;
                }
                win.next_event_in_range(f, n)
            });
        }
        r.block(n);
        c.step();
        f += n;
    }
    r.streams()
}

fn scenarios(n: NodeId, thorough: bool) -> Vec<Scen> {
    let k = nin(n);
    let base = Scen { n, drive: vec![None; k], set: vec![], base: 0, change_at: None, setting_change: None, sr: 44100.0, fixed: vec![] };
    let mut v = vec![];
    let variants = setting_variants(n);
    let smooth: Vec<Option<Sig>> = (0..k).map(|i| Some(Sig::Smooth(i as u32))).collect();
    let pulse: Vec<Option<Sig>> = (0..k).map(|i| Some(Sig::Pulse(i as u32))).collect();
    let gate: Vec<Option<Sig>> = (0..k).map(|i| Some(Sig::Gate(i as u32))).collect();
    let mixed: Vec<Option<Sig>> = (0..k)
        .map(|i| {
            let nm = n.inp_param_by_idx(i).unwrap().name();
            Some(if nm == "trig" || nm == "gate" || nm.starts_with("t_") || nm == "clock" { Sig::Gate(i as u32) } else { Sig::Smooth(i as u32) })
        })
        .collect();
    let trig_only: Vec<Option<Sig>> = mixed.iter().map(|d| match d { Some(Sig::Gate(i)) => Some(Sig::Gate(*i)), _ => None }).collect();
    let trig_pulse: Vec<Option<Sig>> = mixed.iter().map(|d| match d { Some(Sig::Gate(i)) => Some(Sig::Pulse(*i)), _ => None }).collect();
    let inp_trig: Vec<Option<Sig>> = mixed.iter().enumerate().map(|(i, d)| match d { Some(Sig::Gate(i)) => Some(Sig::Gate(*i)), _ if i == 0 => Some(Sig::Smooth(0)), _ => None }).collect();
    for (vi, set) in variants.iter().enumerate() {
        let mut b = base.clone();
        b.set = set.clone();
        for d in [&base.drive, &trig_only, &trig_pulse, &mixed, &inp_trig, &smooth, &pulse, &gate] {
            let mut s = b.clone();
            s.drive = d.clone();
            v.push(s.clone());
            s.base = 1 + vi % 3;
            v.push(s.clone());
            s.change_at = Some(150);
            // a setting changes on the fly too
            if let Some(x) = variants.get(vi + 1).and_then(|x| x.last()) {
                s.setting_change = Some(x.clone());
            }
            v.push(s.clone());
        }
        if vi == 0 || thorough {
            for i in 0..k {
                for sig in [Sig::Smooth(3), Sig::Pulse(2), Sig::Gate(1)] {
                    let mut s = b.clone();
                    s.drive[i] = Some(sig);
                    s.base = i % 4;
                    v.push(s);
                }
            }
        }
        if vi == 0 {
            for sr in [8000.0, 96000.0] {
                let mut s = b.clone();
                s.drive = mixed.clone();
                s.sr = sr;
                v.push(s.clone());
                s.drive = inp_trig.clone();
                s.base = 2;
                v.push(s);
            }
        }
    }
    if let NodeId::BiqFilt(_) = n {
        // documented as not meant for automation: these inputs are read once per block
        for s in v.iter_mut() {
            for i in 1..4 {
                s.drive[i] = None;
            }
            s.fixed = vec![1, 2, 3];
            let k = (s.base % 4) as f32;
            s.set.push((n.inp_param("freq").unwrap(), SAtom::param(-0.3 + 0.1 * k)));
        }
    }
    if let NodeId::FVaFilt(_) = n {
        // the ladder filter solver of the synfx-dsp crate does not end for some strongly
        // driven inputs and high frequencies
        // (see C33): keep frequency, resonance and drive moderate here
        for s in v.iter_mut() {
            for i in 2..5 {
                s.drive[i] = None;
            }
            s.fixed = vec![2, 3, 4];
            let k = (s.base % 4) as f32;
            s.set.push((n.inp_param("freq").unwrap(), SAtom::param(-0.3 + 0.1 * k)));
            s.set.push((n.inp_param("drive").unwrap(), SAtom::param(0.04 * k)));
        }
    }
    v
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution renders one node type with scripted inputs under one partition into blocks; distinct observations are distinct output streams.".into();
    let nodes: Vec<NodeId> = all_nodes();
    let mut scen: Vec<Scen> = vec![];
    for n in nodes.iter() {
        scen.extend(scenarios(*n, mc.thorough()));
    }
    let sizes: Vec<usize> = if mc.thorough() { (1..=128).collect() } else { vec![1, 2, 3, 7, 33, 63, 65, 100, 127, 128] };
    mc.space("block-sizes", scen.len() as u64, |idx, c| {
        let s = &scen[idx as usize];
        c.log(|| format!("{:?} drive {:?} settings {:?} base {} change {:?}", s.n, s.drive, s.set.len(), s.base, s.change_at));
        let want = exec(s, &|f| f % 64 == 0, c);
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        for b in sizes.iter() {
            let got = exec(s, &|f| f % b == 0, c);
            for o in 0..got.len() {
                c.checks += TOTAL as u64;
                crate::layout::diff(&format!("{:?} output {} in blocks of {} frames instead of 64", s.n, o, b), &got[o], &want[o])?;
            }
        }
        Ok(())
    });
    // every subset of cut positions, for a few scenarios of every node
    let per: Vec<Scen> = nodes
        .iter()
        .flat_map(|n| {
            let v = scenarios(*n, false);
            let pick: Vec<usize> = if mc.thorough() { (0..v.len().min(24)).collect() } else { vec![10, 13] };
            pick.into_iter().filter(|i| *i < v.len()).map(|i| v[i].clone()).collect::<Vec<_>>()
        })
        .collect();
    let cand: Vec<usize> = mc.pick(vec![1, 60, 100, 127, 200, 333], vec![1, 2, 60, 64, 100, 127, 200, 333]);
    let nm = 1u64 << cand.len();
    mc.space("cut-subsets", per.len() as u64, |idx, c| {
        let s = &per[idx as usize];
        c.log(|| format!("{:?} drive {:?} base {} change {:?}", s.n, s.drive, s.base, s.change_at));
        let want = exec(s, &|f| f % 64 == 0, c);
        for mask in 0..nm {
            let got = exec(s, &|f| cand.iter().enumerate().any(|(i, k)| mask & (1 << i) != 0 && f % 400 == *k), c);
            for o in 0..got.len() {
                c.checks += TOTAL as u64;
                crate::layout::diff(&format!("{:?} output {} with cut set {:b}", s.n, o, mask), &got[o], &want[o])?;
            }
        }
        c.observe(&want.iter().map(|w| bits(w)).collect::<Vec<_>>());
        Ok(())
    });
    mc.assume("parameter and setting changes arrive at the same frame in all partitions compared");
}
