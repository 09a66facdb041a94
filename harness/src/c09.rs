use crate::c08::*;
use crate::eng::*;
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::nodes::*;
use hexodsp::*;

const W: usize = 6;
const H: usize = 4;
const PROPS: [&str; 3] = ["p", "q", "r"];

pub fn fill(m: &mut Matrix, trk: usize, k: usize) {
    let pd = m.get_pattern_data(trk).unwrap();
    let mut p = pd.lock().unwrap();
    p.set_rows([8, 5, 3][k % 3]);
    p.set_col_note_type(k % 3);
    p.set_col_step_type((k + 1) % 3);
    p.set_col_gate_type(5 - k % 3);
    for r in 0..8 {
        p.set_cell_value(r, (r + k) % 6, (0xf00 + r * 31 + k) as u16);
    }
    p.set_cell_value(2 + k, 5 - k % 3, 0xf88);
}

pub fn polled(m: &mut Matrix) {
    for t in 0..3 {
        if m.has_tracker(t) {
            for _ in 0..8 {
                m.check_pattern_data(t);
            }
        }
    }
    for t in 0..3 {
        if m.has_code_engine(t) {
            let _ = m.check_block_function(t);
        }
    }
}

/// A patch with a tracker, a feedback pair, a block program, a delay, a sampler, oscillators and MIDI.
pub fn rich(m: &mut Matrix, k: usize) {
    let col = |m: &mut Matrix, x: usize, y: usize, n: NodeId, i: Option<u8>, o: Option<u8>| {
        m.place(x, y, Cell::empty(n).input(i, None, None).out(None, None, o));
    };
    m.set_param(pid(NodeId::Sin(0), "freq"), SAtom::param(0.1 * k as f32));
    m.set_param(pid(NodeId::Delay(0), "time"), SAtom::param(0.02));
    m.set_param(pid(NodeId::Mix3(0), "vol2"), SAtom::param(0.7));
    m.set_param(pid(NodeId::Sin(2), "det"), SAtom::param(0.05));
    if k == 0 {
        m.set_param(pid(NodeId::Out(0), "mono"), SAtom::setting(0));
    } else {
        m.set_param(pid(NodeId::MidiP(0), "chan"), SAtom::setting(3));
        m.set_param(pid(NodeId::Amp(5), "att"), SAtom::param(0.3));
    }
    col(m, 0, 0, NodeId::Inp(0), None, Some(1));
    col(m, 0, 1, NodeId::TSeq(0), Some(0), Some(k as u8));
    col(m, 0, 2, NodeId::Mix3(1), Some(0), Some(0));
    col(m, 0, 3, NodeId::Out(0), Some(0), None);
    col(m, 1, 0, NodeId::FbRd(0), None, Some(0));
    col(m, 1, 1, NodeId::Mix3(0), Some(0), None);
    col(m, 1, 2, NodeId::Mix3(0), None, Some(0));
    col(m, 1, 3, NodeId::Out(0), Some(1), None);
    col(m, 2, 0, NodeId::Code(0), None, Some(1));
    col(m, 2, 1, NodeId::Mix3(0), Some(1), None);
    col(m, 2, 2, NodeId::Sin(0), None, Some(0));
    col(m, 2, 3, NodeId::FbWr(0), Some(0), None);
    col(m, 3, 0, NodeId::Inp(0), None, Some(0));
    col(m, 3, 1, NodeId::Delay(0), Some(0), Some(0));
    col(m, 3, 2, NodeId::Mix3(0), Some(2), None);
    col(m, 4, 0, NodeId::MidiP(0), None, Some(0));
    col(m, 4, 1, NodeId::Mix3(1), Some(1), None);
    col(m, 4, 2, NodeId::TSeq(1), None, Some(3));
    col(m, 4, 3, NodeId::Mix3(1), Some(2), None);
    if k == 1 {
        col(m, 5, 0, NodeId::Sin(3), None, Some(0));
        col(m, 5, 1, NodeId::Amp(5), Some(1), None);
    }
    m.sync().unwrap();
    let _ = m.set_param_modamt(pid(NodeId::Mix3(0), "ch3"), Some(0.5 - k as f32 * 0.2));
    if k == 1 {
        let _ = m.set_param_modamt(pid(NodeId::Amp(5), "gain"), Some(0.25));
    }
    fill(m, 0, k);
    if k == 0 {
        fill(m, 1, 2);
    }
    program(&mut m.get_block_function(0).unwrap().lock().unwrap(), 1 + k);
    m.set_prop("p", SAtom::setting(k as i64));
    if k == 1 {
        m.set_prop("q", SAtom::str("only here"));
    }
    m.sync().unwrap();
}

pub fn patch(k: usize) -> Vec<u8> {
    let mut e = engine(W, H);
    rich(&mut e.m, k);
    save_patch_to_mem(&mut e.m)
}

const NOPS: usize = 14;

fn op(e: &mut Eng, o: usize, frame: &mut usize, patches: &[Vec<u8>], c: &mut Case) -> Result<(), String> {
    c.step();
    match o {
        0 => {
            c.log(|| "audio block".into());
            audio(e, 1, frame);
        }
        1 => {
            c.log(|| "place everything (rich 0)".into());
            rich(&mut e.m, 0);
            polled(&mut e.m);
        }
        2 => {
            c.log(|| "load patch 1".into());
            load_patch_from_mem(&mut e.m, &patches[1]).map_err(|e| format!("{:?}", e))?;
            polled(&mut e.m);
        }
        3 => {
            c.log(|| "clear".into());
            e.m.clear();
        }
        4 => {
            c.log(|| "set parameters".into());
            for (n, p, v) in [(NodeId::Sin(0), "freq", 0.2), (NodeId::Mix3(0), "vol2", 0.1), (NodeId::Delay(0), "fb", 0.5), (NodeId::Out(0), "vol", 0.4), (NodeId::Sin(1), "pm", 0.3)] {
                e.m.set_param(pid(n, p), SAtom::param(v));
            }
        }
        5 => {
            c.log(|| "set settings".into());
            e.m.set_param(pid(NodeId::Out(0), "mono"), SAtom::setting(1));
            e.m.set_param(pid(NodeId::MidiP(0), "chan"), SAtom::setting(2));
            e.m.set_param(pid(NodeId::Sampl(0), "sample"), short_sample(40));
            e.m.set_param(pid(NodeId::TSeq(0), "cmode"), SAtom::setting(2));
        }
        6 => {
            c.log(|| "set amounts".into());
            for (n, p) in [(NodeId::Mix3(0), "ch3"), (NodeId::Mix3(0), "ch1"), (NodeId::Mix3(1), "ch1"), (NodeId::Amp(5), "att"), (NodeId::Sin(2), "pm")] {
                let _ = e.m.set_param_modamt(pid(n, p), Some(-0.75));
            }
        }
        7 => {
            c.log(|| "remove amounts".into());
            for (n, p) in [(NodeId::Mix3(0), "ch3"), (NodeId::Mix3(0), "ch1")] {
                let _ = e.m.set_param_modamt(pid(n, p), None);
            }
        }
        8 => {
            c.log(|| "edit patterns".into());
            for t in 0..3 {
                fill(&mut e.m, t, t + 1);
            }
            polled(&mut e.m);
        }
        9 => {
            c.log(|| "edit block programs".into());
            for (i, k) in [(0, 2), (1, 1), (2, 3)] {
                if let Some(f) = e.m.get_block_function(i) {
                    program(&mut f.lock().unwrap(), k);
                }
            }
            polled(&mut e.m);
        }
        10 => {
            c.log(|| "set properties".into());
            e.m.set_prop("p", SAtom::setting(99));
            e.m.set_prop("r", SAtom::str("old"));
        }
        11 => {
            c.log(|| "feedback loop, other nodes".into());
            for x in 0..W {
                for y in 0..H {
                    e.m.place(x, y, Cell::empty(NodeId::Nop));
                }
            }
            e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
            e.m.place(0, 1, Cell::empty(NodeId::FbWr(0)).input(Some(0), None, None));
            e.m.place(2, 0, Cell::empty(NodeId::FbRd(0)).out(None, None, Some(0)));
            e.m.place(2, 1, Cell::empty(NodeId::Delay(0)).input(Some(0), None, None).out(None, None, Some(0)));
            e.m.place(2, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
            e.m.place(4, 2, Cell::empty(NodeId::TSeq(2)));
            e.m.sync().unwrap();
        }
        12 => {
            c.log(|| "MIDI note".into());
            e.m.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: 70, vel: 0.9 });
            e.m.inject_midi_event(HxMidiEvent::NoteOn { channel: 3, note: 55, vel: 0.4 });
        }
        _ => {
            c.log(|| "monitor, refused edit".into());
            if let Some(cell) = e.m.get_copy(2, 2) {
                e.m.monitor_cell(cell);
            }
            let _ = e.m.change_matrix(|m| {
                m.place(0, 0, Cell::empty(NodeId::Amp(9)).out(None, None, Some(0)));
                m.place(0, 1, Cell::empty(NodeId::Amp(9)).input(Some(0), None, None));
            });
        }
    }
    Ok(())
}

fn audio(e: &mut Eng, n: usize, frame: &mut usize) -> Vec<u32> {
    let mut o = vec![];
    for _ in 0..n {
        e.x.process_graph_updates();
        let l: Vec<f32> = (0..100).map(|i| Sig::Smooth(2).at(*frame + i)).collect();
        let r: Vec<f32> = (0..100).map(|i| Sig::Pulse(0).at(*frame + i)).collect();
        *frame += 100;
        let (a, b) = block2(&mut e.x, &l, &r);
        o.extend(bits(&a));
        o.extend(bits(&b));
    }
    o
}

#[derive(Clone)]
struct Want {
    seen: Seen,
    data: String,
    sound: Vec<u32>,
}

/// The action whose result must not depend on the past
fn last(e: &mut Eng, k: usize, patches: &[Vec<u8>]) -> Result<(), String> {
    match k {
        0 | 1 => load_patch_from_mem(&mut e.m, &patches[k]).map_err(|e| format!("{:?}", e))?,
        2 => {
            e.m.clear();
            e.m.sync().unwrap();
        }
        _ => {
            e.m.clear();
            rich(&mut e.m, 0);
        }
    }
    Ok(())
}

fn outcome(e: &mut Eng, frame0: usize) -> Want {
    let mut frame = frame0;
    let seen = see(&mut e.m, &PROPS);
    let data = String::from_utf8(save_patch_to_mem(&mut e.m)).unwrap();
    polled(&mut e.m);
    let mut sound = vec![];
    // a tracker takes over one changed pattern column per block: no clock pulse before that
    for i in 0..80 {
        polled(&mut e.m);
        e.x.process_graph_updates();
        block2(&mut e.x, &[0.01 * i as f32], &[0.0]);
    }
    for _ in 0..6 {
        polled(&mut e.m);
        sound.extend(audio(e, 2, &mut frame));
    }
    Want { seen, data, sound }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "An execution applies one history of edits, loads, clears and audio blocks, then loads a patch or clears, and compares everything visible, the saved data and 1200 frames of sound with a fresh engine.".into();
    let patches: Vec<Vec<u8>> = (0..2).map(patch).collect();
    let want: Vec<Want> = (0..4)
        .map(|k| {
            let mut e = engine(W, H);
            last(&mut e, k, &patches).unwrap();
            outcome(&mut e, 5002)
        })
        .collect();
    let judge = |e: &mut Eng, k: usize, c: &mut Case| -> Result<(), String> {
        c.log(|| format!("finally {}", ["load patch 0", "load patch 1", "clear", "clear and place everything"][k]));
        last(e, k, &patches)?;
        let got = outcome(e, 5002);
        let w = &want[k];
        same("after the history", &w.seen, &got.seen, c)?;
        same("fresh engine", &got.seen, &w.seen, c)?;
        same_data("after the history", &w.data, &got.data, c)?;
        c.checks += w.sound.len() as u64;
        if got.sound != w.sound {
            let i = (0..w.sound.len()).find(|i| w.sound[*i] != got.sound[*i]).unwrap();
            return Err(format!(
                "sound differs from a fresh engine at block {} channel {} frame {}: {} instead of {}",
                i / 200, i % 200 / 100, i % 100, f32::from_bits(got.sound[i]), f32::from_bits(w.sound[i])
            ));
        }
        c.observe(&got.sound);
        Ok(())
    };
    let depth = mc.pick(3, 4);
    let n = seqs_upto(NOPS as u64, depth);
    mc.space("histories", n * 4, |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(4);
        let seq = seq_at(NOPS as u64, d.0);
        let mut e = engine(W, H);
        let mut f = 0;
        for o in seq.iter() {
            op(&mut e, *o, &mut f, &patches, c)?;
        }
        judge(&mut e, k, c)
    });
    // starting from the running patch
    let depth = 2;
    let n = seqs_upto(NOPS as u64, depth);
    mc.space("running-patch", n * 4 * 2, |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(4);
        let first = d.take(2) + 1;
        let seq = seq_at(NOPS as u64, d.0);
        let mut e = engine(W, H);
        let mut f = 0;
        op(&mut e, first, &mut f, &patches, c)?;
        audio(&mut e, 3, &mut f);
        for o in seq.iter() {
            op(&mut e, *o, &mut f, &patches, c)?;
            if d.0 % 2 == 1 {
                // and the audio side catches up after every edit
                audio(&mut e, 1, &mut f);
            }
        }
        judge(&mut e, k, c)
    });
    // many loads in a row with the audio side catching up after every `n`-th one
    mc.space("repeated-loads", 4 * 2 * 40, |idx, c| {
        let mut d = Dec(idx);
        let k = d.take(4);
        let running = d.flag();
        let n = d.0 as usize;
        c.log(|| format!("{} loads without audio, audio before {}", n, running));
        let mut e = engine(W, H);
        let mut f = 0;
        if running {
            rich(&mut e.m, 0);
            audio(&mut e, 2, &mut f);
        }
        for i in 0..n {
            c.step();
            load_patch_from_mem(&mut e.m, &patches[i % 2]).map_err(|e| format!("{:?}", e))?;
        }
        judge(&mut e, k, c)
    });
    mc.assume("a tracker takes over one changed pattern column per audio block, so the sound is compared after 80 one-frame blocks without a clock pulse");
    mc.assume("the sample rate, user supplied DSP nodes, external parameters and MIDI input belong to the host, not to the patch");
}
