//! Pattern edits against the playing tracker: the editor (PatternData), publishing
//! (send_one_update / check_pattern_data) and the audio side (check_updates / audio blocks)
//! are interleaved in every order.
use crate::mc::*;
use crate::nrig::*;
use hexodsp::dsp::tracker::*;
use hexodsp::matrix_repr::PatternRepr;
use hexodsp::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize, usize, u16),
    Clear(usize, usize),
    Rows(usize),
    Note(usize),
    Step(usize),
    Value(usize),
    Gate(usize),
    Load(usize),
    Change(usize, usize, i16),
    /// the frontend publishes one pending column
    Send,
    /// the audio side takes over one column
    Take,
    /// the audio side takes over one column in the middle of publishing, at that queue operation
    SendTake(usize),
    /// the audio side gets a new backend
    Backend,
}

fn loaded(k: usize) -> PatternRepr {
    let mut d = PatternData::new(256);
    d.set_rows(3 + k);
    d.set_col_gate_type(1);
    for r in 0..3 {
        d.set_cell_value(r, 0, 0x400 * (r as u16 + 1) - k as u16);
        d.set_cell_value(r, 1, 0xFF7);
    }
    d.to_repr()
}

fn apply(d: &mut PatternData, op: Op) {
    match op {
        Op::Set(r, c, v) => d.set_cell_value(r, c, v),
        Op::Clear(r, c) => d.clear_cell(r, c),
        Op::Rows(r) => d.set_rows(r),
        Op::Note(c) => d.set_col_note_type(c),
        Op::Step(c) => d.set_col_step_type(c),
        Op::Value(c) => d.set_col_value_type(c),
        Op::Gate(c) => d.set_col_gate_type(c),
        Op::Load(k) => d.from_repr(&loaded(k)),
        Op::Change(r, c, o) => {
            let m: &mut dyn UIPatternModel = d;
            m.change_value(r, c, o)
        }
        _ => panic!(),
    }
}

const PH: [f32; 14] = [0.0, 0.06, 0.13, 0.2, 0.27, 0.35, 0.42, 0.48, 0.57, 0.63, 0.7, 0.81, 0.9, 0.97];

fn heard(b: &mut TrackerBackend, col: usize) -> Vec<u32> {
    let mut o = [0.0; PH.len()];
    let mut g = [0.0; PH.len()];
    b.get_col_at_phase(col, &PH, &mut o, &mut g);
    let mut v = bits(&o);
    v.extend(bits(&g));
    v
}

fn reference(d: &PatternData) -> TrackerBackend {
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    t.data().lock().unwrap().from_repr(&d.to_repr());
    while t.send_one_update() {}
    while b.check_updates() {}
    b
}

fn compare(b: &mut TrackerBackend, d: &PatternData, c: &mut Case, when: &str) -> Result<(), String> {
    let mut r = reference(d);
    c.checks += 1;
    if b.pattern_len() != r.pattern_len() {
        return Err(format!("{}: the tracker plays {} rows, the editor has {}", when, b.pattern_len(), r.pattern_len()));
    }
    for col in 0..MAX_COLS {
        c.checks += 1;
        let (mut a, mut w) = (heard(b, col), heard(&mut r, col));
        // gates with a probability are random; their gate output is not
        if d.is_col_gate(col) && d.to_repr().data.iter().any(|row| row[col] >= 0 && row[col] < 0xF00) {
            a.drain(0..PH.len());
            w.drain(0..PH.len());
        }
        if a != w {
            return Err(format!("{}: column {} does not sound like the pattern in the editor", when, col));
        }
    }
    Ok(())
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every sequence of editor operations, publish steps and take-over steps up to the depth is executed on the real tracker; after publishing has caught up the backend must play what a fresh tracker loaded with the editor's pattern plays.".into();
    let al = [
        Op::Set(0, 0, 0x800),
        Op::Set(2, 0, 0xFFF),
        Op::Set(1, 1, 0xFF7),
        Op::Clear(0, 0),
        Op::Rows(3),
        Op::Rows(5),
        Op::Note(0),
        Op::Gate(1),
        Op::Step(0),
        Op::Load(0),
        Op::Send,
        Op::Take,
        Op::Backend,
        Op::SendTake(0),
        Op::SendTake(1),
    ];
    let depth = mc.pick(5, 6);
    let n = seqs_upto(al.len() as u64, depth);
    mc.space("interleavings", n * 2, |idx, c| {
        let pre = idx % 2 == 1;
        let seq = seq_at(al.len() as u64, idx / 2);
        let mut t = Tracker::new();
        let mut b = t.get_backend();
        let data = t.data();
        if pre {
            // start from a pattern that plays
            apply(&mut data.lock().unwrap(), Op::Load(1));
            while t.send_one_update() {}
            while b.check_updates() {}
        }
        c.log(|| format!("starting with {}", if pre { "a playing pattern" } else { "a new tracker" }));
        for i in seq.iter() {
            let op = al[*i as usize];
            c.step();
            c.log(|| format!("{:?}", op));
            match op {
                Op::Send => {
                    t.send_one_update();
                }
                Op::Take => {
                    b.check_updates();
                }
                Op::SendTake(k) => {
                    crate::eng::at_points(
                        &[k],
                        &mut |_| {
                            b.check_updates();
                        },
                        || t.send_one_update(),
                    );
                }
                Op::Backend => b = t.get_backend(),
                _ => apply(&mut data.lock().unwrap(), op),
            }
            c.observe(&(0..2).map(|i| heard(&mut b, i)).collect::<Vec<_>>());
        }
        // publishing and taking over in lock step, as a frontend and audio thread do
        for _ in 0..MAX_COLS + 2 {
            t.send_one_update();
            b.check_updates();
        }
        while b.check_updates() {}
        compare(&mut b, &data.lock().unwrap(), c, "after catching up")?;
        // nothing stays pending
        c.checks += 1;
        if t.send_one_update() {
            return Err("a column is published again although nothing changed".into());
        }
        Ok(())
    });
    // bursts: k edits, each published at once, before the audio side takes over anything
    let burst = mc.pick(150, 300) as u64;
    mc.space("bursts", burst * 3, |idx, c| {
        let mut d = Dec(idx);
        let how = d.take(3);
        let k = d.0 as usize;
        let mut t = Tracker::new();
        let mut b = t.get_backend();
        let data = t.data();
        c.log(|| format!("{} edits, publishing {}", k, ["every edit", "every edit twice, taking over every third", "every column after each edit"][how]));
        data.lock().unwrap().set_rows(4);
        for e in 0..k {
            c.step();
            data.lock().unwrap().set_cell_value(e % 4, e % 5, (e * 37) as u16 & 0xFFF);
            match how {
                0 => {
                    t.send_one_update();
                }
                1 => {
                    t.send_one_update();
                    t.send_one_update();
                    if e % 3 == 0 {
                        b.check_updates();
                    }
                }
                _ => {
                    while t.send_one_update() {
                        c.step();
                    }
                }
            }
        }
        let mut rounds = 0;
        loop {
            let taken = b.check_updates();
            let sent = t.send_one_update();
            rounds += 1;
            if !taken && !sent && !b.check_updates() {
                break;
            }
            if rounds > 500 {
                return Err("publishing never comes to an end".into());
            }
        }
        c.observe(&(0..6).map(|i| heard(&mut b, i)).collect::<Vec<_>>());
        compare(&mut b, &data.lock().unwrap(), c, "after the burst")?;
        Ok(())
    });
    // every editing operation, from every column kind, one at a time, over a playing pattern
    let ops: Vec<Op> = {
        let mut v = vec![];
        for col in 0..MAX_COLS {
            for r in [0usize, 1, 3, 5, 255] {
                v.push(Op::Set(r, col, 0xF3A));
                v.push(Op::Set(r, col, 0));
                v.push(Op::Clear(r, col));
                v.push(Op::Change(r, col, 5));
                v.push(Op::Change(r, col, -300));
                v.push(Op::Change(r, col, 4095));
            }
            v.extend([Op::Note(col), Op::Step(col), Op::Value(col), Op::Gate(col)]);
        }
        for r in [1, 2, 3, 5, 6, 16, 256, 300] {
            v.push(Op::Rows(r));
        }
        v.extend([Op::Load(0), Op::Load(2), Op::Set(256, 0, 1), Op::Set(0, 6, 1), Op::Clear(256, 9), Op::Gate(6), Op::Note(7), Op::Step(6), Op::Value(6), Op::Set(1000, 1000, 9)]);
        v
    };
    let nops = ops.len();
    mc.space("each-edit", (nops * 4 * 2 * nops) as u64, |idx, c| {
        let mut d = Dec(idx);
        let kind = d.take(4);
        let rows = [4, 256][d.take(2)];
        let op2 = ops[d.take(nops)];
        let op = ops[d.0 as usize];
        // the second edit only for a third of the pairs in the quick tier
        let mut t = Tracker::new();
        let mut b = t.get_backend();
        let data = t.data();
        {
            let mut d = data.lock().unwrap();
            d.set_rows(rows);
            for col in 0..MAX_COLS {
                match kind {
                    0 => d.set_col_note_type(col),
                    1 => d.set_col_step_type(col),
                    2 => d.set_col_value_type(col),
                    _ => d.set_col_gate_type(col),
                }
                d.set_cell_value(1, col, 0xF80 + col as u16);
                d.set_cell_value(2, col, 0xF11 + col as u16);
            }
        }
        while t.send_one_update() {}
        while b.check_updates() {}
        c.log(|| format!("kind {}, {} rows, then {:?}, then {:?}", kind, rows, op, op2));
        for o in [op, op2] {
            c.step();
            let g0 = data.lock().unwrap().get_generation();
            let r0 = data.lock().unwrap().to_repr();
            apply(&mut data.lock().unwrap(), o);
            let g1 = data.lock().unwrap().get_generation();
            let r1 = data.lock().unwrap().to_repr();
            c.checks += 1;
            if g0 == g1 && (r0.data != r1.data || r0.rows != r1.rows || r0.col_types != r1.col_types) {
                return Err(format!("{:?} changed the pattern, but the generation counter says it did not", o));
            }
            while t.send_one_update() {}
            while b.check_updates() {}
        }
        c.observe(&(0..6).map(|i| heard(&mut b, i)).collect::<Vec<_>>());
        compare(&mut b, &data.lock().unwrap(), c, "after the edits")?;
        Ok(())
    });
    // the same through the node: editor, check_pattern_data and audio callbacks
    let nal = [Op::Set(0, 0, 0x800), Op::Set(1, 1, 0xFFF), Op::Rows(2), Op::Gate(1), Op::Load(0), Op::Send, Op::Take];
    let nd = mc.pick(4, 5);
    let nn = seqs_upto(nal.len() as u64, nd);
    mc.space("through-the-node", nn * 2, |idx, c| {
        let late = idx % 2 == 1;
        let seq = seq_at(nal.len() as u64, idx / 2);
        let mk = || NRig::new(NodeId::TSeq(3), &[Some(Sig::Ramp { period: 60, skip: 0, amp: 1.0 })]);
        let mut r = mk();
        let setup = |r: &mut NRig| r.nc.set_param(NodeId::TSeq(3).inp_param("cmode").unwrap(), SAtom::setting(2));
        setup(&mut r);
        if !late {
            r.upload();
        }
        let g = r.nc.get_node_global();
        let data = g.lock().unwrap().get_pattern_data(3);
        for i in seq.iter() {
            let op = nal[*i as usize];
            c.step();
            c.log(|| format!("{:?}", op));
            match op {
                Op::Send => g.lock().unwrap().check_pattern_data(3),
                Op::Take => r.block(60),
                _ => apply(&mut data.lock().unwrap(), op),
            }
        }
        if late {
            r.upload();
        }
        for _ in 0..8 {
            g.lock().unwrap().check_pattern_data(3);
            r.block(60);
        }
        r.clear_logs();
        r.block(60);
        let have = r.streams();
        // a fresh engine with the final pattern
        let mut f = mk();
        setup(&mut f);
        f.upload();
        let fg = f.nc.get_node_global();
        fg.lock().unwrap().get_pattern_data(3).lock().unwrap().from_repr(&data.lock().unwrap().to_repr());
        for _ in 0..8 {
            fg.lock().unwrap().check_pattern_data(3);
            f.block(60);
        }
        f.clear_logs();
        f.block(60);
        let want = f.streams();
        c.observe(&have.iter().map(|x| bits(x)).collect::<Vec<_>>());
        for (o, (a, b)) in have.iter().zip(want.iter()).enumerate() {
            c.checks += 1;
            if bits(a) != bits(b) {
                return Err(format!("output {} does not play the pattern in the editor", o));
            }
        }
        Ok(())
    });
    mc.assume("the lock-free ring buffer between the frontend and the audio thread (external crate) delivers in order; schedules are interleavings of whole calls");
}
