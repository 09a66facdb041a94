use crate::eng::{at_points, block2};
use crate::mc::*;
use crate::nrig::*;
use hexodsp::nodes::{EventWindowing, GraphEvent, HxMidiEvent, HxTimedEvent};
use hexodsp::*;
use synfx_dsp::{GateSignal, SlewValue, TrigSignal};

/// (frame, event)
type Ev = (usize, HxMidiEvent);

fn on(ch: u8, note: u8, vel: f32) -> HxMidiEvent {
    HxMidiEvent::NoteOn { channel: ch, note, vel }
}
fn off(ch: u8, note: u8) -> HxMidiEvent {
    HxMidiEvent::NoteOff { channel: ch, note }
}
fn cc(ch: u8, cc: u8, value: f32) -> HxMidiEvent {
    HxMidiEvent::CC { channel: ch, cc, value }
}

/// Reference of the note node: pitch, gate and velocity per frame.
struct NoteRef {
    chan: u8,
    mode: usize,
    glen: f32,
    det: f32,
    cur: Option<(u8, f32)>,
    high: bool,
    /// the gate changes to this with the next frame
    next: Option<bool>,
    trig: TrigSignal,
    gate: GateSignal,
}
impl NoteRef {
    fn frame(&mut self, evs: &[HxMidiEvent]) -> (Option<(f32, f32)>, f32) {
        if let Some(n) = self.next.take() {
            self.high = n;
        }
        for e in evs {
            match *e {
                HxMidiEvent::NoteOn { channel, note, vel } if channel == self.chan => {
                    if self.high {
                        // one low frame, so that the new note is seen
                        self.high = false;
                        self.next = Some(true);
                    } else {
                        self.high = true;
                    }
                    self.trig.trigger();
                    self.gate.trigger();
                    self.cur = Some((note, vel));
                }
                HxMidiEvent::NoteOff { channel, note } if channel == self.chan => {
                    if self.cur.map(|c| c.0).unwrap_or(0) == note {
                        self.next = Some(false);
                    }
                }
                _ => {}
            }
        }
        let g = match self.mode {
            1 => self.trig.next(),
            2 => {
                if self.next == Some(true) {
                    self.high = false;
                    0.0
                } else {
                    let g = self.gate.next(self.glen);
                    self.high = g > 0.0;
                    g
                }
            }
            _ => self.high as usize as f32,
        };
        (self.cur.map(|(n, v)| ((n as f32 - 69.0) / 120.0 + self.det, v)), g)
    }
}

fn ev_eq(a: &HxMidiEvent, b: &HxMidiEvent) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

/// Runs host callbacks of `host` frames, cut into engine blocks of `cut` frames;
/// `inj[k]` is injected by the frontend before the engine block `k`.
fn drive(r: &mut NRig, evs: &[Ev], total: usize, host: usize, cut: usize, inj: &[(usize, HxMidiEvent)], c: &mut Case) -> Result<Vec<(usize, HxMidiEvent)>, String> {
    let mut delivered = vec![];
    let mut reported = vec![];
    let mut base = 0;
    let mut blk = 0;
    while base < total {
        let hn = host.min(total - base);
        let mut mine = evs.iter().filter(|e| e.0 >= base && e.0 < base + hn).map(|e| HxTimedEvent::new_timed(e.0 - base, e.1)).collect::<Vec<_>>().into_iter();
        let mut win = EventWindowing::new();
        let mut offs = 0;
        while offs < hn {
            c.step();
            let n = cut.min(hn - offs);
            for (b, e) in inj.iter() {
                if *b == blk {
                    r.nc.inject_midi_event(*e);
                    delivered.push((base + offs, *e));
                }
            }
            r.x.process_graph_updates();
            r.x.feed_midi_events_from(|| {
                if win.feed_me() {
                    win.feed(mine.next()?);
                }
                win.next_event_in_range(offs, n)
            });
            for e in evs.iter().filter(|e| e.0 >= base + offs && e.0 < base + offs + n) {
                delivered.push(*e);
            }
            r.block(n);
            while let Some(GraphEvent::MIDI(e)) = r.nc.next_event() {
                reported.push(e);
            }
            offs += n;
            blk += 1;
        }
        base += hn;
    }
    c.checks += 1;
    if reported.len() != delivered.len() || !reported.iter().zip(delivered.iter()).all(|(a, b)| ev_eq(a, &b.1)) {
        return Err(format!("the frontend was told {:?}, the events were {:?}", reported, delivered));
    }
    Ok(delivered)
}

fn note_node(chan: i64, mode: usize, glen: f32, det: f32) -> NRig {
    note_node_at(44100.0, chan, mode, glen, det)
}
fn note_node_at(srate: f32, chan: i64, mode: usize, glen: f32, det: f32) -> NRig {
    let n = NodeId::MidiP(0);
    let mut r = NRig::new(n, &[None, None]);
    r.nc.set_param(n.inp_param("chan").unwrap(), SAtom::setting(chan));
    r.nc.set_param(n.inp_param("gmode").unwrap(), SAtom::setting(mode as i64));
    let p = n.inp_param("glen").unwrap();
    r.nc.set_param(p, SAtom::param(p.norm(glen)));
    r.nc.set_param(n.inp_param("det").unwrap(), SAtom::param(det));
    r.x.set_sample_rate(srate);
    r.upload();
    r
}

fn check_notes(r: &NRig, delivered: &[Ev], mut m: NoteRef, total: usize, c: &mut Case) -> Result<(), String> {
    let st = r.streams();
    c.observe(&st.iter().map(|x| bits(x)).collect::<Vec<_>>());
    for f in 0..total {
        let evs: Vec<HxMidiEvent> = delivered.iter().filter(|e| e.0 == f).map(|e| e.1).collect();
        let (pv, g) = m.frame(&evs);
        c.checks += 1;
        if st[1][f] != g {
            return Err(format!("frame {}: gate {} instead of {}", f, st[1][f], g));
        }
        if let Some((p, v)) = pv {
            if (st[0][f] - p).abs() > 1e-6 || st[2][f] != v {
                return Err(format!("frame {}: pitch {} velocity {}, the note played has pitch {} velocity {}", f, st[0][f], st[2][f], p, v));
            }
        }
    }
    Ok(())
}

fn note_ref(r: &NRig, chan: u8, mode: usize, det: f32) -> NoteRef {
    let p = r.n.inp_param("glen").unwrap();
    let glen = match r.nc.get_param(&p) {
        Some(a) => p.denorm(a.f()),
        None => panic!(),
    };
    NoteRef { chan, mode, glen, det, cur: None, high: false, next: None, trig: TrigSignal::new(), gate: GateSignal::new() }
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every event sequence up to the stated length over the event alphabet and frame distances is fed to the real nodes in every block cut of the list and compared frame by frame with a reference note / controller tracker; every event must also be reported to the frontend once.".into();
    let al = [on(0, 60, 0.5), on(0, 62, 1.0), off(0, 60), off(0, 62), on(1, 60, 0.25), off(1, 60), cc(0, 1, 0.5)];
    let dist = [0usize, 1, 3];
    let len = mc.pick(3, 4);
    let k = (al.len() * dist.len()) as u64;
    let cuts = [(64usize, 1usize), (24, 5), (24, 24)];
    let nsq = seqs_upto(k, len);
    mc.space("notes", nsq * 3 * cuts.len() as u64, |idx, c| {
        let mut d = Dec(idx);
        let mode = d.take(3);
        let (host, cut) = cuts[d.take(3)];
        let sq = seq_at(k, d.0);
        let mut t = 2;
        let evs: Vec<Ev> = sq
            .iter()
            .map(|s| {
                let mut d = Dec(*s as u64);
                t += dist[d.take(3)];
                (t, al[d.0 as usize])
            })
            .collect();
        c.log(|| format!("gate mode {}, callbacks of {} frames in blocks of {}, events {:?}", mode, host, cut, evs));
        let total = 24;
        let mut r = note_node(0, mode, 0.1, 0.01);
        let dl = drive(&mut r, &evs, total, host, cut, &[], c)?;
        let m = note_ref(&r, 0, mode, 0.01);
        check_notes(&r, &dl, m, total, c)
    });
    // the trigger is longer than the above: also a long run
    mc.space("note-timing", 200 * 3 * 3 * 3, |idx, c| {
        let mut d = Dec(idx);
        let mode = d.take(3);
        let (host, cut) = [(256, 128), (100, 32), (512, 77)][d.take(3)];
        let rate = [44100.0f32, 22050.0, 96000.0][d.take(3)];
        let t = d.0 as usize;
        let evs = vec![(t, on(0, 72, 0.9)), (t + 20, on(0, 73, 0.8)), (t + 150, off(0, 72)), (t + 170, off(0, 73)), (t + 400, on(0, 50, 0.7))];
        c.log(|| format!("gate mode {}, callbacks of {} frames in blocks of {}, events {:?}", mode, host, cut, evs));
        let total = 800;
        let mut r = note_node_at(rate, 0, mode, 3.0, 0.0);
        let dl = drive(&mut r, &evs, total, host, cut, &[], c)?;
        let mut m = note_ref(&r, 0, mode, 0.0);
        m.trig.set_sample_rate(rate);
        m.gate.set_sample_rate(rate);
        check_notes(&r, &dl, m, total, c)
    });
    mc.space("channels-and-keys", 16 * 16 * 128, |idx, c| {
        let mut d = Dec(idx);
        let (sel, ch, key) = (d.take(16), d.take(16) as u8, d.0 as u8);
        c.log(|| format!("node on channel {}, key {} on channel {}", sel, key, ch));
        let mut r = note_node(sel as i64, 0, 1.0, 0.0);
        let evs = vec![(1, on(ch, key, key as f32 / 127.0)), (4, off(ch, key))];
        let dl = drive(&mut r, &evs, 8, 8, 8, &[], c)?;
        let m = note_ref(&r, sel as u8, 0, 0.0);
        check_notes(&r, &dl, m, 8, c)
    });
    // controllers
    let cal = [cc(0, 1, 0.5), cc(0, 2, 1.0), cc(0, 3, 0.25), cc(1, 1, 0.75), on(0, 1, 0.3), cc(0, 1, 0.0)];
    let ck = (cal.len() * dist.len()) as u64;
    let clen = mc.pick(2, 3);
    let ncs = seqs_upto(ck, clen);
    mc.space("controllers", ncs * 27 * 8, |idx, c| {
        let mut d = Dec(idx);
        let slew = d.flag();
        let (host, cut) = cuts[d.take(2)];
        let rate = [44100.0f32, 96000.0][d.take(2)];
        let sel = [d.take(3) + 1, d.take(3) + 1, d.take(3) + 1];
        let sq = seq_at(ck, d.0);
        let mut t = 2;
        let evs: Vec<Ev> = sq
            .iter()
            .map(|s| {
                let mut d = Dec(*s as u64);
                t += dist[d.take(3)];
                (t, cal[d.0 as usize])
            })
            .collect();
        c.log(|| format!("controllers {:?}, slew {}, blocks of {}, events {:?}", sel, slew, cut, evs));
        let n = NodeId::MidiCC(2);
        let mut r = NRig::new(n, &[None]);
        for (i, s) in sel.iter().enumerate() {
            r.nc.set_param(n.inp_param(["cc1", "cc2", "cc3"][i]).unwrap(), SAtom::setting(*s as i64));
        }
        let sp = n.inp_param("slew").unwrap();
        let sv = if slew { sp.norm(0.2) } else { 0.0 };
        r.nc.set_param(sp, SAtom::param(sv));
        r.x.set_sample_rate(rate);
        r.upload();
        let total = 24;
        let dl = drive(&mut r, &evs, total, host, cut, &[], c)?;
        let st = r.streams();
        c.observe(&st.iter().map(|x| bits(x)).collect::<Vec<_>>());
        let mut target = [0.0f32; 3];
        let mut sl = [SlewValue::<f32>::new(); 3];
        for s in sl.iter_mut() {
            s.set_sample_rate(rate);
        }
        for f in 0..total {
            for (_, e) in dl.iter().filter(|e| e.0 == f) {
                if let HxMidiEvent::CC { channel: 0, cc, value } = e {
                    for i in 0..3 {
                        if sel[i] == *cc as usize {
                            target[i] = *value;
                        }
                    }
                }
            }
            for i in 0..3 {
                c.checks += 1;
                let w = sl[i].next(target[i], sp.denorm(sv));
                if (st[i][f] - w).abs() > 1e-6 {
                    return Err(format!("frame {}: output {} (controller {}) is {} instead of {}", f, i + 1, sel[i], st[i][f], w));
                }
            }
        }
        Ok(())
    });
    mc.space("controller-channels", 16 * 16 * 128, |idx, c| {
        let mut d = Dec(idx);
        let (sel, ch, num) = (d.take(16), d.take(16) as u8, d.0 as u8);
        let n = NodeId::MidiCC(0);
        let mut r = NRig::new(n, &[None]);
        r.nc.set_param(n.inp_param("chan").unwrap(), SAtom::setting(sel as i64));
        r.nc.set_param(n.inp_param("cc2").unwrap(), SAtom::setting(num as i64));
        r.nc.set_param(n.inp_param("cc3").unwrap(), SAtom::setting((num as i64 + 1) % 128));
        r.upload();
        let dl = drive(&mut r, &[(2, cc(ch, num, 0.7))], 6, 6, 6, &[], c)?;
        c.checks += 1;
        let st = r.streams();
        let hit = sel == ch as usize;
        let want = [if hit && num == 0 { 0.7 } else { 0.0 }, if hit { 0.7 } else { 0.0 }, 0.0];
        for i in 0..3 {
            for f in 0..6 {
                let w = if f >= 2 { want[i] } else { 0.0 };
                if st[i][f] != w {
                    return Err(format!("node on channel {}, controller {} on channel {} ({:?}): output {} frame {} is {} instead of {}", sel, num, ch, dl, i + 1, f, st[i][f], w));
                }
            }
        }
        Ok(())
    });
    // many events in one block
    mc.space("bursts", 500 * 2, |idx, c| {
        let mut d = Dec(idx);
        let ccs = d.flag();
        let n = d.0 as usize + 1;
        c.log(|| format!("{} events in one block of 128 frames", n));
        let evs: Vec<Ev> = (0..n)
            .map(|i| {
                let f = i * 128 / n;
                let e = if ccs && i % 3 == 1 { cc(0, 5, 0.1) } else if i % 5 == 4 { off(0, ((i - 1) % 100) as u8) } else { on(0, (i % 100) as u8, (i % 7) as f32 / 7.0) };
                (f, e)
            })
            .collect();
        let mut r = note_node(0, 0, 1.0, 0.0);
        // the report ring to the frontend is not part of this space
        let mut it = evs.iter().map(|e| HxTimedEvent::new_timed(e.0, e.1));
        r.x.process_graph_updates();
        r.x.feed_midi_events_from(|| it.next());
        c.step();
        r.block(128);
        r.x.feed_midi_events_from(|| None);
        r.block(128);
        let m = note_ref(&r, 0, 0, 0.0);
        check_notes(&r, &evs, m, 256, c)
    });
    mc.space("controller bursts", 1000, |idx, c| {
        let n = idx as usize;
        c.log(|| format!("{} controllers and then two notes in one block of 128 frames", n));
        let mut evs: Vec<Ev> = (0..n).map(|i| (i * 100 / n, cc(0, (i % 120) as u8, 0.1))).collect();
        evs.push((101, on(0, 50, 0.5)));
        evs.push((110, off(0, 50)));
        evs.push((120, on(0, 61, 0.75)));
        let mut r = note_node(0, 0, 1.0, 0.0);
        let mut it = evs.iter().map(|e| HxTimedEvent::new_timed(e.0, e.1));
        r.x.process_graph_updates();
        r.x.feed_midi_events_from(|| it.next());
        c.step();
        r.block(128);
        r.x.feed_midi_events_from(|| None);
        r.block(128);
        let m = note_ref(&r, 0, 0, 0.0);
        check_notes(&r, &evs, m, 256, c)
    });
    // injected by the frontend, mixed with events of the host
    let ial = [on(0, 60, 0.5), off(0, 60), on(0, 64, 0.7), cc(0, 0, 0.4)];
    let il = mc.pick(4, 5);
    // each position: nothing, an injected event, a host event
    let ik = 2 * ial.len() as u64;
    let nis = seqs_upto(ik, il);
    mc.space("injected", nis * 2, |idx, c| {
        let cut = [1, 4][(idx % 2) as usize];
        let sq = seq_at(ik, idx / 2);
        let mut inj = vec![];
        let mut evs = vec![];
        // event i happens in engine block i / 2
        for (i, s) in sq.iter().enumerate() {
            let e = ial[*s as usize % ial.len()];
            let b = i / 2;
            if (*s as usize) < ial.len() {
                inj.push((b, e));
            } else {
                evs.push((b * cut + (i % 2).min(cut - 1), e));
            }
        }
        c.log(|| format!("blocks of {}, injected before block {:?}, host events {:?}", cut, inj, evs));
        let total = cut * 6;
        let mut r = note_node(0, 0, 1.0, 0.0);
        let dl = drive(&mut r, &evs, total, cut, cut, &inj, c)?;
        let m = note_ref(&r, 0, 0, 0.0);
        check_notes(&r, &dl, m, total, c)
    });
    mc.space("injected-bursts", 64 * 3, |idx, c| {
        let mut d = Dec(idx);
        let n = d.take(64) + 1;
        let late = d.take(3);
        let inj: Vec<(usize, HxMidiEvent)> = (0..n).map(|i| (late, if i % 3 == 2 { off(0, 40 + i as u8 - 1) } else { on(0, 40 + i as u8, 0.01 * i as f32) })).collect();
        c.log(|| format!("{} injected events before block {}", n, late));
        let mut r = note_node(0, 0, 1.0, 0.0);
        let dl = drive(&mut r, &[], 40, 10, 10, &inj, c)?;
        let m = note_ref(&r, 0, 0, 0.0);
        check_notes(&r, &dl, m, 40, c)
    });
    // the frontend injects events and fetches reports while the audio callback runs: right before any
    // operation on the queues between them
    let kinds = ial.len();
    let (most, points) = (mc.pick(2, 3) as u32, 14usize);
    mc.space("injected-in-the-middle", pow(kinds as u64 * 2, most) * pow(points as u64, most) * 3, move |idx, c| {
        let mut d = Dec(idx);
        let hosts = d.take(3);
        let mut acts: Vec<(usize, HxMidiEvent, bool)> = (0..most).map(|_| (d.take(points), ial[d.take(kinds)], d.flag())).collect();
        acts.sort_by_key(|a| a.0);
        let evs: Vec<Ev> = (0..hosts).map(|i| (2 + 5 * i, if i % 2 == 0 { on(0, 50, 0.3) } else { off(0, 50) })).collect();
        c.log(|| format!("(queue operation, event, report fetched before it) {:?}, host events {:?}", acts, evs));
        let mut r = note_node(0, 0, 1.0, 0.0);
        let mut inj: Vec<HxMidiEvent> = vec![];
        let mut delivered: Vec<Ev> = vec![];
        let mut seen = 0;
        let mut ops = 0;
        for blk in 0..6 {
            let base = blk * 4;
            let mut reported: Vec<HxMidiEvent> = vec![];
            let mut mine = evs.iter().filter(|e| e.0 >= base && e.0 < base + 4).map(|e| HxTimedEvent::new_timed(e.0 - base, e.1)).collect::<Vec<_>>().into_iter();
            let (nc, x) = (&mut r.nc, &mut r.x);
            let at: Vec<usize> = acts.iter().filter(|a| a.0 >= ops && blk < 4).map(|a| a.0 - ops).collect();
            let (out, n) = at_points(
                &at,
                &mut |k| {
                    for (_, e, fetch) in acts.iter().filter(|a| a.0 == ops + k) {
                        if *fetch {
                            while let Some(GraphEvent::MIDI(e)) = nc.next_event() {
                                reported.push(e);
                            }
                        }
                        nc.inject_midi_event(*e);
                        inj.push(*e);
                    }
                },
                || {
                    x.process_graph_updates();
                    x.feed_midi_events_from(|| mine.next());
                    block2(x, &[0.0; 4], &[0.0; 4])
                },
            );
            ops += n;
            c.step();
            r.out.0.extend(out.0);
            r.out.1.extend(out.1);
            r.frame += 4;
            while let Some(GraphEvent::MIDI(e)) = r.nc.next_event() {
                reported.push(e);
            }
            let host: Vec<HxMidiEvent> = evs.iter().filter(|e| e.0 >= base && e.0 < base + 4).map(|e| e.1).collect();
            let k = reported.len().checked_sub(host.len()).ok_or_else(|| format!("block {}: {:?} reported, the host events are {:?}", blk, reported, host))?;
            c.checks += 1;
            let want: Vec<HxMidiEvent> = inj[seen..].iter().take(k).chain(host.iter()).copied().collect();
            if want.len() != reported.len() || !want.iter().zip(reported.iter()).all(|(a, b)| ev_eq(a, b)) {
                return Err(format!("block {}: {:?} reported, expected {:?} of the injected ones", blk, reported, want));
            }
            delivered.extend(inj[seen..seen + k].iter().map(|e| (base, *e)));
            seen += k;
            delivered.extend(evs.iter().filter(|e| e.0 >= base && e.0 < base + 4));
        }
        if seen != inj.len() {
            return Err(format!("{} of {} injected events were taken", seen, inj.len()));
        }
        c.observe(&delivered.iter().map(|e| e.0).collect::<Vec<_>>());
        let m = note_ref(&r, 0, 0, 0.0);
        check_notes(&r, &delivered, m, 24, c)
    });
    mc.assume("the host calls feed_midi_events_from once per block with events in time order, at most 512 notes and 1024 controllers per block; at most 64 injected events are pending at once");
}
